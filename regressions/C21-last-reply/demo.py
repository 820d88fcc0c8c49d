import asyncio
from expression import MailboxProcessor
async def main():
    async def body(inbox):
        while True:
            ch = await inbox.receive()
            ch.reply(1)
            ch.reply(2)
    m = MailboxProcessor.start(body)
    await asyncio.sleep(0.01)
    aw = m.post_and_async_reply(lambda ch: ch)
    assert await aw == 1
    chs = []
    def build(ch):
        ch.reply("a"); ch.reply("b")
        return ch
    assert await m.post_and_async_reply(build) == "a"
asyncio.run(main())
