import asyncio
from expression import MailboxProcessor
async def main():
    async def body(inbox):
        while True:
            msg, ch = await inbox.receive()
            ch.reply(msg)
    m = MailboxProcessor.start(body)
    for v in (None, 0, "", (), [], {}):
        r = await asyncio.wait_for(m.post_and_async_reply(lambda ch: (v, ch)), 5)
        assert r == v
asyncio.run(main())
