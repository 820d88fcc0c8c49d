import asyncio
from expression.core import MailboxProcessor
async def body(inbox):
    while True:
        ch = await inbox.receive()
        ch.reply(None)
async def main():
    m = MailboxProcessor.start(body)
    fs = [asyncio.ensure_future(m.post_and_async_reply(lambda ch: ch)) for _ in range(3)]
    await asyncio.wait(fs, timeout=1)
    return [f.done() for f in fs]
assert asyncio.run(main()) == [True] * 3
