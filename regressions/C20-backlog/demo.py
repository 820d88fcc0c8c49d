import asyncio
from expression.core import MailboxProcessor
got = []
async def body(inbox):
    while True: got.append(await inbox.receive())
async def main():
    m = MailboxProcessor.start(body)
    for i in range(300): m.post(i)
    for _ in range(2000): await asyncio.sleep(0)
asyncio.run(main())
assert got == list(range(300))
