import asyncio
from expression.core import MailboxProcessor
got = []
async def body(inbox):
    while True: got.append(await inbox.receive())
async def main():
    m = MailboxProcessor.start(body)
    for i in range(150): m.post("tick")
    for _ in range(2000): await asyncio.sleep(0)
asyncio.run(main())
assert len(got) == 150, len(got)
