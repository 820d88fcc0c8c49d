import asyncio
from expression import MailboxProcessor
async def main():
    got = []
    n = 6000
    async def body(inbox):
        while len(got) < n:
            got.append(await inbox.receive())
    m = MailboxProcessor.start(body)
    for i in range(n): m.post(i)
    for _ in range(200):
        await asyncio.sleep(0.01)
        if len(got) == n: break
    assert got == list(range(n)), len(got)
asyncio.run(main())
