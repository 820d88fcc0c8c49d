import asyncio
from expression.core import aiotools
from expression.system import CancellationTokenSource
async def main():
    got = []
    s = CancellationTokenSource()
    ev = asyncio.Event()
    async def w():
        got.append(1)
        await ev.wait()
        got.append(2)
    aiotools.start(w(), s.token)
    await asyncio.sleep(0.01)
    ev.set()
    await asyncio.sleep(0)
    s.cancel()
    await asyncio.sleep(0.01)
    assert got == [1] or got == [1, 2]
    got2 = []
    s = CancellationTokenSource()
    async def v():
        got2.append(1)
    aiotools.start(v(), s.token)
    s.cancel()
    await asyncio.sleep(0.01)
    assert got2 == [], got2
asyncio.run(main())
