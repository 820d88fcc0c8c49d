import asyncio, gc, weakref
from expression.core import aiotools
from expression.system import CancellationTokenSource
class O: pass
async def main():
    s = CancellationTokenSource()
    o = O(); r = weakref.ref(o)
    async def comp(o):
        await asyncio.sleep(0)
        raise ValueError
    asyncio.get_running_loop().set_exception_handler(lambda *a: None)
    aiotools.start(comp(o), s.token); del o
    await asyncio.sleep(0.02); gc.collect()
    assert len(s._listeners) == 0
asyncio.run(main())
