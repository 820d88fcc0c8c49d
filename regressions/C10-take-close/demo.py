import asyncio
from expression.collections.asyncseq import AsyncSeq
async def src():
    for x in [1, None, 3, 4]: yield x
async def main():
    return [x async for x in await AsyncSeq(src()).take(2)]
assert asyncio.run(main()) == [1, None]
