import asyncio
from expression.collections import asyncseq
async def main():
    n = 0
    async for _ in asyncseq.repeat(1, 10001):
        n += 1
        if n > 10001: return n
    return n
assert asyncio.run(main()) == 10001
