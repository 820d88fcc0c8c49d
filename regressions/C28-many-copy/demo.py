import time
from expression.extra.parser import many, pchar
def t(n):
    s = "a" * n; p = many(pchar("a")); a = time.process_time(); p(s); return time.process_time() - a
x, y = t(10000), t(80000)
assert y < 25 * x + 1, (x, y)
