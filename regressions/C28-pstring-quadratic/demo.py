from expression.extra import parser
import time
def t(n):
    p = parser.pstring("a" * n); s = "a" * n
    a = time.perf_counter(); assert p(s).ok == s; return time.perf_counter() - a
t(1000)
assert t(60000) < 20 * max(t(6000), 1e-3) + 0.5, "not proportional"
