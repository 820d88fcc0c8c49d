import contextvars
from expression import effect, Some
v = contextvars.ContextVar("v", default=0)
@effect.option[int]()
def f():
    v.set(1)
    yield 1
    return v.get()
assert f() == Some(1)
