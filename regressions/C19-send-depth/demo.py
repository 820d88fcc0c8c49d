from expression import effect
def inner():
    yield from [1, 2]
@effect.seq[int]()
def f():
    yield from inner()
    yield 3
assert list(f()) == [1, 2, 3]
