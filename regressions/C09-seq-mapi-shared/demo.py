from expression import pipe
from expression.collections import seq
xs = pipe(["a", "b", "c"], seq.mapi(lambda i, x: (i, x)))
assert list(xs) == list(xs) == [(0, "a"), (1, "b"), (2, "c")]
assert [p for p in zip(xs, xs)] == [((i, c), (i, c)) for i, c in enumerate("abc")]
