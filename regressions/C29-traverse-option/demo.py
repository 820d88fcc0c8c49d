from expression import Ok
from expression.collections import Block
from expression.extra.result import traverse
n = []
traverse(lambda x: n.append(x) or Ok(len(n)), Block(["a", "a"]))
assert n == ["a", "a"], n
