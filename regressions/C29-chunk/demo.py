from expression import Ok, Error
from expression.collections import Block
from expression.extra.result import traverse
n = []
r = traverse(lambda x: n.append(x) or (Error(x) if x == 5 else Ok(x)), Block(range(3000)))
assert r == Error(5) and len(n) == 6, len(n)
