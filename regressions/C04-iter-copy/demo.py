from expression.collections import Map
m = Map.of_seq([(i, i) for i in range(3000)])
m = m.add(3001, 1)
assert m[2999] == 2999 and len(m) == 3001
