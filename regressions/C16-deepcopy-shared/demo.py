import copy
from expression import Some
x = Some(([1],))
y = copy.deepcopy(x)
y.value[0].append(2)
assert x.value == ([1],), x
