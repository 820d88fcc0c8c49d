import copy
from expression import Some
x = []
a = [x, Some(x)]
b = copy.deepcopy(a)
c = copy.deepcopy([Some(x), x])
assert b[1].value is b[0]
assert c[0].value is c[1], "sharing lost"
