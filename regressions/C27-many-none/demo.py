from expression.extra.parser import *
from expression.extra import parser
assert list(parser.many(parser.ignore(parser.pchar("a")))("aaa").ok) == [None] * 3
