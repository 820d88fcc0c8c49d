from expression.extra import parser
assert len(parser.many(parser.pchar("a"))("a" * 70000).ok) == 70000
