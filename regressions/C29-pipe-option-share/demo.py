from expression import Some, Nothing
from expression.extra.option import pipeline
calls = []
assert pipeline(lambda x: Some(None), lambda x: (calls.append(x), Some(2))[1])(1) == Some(2)
