from expression import Some
from expression.extra.option import pipeline
assert pipeline(lambda o: Some(o))(Some(1)) == Some(Some(1))
