from typing import Any
from pydantic import BaseModel
from expression import Result, Error
class M(BaseModel):
    r: Result[int, None]
m = M(r=Error(None))
assert M.model_validate(m.model_dump()) == m
