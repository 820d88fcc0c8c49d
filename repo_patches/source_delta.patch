From 7f2c74c16bf66eadc422ea845a3b690d2278ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:57 +0000
Subject: [PATCH 01/30] fix: Map equality ignored extra bindings in the right
 operand

---
 expression/collections/map.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 6dd0b32..420c863 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -237,6 +237,10 @@ class Map(Mapping[_Key, _Value], PipeMixin):
             else:
                 if kv != kv_other:
                     return False
+
+        # Both maps must be exhausted, or else `self` is just a prefix of `other`.
+        for _ in iterator:
+            return False
         return True
 
     def __bool__(self) -> bool:
-- 
2.43.0


From 1922d0bf4f1a30792ddb91f2d2611f498bd5cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:57 +0000
Subject: [PATCH 02/30] fix: Map.change on an empty map raised when the
 function returns Nothing

---
 expression/collections/maptree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 7f8a54c..710866f 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -325,7 +325,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                     return m
 
         case _:
-            for v in u(Nothing):
+            for v in u(Nothing).to_list():
                 return Some(MapTreeLeaf(k, v))
             else:
                 return m
-- 
2.43.0


From 3fe4153429476e0d6a76f84555568a33d7180748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:57 +0000
Subject: [PATCH 03/30] fix: map.pick raised an internal effect error instead
 of KeyError

---
 expression/collections/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 420c863..30ed44a 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -368,7 +368,7 @@ def try_pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[
 
 @curry_flip(1)
 def pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[_Result]]) -> _Result:
-    for res in table.try_pick(chooser):
+    for res in table.try_pick(chooser).to_list():
         return res
     else:
         raise KeyError()
-- 
2.43.0


From ff21305f1e04b7c625edaa4efa63c2cf1d3d8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:57 +0000
Subject: [PATCH 04/30] fix: building a Map from a long sequence exceeded the
 recursion limit

---
 expression/collections/maptree.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 710866f..a658ca5 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -454,12 +454,9 @@ def of_list(xs: Block[tuple[Key, Value]]) -> MapTree[Key, Value]:
 
 
 def mk_from_iterator(acc: MapTree[Key, Value], e: Iterator[tuple[Key, Value]]) -> MapTree[Key, Value]:
-    try:
-        (x, y) = next(e)
-    except StopIteration:
-        return acc
-    else:
-        return mk_from_iterator(add(x, y, acc), e)
+    for x, y in e:
+        acc = add(x, y, acc)
+    return acc
 
 
 def of_seq(xs: Iterable[tuple[Key, Value]]) -> MapTree[Key, Value]:
-- 
2.43.0


From 0d2b13994f082b00ace159f26705f88fdf00ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:45 +0000
Subject: [PATCH 05/30] fix: indexed ignored its start argument for Block and
 TypedArray

---
 expression/collections/array.py | 4 ++--
 expression/collections/block.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 3b54c9b..03937e3 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -305,7 +305,7 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
@@ -545,7 +545,7 @@ def indexed(
     source: TypedArray[_TSource],
     start: int = 0,
 ) -> TypedArray[tuple[int, _TSource]]:
-    return source.indexed()
+    return source.indexed(start)
 
 
 def is_empty(source: TypedArray[Any]) -> bool:
diff --git a/expression/collections/block.py b/expression/collections/block.py
index 76e305f..351d7d9 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -219,7 +219,7 @@ class Block(
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
-- 
2.43.0


From 9bf8fcd9fc06402bd8d3b04bb3fc47f1689d4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:15 +0000
Subject: [PATCH 06/30] fix: comparing a TypedArray with a foreign object
 raised or compared mappings by index

---
 expression/collections/array.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 03937e3..756e74b 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -12,7 +12,7 @@ from __future__ import annotations
 import array
 import builtins
 import functools
-from collections.abc import Callable, Iterable, Iterator, MutableSequence
+from collections.abc import Callable, Collection, Iterable, Iterator, Mapping, MutableSequence, Set
 from enum import Enum
 from typing import Any, TypeVar, cast
 
@@ -442,11 +442,16 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         return pipe(state, unfold(generator))
 
     def __eq__(self, o: Any) -> bool:
-        if len(self) != len(o):
+        # Any ordered collection of the same elements is equal, anything else is not.
+        if not isinstance(o, Collection) or isinstance(o, Mapping | Set):
             return False
 
-        for i, x in enumerate(self):
-            if x != o[i]:
+        other = cast("Collection[Any]", o)
+        if len(self) != len(other):
+            return False
+
+        for x, y in builtins.zip(self, other):
+            if x != y:
                 return False
         return True
 
-- 
2.43.0


From 9469263759815b454662087c2d408e0eb3ba44ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 07/30] fix: Seq.mapi, Seq.concat and Seq.collect forced their
 source instead of staying lazy

---
 expression/collections/seq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 76be2b3..a69079b 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -117,7 +117,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Combines the given variable number of enumerations and/or
         enumeration-of-enumerations as a single concatenated enumeration.
         """
-        return Seq(concat(*self))
+        return Seq(pipe(self, collect(identity)))
 
     def collect(self, mapping: Callable[[_TSource], Seq[_TResult]]) -> Seq[_TResult]:
         """Collect items from the sequence.
@@ -133,7 +133,7 @@ class Seq(Iterable[_TSource], PipeMixin):
             A sequence comprising the concatenated values from the mapping
             function.
         """
-        return self.map(mapping).concat()
+        return Seq(pipe(self, collect(mapping)))
 
     @staticmethod
     def delay(generator: Callable[[], Iterable[_TSource]]) -> Iterable[_TSource]:
@@ -756,7 +756,7 @@ def mapi(source: Iterable[_TSource], mapping: Callable[[int, _TSource], _TResult
     Returns:
         The list of transformed elements.
     """
-    return (*itertools.starmap(mapping, builtins.enumerate(source)),)
+    return SeqGen(lambda: itertools.starmap(mapping, builtins.enumerate(source)))
 
 
 def max(source: Iterable[_TSupportsGreaterThan]) -> _TSupportsGreaterThan:
-- 
2.43.0


From b4a218515554addfdcb125543c8b9417b8fbd9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:05 +0000
Subject: [PATCH 08/30] fix: long seq computations exceeded the recursion limit
 when iterated

---
 expression/effect/seq.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/expression/effect/seq.py b/expression/effect/seq.py
index 7bf3105..699ddc2 100644
--- a/expression/effect/seq.py
+++ b/expression/effect/seq.py
@@ -1,4 +1,4 @@
-from collections.abc import Callable, Generator, Iterable
+from collections.abc import Callable, Generator, Iterable, Iterator
 from typing import Any, TypeVar
 
 from expression.collections import seq
@@ -9,6 +9,31 @@ _TSource = TypeVar("_TSource")
 _TResult = TypeVar("_TResult")
 
 
+class _Combined(Iterable[_TSource]):
+    """Two sequences iterated one after the other.
+
+    Every statement of a computation adds one level of combination. The
+    levels are unwound with an explicit stack when iterated, so that long
+    computations do not exhaust the interpreter stack.
+    """
+
+    def __init__(self, xs: Iterable[_TSource], ys: Iterable[_TSource]) -> None:
+        self.xs = xs
+        self.ys = ys
+
+    def __iter__(self) -> Iterator[_TSource]:
+        stack: list[Iterable[_TSource]] = [self]
+        while stack:
+            item = stack.pop()
+            if isinstance(item, _Combined):
+                stack.append(item.ys)
+                stack.append(item.xs)
+            else:
+                # Not `yield from`, since the consumer may send values to us
+                for x in item:
+                    yield x
+
+
 class SeqBuilder(Builder[_TSource, Iterable[Any]]):
     def bind(self, xs: Iterable[_TSource], fn: Callable[[_TSource], Iterable[_TResult]]) -> Iterable[_TResult]:
         """Bind a function to a sequence value.
@@ -58,7 +83,7 @@ class SeqBuilder(Builder[_TSource, Iterable[Any]]):
         Returns:
             The concatenated sequences
         """
-        return seq.concat(xs, ys)
+        return _Combined(xs, ys)
 
     def zero(self) -> Iterable[_TSource]:
         """Return the zero value for sequences.
-- 
2.43.0


From 3f145918d95ce33b0fc1957b9c0cb76c6479fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:05 +0000
Subject: [PATCH 09/30] fix: AsyncSeq.take pulled one item more than it was
 asked for

---
 expression/collections/asyncseq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 7576da8..fd78333 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -167,12 +167,15 @@ class AsyncSeq(AsyncIterable[TSource]):
         """Returns the first N elements of the sequence."""
 
         async def _take(source: AsyncIterable[TSource]) -> AsyncIterable[TSource]:
+            if count <= 0:
+                return
+
             i = 0
             async for value in source:
-                if i >= count:
-                    break
                 yield value
                 i += 1
+                if i >= count:
+                    break
 
         return pipe(self, _take)
 
-- 
2.43.0


From b8708b6166a00e3a7ffd2584679e7146e7d20b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 10/30] fix: asyncseq.repeat without a count yielded nothing

---
 expression/collections/asyncseq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index fd78333..882ad28 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -261,7 +261,7 @@ async def empty() -> AsyncIterable[Any]:
 
 
 async def repeat(value: TSource, times: int | None = None) -> AsyncIterable[TSource]:
-    for v in itertools.repeat(value, times or 0):
+    for v in itertools.repeat(value) if times is None else itertools.repeat(value, times):
         yield v
 
 
-- 
2.43.0


From 962a73e27a0ca2da2a1a8989b7891d9e4143e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:05 +0000
Subject: [PATCH 11/30] fix: parser repetition and sequencing exceeded the
 recursion limit on long inputs

---
 expression/extra/parser.py | 62 +++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 1ac1192..039144a 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -248,23 +248,24 @@ def lift2(fn: Callable[[_A], Callable[[_B], _C]], xP: Parser[_A], yP: Parser[_B]
 
 
 def sequence(parser_list: Block[Parser[_A]]) -> Parser[Block[_A]]:
-    # define the "cons" function, which is a two parameter function
-    @curry(1)
-    def cons(head: _A, tail: Block[_A]) -> Block[_A]:
-        return tail.cons(head)
+    if not isinstance(parser_list, Block):  # type: ignore
+        raise ValueError("invalid parser list")
 
-    # lift it to Parser World
-    cons_p = lift2(cons)
+    def run(input: Remaining) -> ParseResult[Block[_A]]:
+        values: list[_A] = []
+
+        # run each parser with what the previous one left
+        for parser in parser_list:
+            match parser.run(input):
+                case Result(tag="ok", ok=(value, remaining)):
+                    values.append(value)
+                    input = remaining
+                case Result(error=error):
+                    return Error(error)
+
+        return Ok((Block(values), input))
 
-    # process the list of parsers recursively
-    match parser_list:
-        case block.empty:
-            return preturn(block.empty)
-        case Block([head, *tail]):
-            tail_ = sequence(Block(tail))
-            return cons_p(head)(tail_)
-        case _:
-            raise ValueError("invalid parser list")
+    return Parser(run, f"sequence({parser_list})")
 
 
 def pstring(string_input: str) -> Parser[str]:
@@ -278,19 +279,24 @@ def pstring(string_input: str) -> Parser[str]:
 
 
 def parse_zero_or_more(parser: Parser[_A], input: Remaining) -> tuple[Block[_A], Remaining]:
-    # run parser with the input
-    first_result = parser.run(input)
-
-    # test the result for Failure/Success
-    match first_result:
-        case Result(tag="ok", ok=(first_value, input_after_first_parse)):
-            # if parse succeeds, call recursively
-            # to get the subsequent values
-            subsequent_values, remaining_input = parse_zero_or_more(parser, input_after_first_parse)
-            values = subsequent_values.cons(first_value)
-            return values, remaining_input
-        case _:
-            return (block.empty, input)
+    values: list[_A] = []
+
+    while True:
+        # run parser with the input
+        result = parser.run(input)
+
+        # test the result for Failure/Success
+        match result:
+            case Result(tag="ok", ok=(value, remaining)):
+                # stop if the parser did not consume anything, or we would never end
+                if remaining == input:
+                    break
+                values.append(value)
+                input = remaining
+            case _:
+                break
+
+    return Block(values), input
 
 
 def many(parser: Parser[_A]) -> Parser[Block[_A]]:
-- 
2.43.0


From d459c5593d3fd2f32b5ea05807d18f12d3db4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:59 +0000
Subject: [PATCH 12/30] fix: traverse performed its actions right to left and
 did not stop at the first error

---
 expression/extra/result/traversable.py | 31 ++++++++++----------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/expression/extra/result/traversable.py b/expression/extra/result/traversable.py
index 8d7fbd2..2090cbe 100644
--- a/expression/extra/result/traversable.py
+++ b/expression/extra/result/traversable.py
@@ -3,9 +3,8 @@
 from collections.abc import Callable
 from typing import Any, TypeVar
 
-from expression import effect
-from expression.collections import Block, block, seq
-from expression.core import Ok, Result, identity, pipe
+from expression.collections import Block
+from expression.core import Ok, Result, identity
 
 
 _TSource = TypeVar("_TSource")
@@ -21,24 +20,18 @@ def traverse(
     Threads an applicative computation though a list of items.
     """
 
-    @effect.result[Block[_TResult], _TError]()
-    def folder(head: _TSource, tail: Result[Block[_TResult], _TError]) -> Any:
-        """Fold back function.
+    values: list[_TResult] = []
 
-        Same as:
-        >>> fn(head).bind(lambda head: tail.bind(lambda tail: Ok([head] + tail))).
-        """
-        h: _TResult = yield from fn(head)
-        t: Block[_TResult] = yield from tail
+    for item in lst:
+        result: Result[Any, _TError] = fn(item)
+        match result:
+            case Result(tag="ok", ok=value):
+                values.append(value)
+            case _:
+                # No action is performed for the elements after the first error.
+                return result
 
-        return Block([h]) + t
-
-    state: Result[Block[_TResult], _TError] = Ok(block.empty)
-    ret = pipe(
-        state,
-        seq.fold_back(folder, lst),
-    )
-    return ret
+    return Ok(Block(values))
 
 
 def sequence(lst: Block[Result[_TSource, _TError]]) -> Result[Block[_TSource], _TError]:
-- 
2.43.0


From baf2a3428a7e21afcec4964bab6e154ff5975ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:21 +0000
Subject: [PATCH 13/30] fix: copying an instance of a tagged union subclass
 lost its class

---
 expression/core/tagged_union.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index fdd17f2..4f7666a 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -167,12 +167,17 @@ def tagged_union(
         # ------------------------------------------------------------------
         # Copy helpers (required by Pydantic)
         # ------------------------------------------------------------------
+        def copy_with(self: Any, value: Any) -> Any:
+            # Keep the class of the instance, which may be a subclass of the union
+            copied = cls.__new__(type(self))
+            cls.__init__(copied, **{self.tag: value})
+            return copied
+
         def __copy__(self: Any) -> Any:
-            return cls(**{self.tag: getattr(self, self.tag)})
+            return copy_with(self, getattr(self, self.tag))
 
         def __deepcopy__(self: Any, memo: dict[int, Any]) -> Any:
-            value = deepcopy(getattr(self, self.tag), memo)
-            return cls(**{self.tag: value})
+            return copy_with(self, deepcopy(getattr(self, self.tag), memo))
 
         cls.__copy__ = __copy__
         cls.__deepcopy__ = __deepcopy__
-- 
2.43.0


From 250058addaa5839d75e64f24a953afe64416cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 14/30] fix: validating an Option from JSON skipped the
 validation of its value

---
 expression/core/option.py | 47 +++++++++++++++------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/expression/core/option.py b/expression/core/option.py
index 76d627d..cfb31b9 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -342,38 +342,27 @@ class Option(
             _ = handler(v)
             return Nothing
 
-        python_schema = core_schema.union_schema(
-            [
-                core_schema.is_instance_schema(Option),
-                core_schema.chain_schema(
-                    [
-                        core_schema.none_schema(),
-                        core_schema.no_info_wrap_validator_function(validate_none, none_schema),
-                    ]
-                ),
-                core_schema.chain_schema(
-                    [
-                        # item_tp's schema should ensure the value is an instance of _T
-                        # is_instance_schema doesn't work for Annotated[_T, ...]
-                        # Use the value_schema to validate `values`
-                        core_schema.no_info_wrap_validator_function(validate_some, value_schema),
-                    ]
-                ),
-            ]
-        )
-
-        return core_schema.json_or_python_schema(
-            json_schema=core_schema.chain_schema(
+        data_schemas: list[CoreSchema] = [
+            core_schema.chain_schema(
+                [
+                    core_schema.none_schema(),
+                    core_schema.no_info_wrap_validator_function(validate_none, none_schema),
+                ]
+            ),
+            core_schema.chain_schema(
                 [
-                    core_schema.any_schema(),
-                    # after validating the json data convert it to python
-                    core_schema.no_info_before_validator_function(
-                        lambda data: cls(some=data) if data is not None else cls(none=data),
-                        python_schema,
-                    ),
+                    # item_tp's schema should ensure the value is an instance of _T
+                    # is_instance_schema doesn't work for Annotated[_T, ...]
+                    # Use the value_schema to validate `values`
+                    core_schema.no_info_wrap_validator_function(validate_some, value_schema),
                 ]
             ),
-            python_schema=python_schema,
+        ]
+
+        return core_schema.json_or_python_schema(
+            # json data is never an option instance, so it's always validated
+            json_schema=core_schema.union_schema([*data_schemas]),
+            python_schema=core_schema.union_schema([core_schema.is_instance_schema(Option), *data_schemas]),
             serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
         )
 
-- 
2.43.0


From 1de70d2ebc21ed35fac39feae416c81925f81bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:06 +0000
Subject: [PATCH 15/30] fix: validating a Result from JSON always failed

---
 expression/core/result.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index 384df1a..eef6b7c 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -327,28 +327,26 @@ class Result(
                 core_schema.no_info_wrap_validator_function(validate_ok, ok_schema),
             ]
         )
-        json_schema = core_schema.chain_schema(
+        # json data is never an instance, so convert each case after validating it
+        json_schema = core_schema.union_schema(
             [
-                core_schema.union_schema(
-                    [
-                        core_schema.typed_dict_schema(
-                            {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
-                                "ok": core_schema.typed_dict_field(ok_schema),
-                            }
-                        ),
-                        core_schema.typed_dict_schema(
-                            {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
-                                "error": core_schema.typed_dict_field(error_schema),
-                            }
-                        ),
-                    ]
+                core_schema.no_info_after_validator_function(
+                    lambda data: cls(ok=data["ok"]),
+                    core_schema.typed_dict_schema(
+                        {
+                            "tag": core_schema.typed_dict_field(core_schema.literal_schema(["ok"]), required=False),
+                            "ok": core_schema.typed_dict_field(ok_schema),
+                        }
+                    ),
                 ),
-                # after validating the json data convert it to python
-                core_schema.no_info_before_validator_function(
-                    lambda data: cls(data),
-                    python_schema,
+                core_schema.no_info_after_validator_function(
+                    lambda data: cls(error=data["error"]),
+                    core_schema.typed_dict_schema(
+                        {
+                            "tag": core_schema.typed_dict_field(core_schema.literal_schema(["error"]), required=False),
+                            "error": core_schema.typed_dict_field(error_schema),
+                        }
+                    ),
                 ),
             ]
         )
-- 
2.43.0


From 357d6acaceeabb6b6d0e5a92d84c3491737e47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 16/30] fix: validating a Result from data that is not a dict
 raised a TypeError

---
 expression/core/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index eef6b7c..14cb481 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -308,13 +308,13 @@ class Result(
         error_schema = handler.generate_schema(type_vars[1])
 
         def validate_ok(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "ok" not in v:
+            if not isinstance(v, builtins.dict) or "ok" not in v:
                 raise ValueError("Missing ok field")
             value = handler(v["ok"])
             return cls(ok=value)
 
         def validate_error(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "error" not in v:
+            if not isinstance(v, builtins.dict) or "error" not in v:
                 raise ValueError("Missing error field")
 
             value = handler(v["error"])
-- 
2.43.0


From 0489721ceaf7e64b98166b246fa7557b0c11f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:10 +0000
Subject: [PATCH 17/30] fix: a listener registered while the source is being
 cancelled could be lost

---
 expression/system/cancellation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 0044e34..3483ad5 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -86,10 +86,11 @@ class CancellationTokenSource(Disposable):
                 pass
 
     def register_internal(self, callback: Callable[[], None]) -> Disposable:
-        if self._is_disposed:
-            raise ObjectDisposedException()
-
         with self._lock:
+            # Check while holding the lock, or a concurrent cancel could miss the listener.
+            if self._is_disposed:
+                raise ObjectDisposedException()
+
             current = self._id
             self._listeners[current] = callback
             self._id += 1
-- 
2.43.0


From 13daf613d13bd00d609f0a34b8575de1db9d6d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:30 +0000
Subject: [PATCH 18/30] fix: registering with the none token raised as if it
 was cancelled

---
 expression/system/cancellation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 3483ad5..f120ca5 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -46,6 +46,10 @@ class CancellationToken:
             raise ObjectDisposedException()
 
     def register(self, callback: Callable[[], None]) -> Disposable:
+        if not self.can_be_canceled:
+            # The token will never be canceled, so there is nothing to call.
+            return Disposable.create(lambda: None)
+
         return self._source.register_internal(callback)
 
     @staticmethod
-- 
2.43.0


From 8e00e6008e643543ef551928f7c0ba09f5293ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 19/30] fix: started computations that fail or are cancelled
 were retained forever

---
 expression/core/aiotools.py | 44 +++++++++++++++----------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 2c157b1..12e02ce 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -68,6 +68,22 @@ def from_continuations(callback: Callbacks[_TSource]) -> Awaitable[_TSource]:
 __running_tasks: set[Task[Any]] = set()
 
 
+def _start_task(computation: Awaitable[Any], token: CancellationToken | None) -> None:
+    async def runner() -> Any:
+        return await computation
+
+    task = asyncio.create_task(runner())
+    __running_tasks.add(task)
+    # Also release tasks that fail or are cancelled
+    task.add_done_callback(__running_tasks.discard)
+
+    def cb() -> None:
+        task.cancel()
+
+    if token:
+        token.register(cb)
+
+
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
     """Start computation.
 
@@ -78,19 +94,7 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     token is used.
     """
 
-    async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
-
-    task = asyncio.create_task(runner())
-    __running_tasks.add(task)
-
-    def cb():
-        task.cancel()
-
-    if token:
-        token.register(cb)
+    _start_task(computation, token)
     return None
 
 
@@ -101,19 +105,7 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     current operating system thread.
     """
 
-    async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
-
-    task = asyncio.create_task(runner())
-    __running_tasks.add(task)
-
-    def cb() -> None:
-        task.cancel()
-
-    if token:
-        token.register(cb)
+    _start_task(computation, token)
     return None
 
 
-- 
2.43.0


From 523586907dbfce05476c86bb7f3d91e1b2cca8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:08 +0000
Subject: [PATCH 20/30] fix: computations started with a cancelled token ran,
 and finished ones were retained by the token

---
 expression/core/aiotools.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 12e02ce..30889c7 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -13,7 +13,7 @@ from asyncio import Future, Task
 from collections.abc import Awaitable, Callable
 from typing import Any, TypeVar
 
-from expression.system import CancellationToken, OperationCanceledError
+from expression.system import CancellationToken, ObjectDisposedException, OperationCanceledError
 
 
 _TSource = TypeVar("_TSource")
@@ -81,7 +81,15 @@ def _start_task(computation: Awaitable[Any], token: CancellationToken | None) ->
         task.cancel()
 
     if token:
-        token.register(cb)
+        try:
+            registration = token.register(cb)
+        except ObjectDisposedException:
+            # Already cancelled, so make sure that the computation does not run
+            task.cancel()
+            if asyncio.iscoroutine(computation):
+                computation.close()
+            raise
+        task.add_done_callback(lambda _: registration.dispose())
 
 
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
-- 
2.43.0


From 1f30def3ffcb925ceb9804725e0f5d47fb330a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:31 +0000
Subject: [PATCH 21/30] fix: cancelling a started computation from another
 thread did not wake up its event loop

---
 expression/core/aiotools.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 30889c7..49f6777 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -77,8 +77,19 @@ def _start_task(computation: Awaitable[Any], token: CancellationToken | None) ->
     # Also release tasks that fail or are cancelled
     task.add_done_callback(__running_tasks.discard)
 
+    loop = task.get_loop()
+
     def cb() -> None:
-        task.cancel()
+        try:
+            same_loop = asyncio.get_running_loop() is loop
+        except RuntimeError:
+            same_loop = False
+
+        if same_loop:
+            task.cancel()
+        else:
+            # Tasks are not thread-safe, and the loop needs to wake up.
+            loop.call_soon_threadsafe(task.cancel)
 
     if token:
         try:
-- 
2.43.0


From ecb3f813d8c04946a54e80a5b92432470c2555b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:21 +0000
Subject: [PATCH 22/30] fix: a mailbox reply of None never completed the
 request

---
 expression/core/mailbox.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 17e05ac..d7611b3 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -78,17 +78,17 @@ class MailboxProcessor(Generic[_Msg]):
         Returns:
             The reply from mailbox processor.
         """
-        result: _Reply | None = None
+        # Holds the reply. Note that the reply itself may be any value, also `None`.
+        replies: list[_Reply] = []
         # This is the continuation for the `done` callback of the awaiting poster.
         continuation: Continuation[_Reply] | None = None
 
         def check_completion() -> None:
-            if result is not None and continuation is not None:
-                continuation(result)
+            if replies and continuation is not None:
+                continuation(replies[0])
 
         def reply_callback(res: _Reply):
-            nonlocal result
-            result = res
+            replies.append(res)
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-- 
2.43.0


From f3893deffd2646542e616b3ce31256fc9d2bd0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:43 +0000
Subject: [PATCH 23/30] fix: cancelling a mailbox receive lost the next message

---
 expression/core/mailbox.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index d7611b3..7c1992c 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -13,8 +13,9 @@
 from __future__ import annotations
 
 import asyncio
+from asyncio import Future
+from collections import deque
 from collections.abc import Awaitable, Callable
-from queue import SimpleQueue
 from threading import RLock
 from typing import Any, Generic, TypeVar
 
@@ -37,7 +38,7 @@ class AsyncReplyChannel(Generic[_Reply]):
 
 class MailboxProcessor(Generic[_Msg]):
     def __init__(self, cancellation_token: CancellationToken | None) -> None:
-        self.messages: SimpleQueue[_Msg] = SimpleQueue()
+        self.messages: deque[_Msg] = deque()
         self.token = cancellation_token or CancellationToken.none()
         self.loop = asyncio.get_event_loop()
         self.lock = RLock()
@@ -46,6 +47,8 @@ class MailboxProcessor(Generic[_Msg]):
         # returned by `receive`.
         self.continuation: Continuation[_Msg] | None = None
         self.cancel: Continuation[OperationCanceledError] | None = None
+        # The future awaited by the current `receive`.
+        self.receiver: Future[_Msg] | None = None
 
     def post(self, msg: _Msg) -> None:
         """Post a message synchronously to the mailbox processor.
@@ -60,7 +63,7 @@ class MailboxProcessor(Generic[_Msg]):
         Returns:
             None
         """
-        self.messages.put(msg)
+        self.messages.append(msg)
         self.loop.call_soon_threadsafe(self.__process_events)
 
     def post_and_async_reply(self, build_message: Callable[[AsyncReplyChannel[_Reply]], _Msg]) -> Awaitable[_Reply]:
@@ -92,7 +95,7 @@ class MailboxProcessor(Generic[_Msg]):
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-        self.messages.put(build_message(reply_channel))
+        self.messages.append(build_message(reply_channel))
         self.__process_events()
 
         def callback(
@@ -121,15 +124,31 @@ class MailboxProcessor(Generic[_Msg]):
             error: Continuation[Exception],
             cancel: Continuation[OperationCanceledError],
         ):
-            if self.continuation:
+            if self.continuation and not self.__is_abandoned():
                 raise Exception("Receive can only be called once!")
 
             self.continuation = done
             self.cancel = cancel
+            self.receiver = None
 
             self.__process_events()
 
-        return await from_continuations(callback)
+        self.receiver = future = asyncio.ensure_future(from_continuations(callback))
+        try:
+            return await future
+        except asyncio.CancelledError:
+            # The receiver is gone (e.g. a timeout), so the message must be left
+            # for the next receive, even if it was already on its way.
+            with self.lock:
+                if future.done() and not future.cancelled():
+                    self.messages.appendleft(future.result())
+                elif self.receiver is future:
+                    self.continuation = self.cancel = None
+            raise
+
+    def __is_abandoned(self) -> bool:
+        """Returns `True` if the current receive was cancelled, but has not noticed yet."""
+        return self.receiver is not None and self.receiver.cancelled()
 
     def __process_events(self):
         # Cancellation of async workflows is more tricky in Python than
@@ -140,13 +159,13 @@ class MailboxProcessor(Generic[_Msg]):
                 cancel(OperationCanceledError("Mailbox was cancelled"))
             return
 
-        if self.continuation is None:
+        if self.continuation is None or self.__is_abandoned():
             return
 
         with self.lock:
-            if self.messages.empty():
+            if not self.messages:
                 return
-            msg = self.messages.get()
+            msg = self.messages.popleft()
             self.continuation, cont = None, self.continuation
 
             if cont is not None:  # type: ignore
-- 
2.43.0


From 2f7ff01e32c3280ebd6618fd649307a632d59e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:59 +0000
Subject: [PATCH 24/30] fix: option and result pipelines of many functions
 exceeded the recursion limit

---
 expression/extra/option/pipeline.py | 10 +++++-----
 expression/extra/result/pipeline.py | 12 +++++-------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/expression/extra/option/pipeline.py b/expression/extra/option/pipeline.py
index a1bd135..19c72ad 100644
--- a/expression/extra/option/pipeline.py
+++ b/expression/extra/option/pipeline.py
@@ -82,13 +82,13 @@ def pipeline(*fns: Callable[[Any], Option[Any]]) -> Callable[[Any], Option[Any]]
         The composed functions.
     """
 
-    def reducer(acc: Callable[[Any], Option[Any]], fn: Callable[[Any], Option[Any]]) -> Callable[[Any], Option[Any]]:
-        def gn(x: Any) -> Option[Any]:
-            return acc(x).bind(fn)
+    def reducer(acc: Option[Any], fn: Callable[[Any], Option[Any]]) -> Option[Any]:
+        return acc.bind(fn)
 
-        return gn
+    def gn(x: Any) -> Option[Any]:
+        return reduce(reducer, fns, Some(x))
 
-    return reduce(reducer, fns, Some)
+    return gn
 
 
 __all__ = ["pipeline"]
diff --git a/expression/extra/result/pipeline.py b/expression/extra/result/pipeline.py
index fb7e9d5..3905d8c 100644
--- a/expression/extra/result/pipeline.py
+++ b/expression/extra/result/pipeline.py
@@ -85,15 +85,13 @@ def pipeline(*fns: Callable[[Any], Result[Any, Any]]) -> Callable[[Any], Result[
         The composed functions.
     """
 
-    def reducer(
-        acc: Callable[[Any], Result[Any, Any]], fn: Callable[[Any], Result[Any, Any]]
-    ) -> Callable[[Any], Result[Any, Any]]:
-        def gn(x: Any) -> Result[Any, Any]:
-            return acc(x).bind(fn)
+    def reducer(acc: Result[Any, Any], fn: Callable[[Any], Result[Any, Any]]) -> Result[Any, Any]:
+        return acc.bind(fn)
 
-        return gn
+    def gn(x: Any) -> Result[Any, Any]:
+        return reduce(reducer, fns, Ok(x))
 
-    return reduce(reducer, fns, Ok)
+    return gn
 
 
 __all__ = ["pipeline"]
-- 
2.43.0


From 72d6fc7131c906a8df09d93add330bde8b1557cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:18 +0000
Subject: [PATCH 25/30] fix: seq.scan dropped an initial state of None

---
 expression/collections/seq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index a69079b..5848ede 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -279,7 +279,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The resulting sequence of computed states.
         """
-        return Seq(itertools.accumulate(self._value, scanner, initial=state))
+        return Seq(scan(scanner, state)(self._value))
 
     def skip(self, count: int) -> Seq[_TSource]:
         """Skip elements from sequence.
@@ -861,7 +861,8 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return itertools.accumulate(source, scanner, initial=state)
+    # Note that `initial=None` would mean no initial state, but `None` is a state as any other.
+    return itertools.accumulate(itertools.chain((state,), source), scanner)
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
-- 
2.43.0


From 18fc5d9e118108fb78c2432e56b104342c880c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:46 +0000
Subject: [PATCH 26/30] fix: options, results and blocks in models lost nested
 values when dumped

---
 expression/collections/block.py | 10 +++++++++-
 expression/core/option.py       |  9 +++++++--
 expression/core/result.py       | 19 +++++++++++++++++--
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/expression/collections/block.py b/expression/collections/block.py
index 351d7d9..d5c6994 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -537,11 +537,13 @@ class Block(
 
     @classmethod
     def __get_pydantic_core_schema__(cls, source: Any, handler: GetCoreSchemaHandler) -> CoreSchema:
+        from pydantic import SerializerFunctionWrapHandler
         from pydantic_core import core_schema
 
         instance_schema = core_schema.is_instance_schema(cls)
 
         args = get_args(source)
+        item_schema = handler.generate_schema(args[0] if args else Any)
         if args:
             # replace the type and rely on Pydantic to generate the right schema
             # for `Sequence`
@@ -549,12 +551,18 @@ class Block(
         else:
             sequence_t_schema = handler.generate_schema(Sequence)
 
+        def serialize(instance: Block[Any], handler: SerializerFunctionWrapHandler) -> Any:
+            # Let the schema of the items serialize them, unless there is nothing known about them
+            return handler(instance.dict() if item_schema["type"] == "any" else list(instance))
+
         non_instance_schema = core_schema.no_info_after_validator_function(Block, sequence_t_schema)
         python_schema = core_schema.union_schema([instance_schema, non_instance_schema])
         return core_schema.json_or_python_schema(
             json_schema=non_instance_schema,
             python_schema=python_schema,
-            serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
+            serialization=core_schema.wrap_serializer_function_ser_schema(
+                serialize, schema=core_schema.list_schema(item_schema)
+            ),
         )
 
 
diff --git a/expression/core/option.py b/expression/core/option.py
index cfb31b9..50f0fd4 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -321,7 +321,7 @@ class Option(
 
     @classmethod
     def __get_pydantic_core_schema__(cls, source_type: Any, handler: GetCoreSchemaHandler) -> CoreSchema:
-        from pydantic import ValidatorFunctionWrapHandler
+        from pydantic import SerializerFunctionWrapHandler, ValidatorFunctionWrapHandler
         from pydantic_core import core_schema
 
         origin = get_origin(source_type)
@@ -342,6 +342,11 @@ class Option(
             _ = handler(v)
             return Nothing
 
+        def serialize(instance: Option[Any], handler: SerializerFunctionWrapHandler) -> Any:
+            # Let the schema of the value serialize it, unless there is nothing known about it
+            value = instance.dict() if value_schema["type"] == "any" else instance.to_optional()
+            return None if instance.is_none() else handler(value)
+
         data_schemas: list[CoreSchema] = [
             core_schema.chain_schema(
                 [
@@ -363,7 +368,7 @@ class Option(
             # json data is never an option instance, so it's always validated
             json_schema=core_schema.union_schema([*data_schemas]),
             python_schema=core_schema.union_schema([core_schema.is_instance_schema(Option), *data_schemas]),
-            serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
+            serialization=core_schema.wrap_serializer_function_ser_schema(serialize, schema=value_schema),
         )
 
 
diff --git a/expression/core/result.py b/expression/core/result.py
index 14cb481..d43d936 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -294,7 +294,7 @@ class Result(
 
     @classmethod
     def __get_pydantic_core_schema__(cls, source_type: Any, handler: GetCoreSchemaHandler) -> CoreSchema:
-        from pydantic import ValidatorFunctionWrapHandler
+        from pydantic import SerializerFunctionWrapHandler, ValidatorFunctionWrapHandler
         from pydantic_core import core_schema
 
         origin = get_origin(source_type)
@@ -320,6 +320,21 @@ class Result(
             value = handler(v["error"])
             return cls(error=value)
 
+        def serialize(instance: Result[Any, Any], handler: SerializerFunctionWrapHandler) -> Any:
+            # Let the schema of the value serialize it, unless there is nothing known about it
+            value_schema = ok_schema if instance.is_ok() else error_schema
+            if value_schema["type"] == "any":
+                return handler(instance.dict())
+            return handler({"tag": instance.tag, instance.tag: getattr(instance, instance.tag)})
+
+        serialize_schema = core_schema.typed_dict_schema(
+            {
+                "tag": core_schema.typed_dict_field(core_schema.literal_schema(["ok", "error"])),
+                "ok": core_schema.typed_dict_field(ok_schema, required=False),
+                "error": core_schema.typed_dict_field(error_schema, required=False),
+            }
+        )
+
         python_schema = core_schema.union_schema(
             [
                 core_schema.is_instance_schema(cls),
@@ -354,7 +369,7 @@ class Result(
         return core_schema.json_or_python_schema(
             json_schema=json_schema,
             python_schema=python_schema,
-            serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
+            serialization=core_schema.wrap_serializer_function_ser_schema(serialize, schema=serialize_schema),
         )
 
 
-- 
2.43.0


From f09da58b7ebfe904b2817018ed996f43d6f359b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:07 +0000
Subject: [PATCH 27/30] fix: unpickling called the constructor of a subclass of
 a tagged union

---
 expression/core/tagged_union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index 4f7666a..46d481f 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -73,7 +73,8 @@ def tagged_union(
             return {f.name: getattr(self, f.name) for f in fields(self)}
 
         def __setstate__(self: Any, state: dict[str, Any]) -> None:
-            self.__init__(**state)
+            # Subclasses may have a constructor of their own
+            cls.__init__(self, **state)
 
         cls.__getstate__ = __getstate__
         cls.__setstate__ = __setstate__
-- 
2.43.0


From 9e3488f85e429c33fe9b28c51d1989f4d03d874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:51 +0000
Subject: [PATCH 28/30] fix: computations could not yield from lists and other
 plain iterables

---
 expression/core/builder.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/expression/core/builder.py b/expression/core/builder.py
index e629c30..d394d75 100644
--- a/expression/core/builder.py
+++ b/expression/core/builder.py
@@ -14,6 +14,17 @@ _M = TypeVar("_M")  # for monadic type
 _P = ParamSpec("_P")
 
 
+def _accepts_values(gen: Any) -> bool:
+    """Whether a value can be sent to the generator.
+
+    Plain iterators, e.g. of lists, that the generator delegates to with
+    `yield from` do not accept values.
+    """
+    while inspect.isgenerator(gen):
+        gen = gen.gi_yieldfrom
+    return gen is None or hasattr(gen, "send")
+
+
 class BuilderState(Generic[_T]):
     """Encapsulates the state of a builder computation."""
 
@@ -69,7 +80,7 @@ class Builder(Generic[_T, _M], ABC):  # Corrected Generic definition
         value: _T,
     ) -> _M:
         try:
-            yielded = gen.send(value)
+            yielded = gen.send(value if _accepts_values(gen) else cast("_T", None))
             return self.return_(yielded)
         except EffectError as error:
             # Effect errors (Nothing, Error, etc) short circuits
-- 
2.43.0


From 7abfc622890566501bec065259f2589c57b71443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:01 +0000
Subject: [PATCH 29/30] fix: a tail call could not pass a keyword argument
 named self

---
 expression/core/fn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/core/fn.py b/expression/core/fn.py
index 0f0038e..1085d7a 100644
--- a/expression/core/fn.py
+++ b/expression/core/fn.py
@@ -18,7 +18,7 @@ class TailCall(Generic[_P]):
     function will be called again with the new arguments provided.
     """
 
-    def __init__(self, *args: _P.args, **kw: _P.kwargs):
+    def __init__(self, /, *args: _P.args, **kw: _P.kwargs):
         self.args = args
         self.kw = kw
 
-- 
2.43.0


From eb83829ff85f48030c5119cdc2fd6e243a928060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:57 +0000
Subject: [PATCH 30/30] fix: hand a message of a given-up receive to the one
 already waiting

---
 expression/core/mailbox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 7c1992c..99afa3d 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -144,6 +144,8 @@ class MailboxProcessor(Generic[_Msg]):
                     self.messages.appendleft(future.result())
                 elif self.receiver is future:
                     self.continuation = self.cancel = None
+            # Another receive may already be waiting for the message.
+            self.__process_events()
             raise
 
     def __is_abandoned(self) -> bool:
-- 
2.43.0

