from __future__ import annotations

import operator
import traceback

from expression import EffectError, Error, Ok, Result
from expression.extra.result import catch
from expression.system import OperationCanceledError

from vf.core import Workload, check, fail
from vf.gen import Boom, Tok, nameless, value
from vf.sched import Deadlock, Scheduler, install_lock_shims, pause

from .optlib import agrees, observe

install_lock_shims()

PROP = "C30"
RULE = (
    "A case wraps an instrumented function, method or recursive function once or several times (1-4 stacked wrappers, decorator and direct form) to catch random types of a generated exception hierarchy (with multiple inheritance, tuples of types, and types outside of Exception), calls it with hostile arguments, "
    "and lets it return any value (results included) or raise any exception (instances of caught, sub-, super- and unrelated types, interrupts, exits, with causes and notes); outcome and exception object (by identity), call log, traceback and metadata are compared with a direct call "
    "through the same stack of try/except written out. Also re-entrant calls and preempted threads sharing one wrapped function. Non-trivial: every call; distinct by types, stacking and outcome."
)
ASSUMPTIONS = ["a result returned by the function is passed through as it is (documented overload)"]
REQUIRED = ["value", "caught", "subclass", "propagated", "interrupt", "stacked", "result_passed", "falsy_value", "method", "reused", "threaded", "reentrant", "tuple_types", "metadata", "exception_value", "superclass_raised", "calls"]


class A(Exception):
    pass


class B(A):
    pass


class C(Exception):
    pass


class D(B, C):
    pass


class E(KeyError):
    pass


class G(BaseException):
    pass


class Odd(Exception):
    """An exception hostile to being tested or compared."""

    def __bool__(self):
        raise RuntimeError("truth of an exception")

    def __eq__(self, o):
        raise RuntimeError("an exception was compared")

    __hash__ = None  # type: ignore


class GE(ExceptionGroup):
    """A group of a user's own type."""

    def derive(self, excs):
        return GE(self.message, excs)


TYPES = [EffectError, OperationCanceledError, ExceptionGroup, GE, A, B, C, D, E, KeyError, LookupError, ValueError, Exception, Odd, ArithmeticError, OSError, StopIteration, TypeError]
RAISED = [EffectError, OperationCanceledError, ExceptionGroup, GE, BaseExceptionGroup, A, B, C, D, E, KeyError, IndexError, ValueError, UnicodeDecodeError, Odd, ZeroDivisionError, StopIteration, TypeError, FileNotFoundError, RuntimeError, Exception, KeyboardInterrupt, SystemExit, GeneratorExit, G, AssertionError]


def make_exc(rng):
    t = rng.choice(RAISED)
    if t is UnicodeDecodeError:
        e = t("utf8", b"x", 0, 1, "r")
    elif issubclass(t, BaseExceptionGroup):
        kinds = [A, B, C, KeyError, ValueError, OSError] + ([G, KeyboardInterrupt] if t is BaseExceptionGroup else [])
        e = t("x", [rng.choice(kinds)("sub") for _ in range(rng.choice([1, 1, 2, 3]))])
    elif rng.random() < 0.5:
        e = t("x")
    elif rng.random() < 0.4:
        e = t(rng.choice([Ok, Error])(value(rng, 1)))
    else:
        e = t(*(rng.choice([value, lambda r: A("arg"), lambda r: 1])(rng) for _ in range(rng.choice([0, 1, 1, 1 if t is FileNotFoundError else 2]))))
    return e


def pick_type(rng):
    if rng.random() < 0.15:
        return tuple(rng.sample(TYPES, 2))
    if rng.random() < 0.05:
        return rng.choice([G, KeyboardInterrupt, BaseException])
    return rng.choice(TYPES)


def wrap(rng, f, t):
    if rng.random() < 0.5:
        return catch(exception=t)(f)
    return catch(f, exception=t)


def direct(rng_types, f, a, kw):
    """The same stack of try/except written out, innermost type first."""
    try:
        out = f(*a, **kw)
        return out if isinstance(out, Result) else Ok(out)
    except BaseException as e:
        for t in rng_types:
            if isinstance(e, t):
                return Error(e)
        raise


def run(thunk):
    try:
        return observe(thunk())
    except BaseException as e:
        return ("exc", e)


def wrapped(rng, mon):
    types = [pick_type(rng) for _ in range(rng.choice([1, 1, 1, 2, 3, 4]))]
    raising = rng.random() < 0.6
    exc = make_exc(rng)
    ret = value(rng)
    r = rng.random()
    if r < 0.15:
        ret = rng.choice([Ok, Error])(ret)
    elif r < 0.25:
        ret = make_exc(rng)
    elif r < 0.28:
        ret = rng.choice(TYPES)
    log = []
    cause = ValueError("cause")
    has_cause = rng.random() < 0.3
    notes = None
    if rng.random() < 0.2:
        exc.add_note("a note")
        notes = ["a note"]
    args0 = exc.args

    def f(*a, **kw):
        """doc"""
        log.append((a, kw))
        if raising:
            if has_cause:
                raise exc from cause
            raise exc
        return ret

    f.marker = Tok()
    a = tuple(value(rng) for _ in range(rng.choice([0, 1, 3])))
    kw = {k: value(rng) for k in rng.sample(["f", "fn", "exception", "args", "kwargs", "self"], rng.choice([0, 0, 1, 3]))}
    target = f
    method = rng.random() < 0.2
    g = f
    named = method or rng.random() < 0.8
    if not named:
        g = nameless(rng, f)
        mon.ev("nameless")
    for t in types:
        g = wrap(rng, g, t)
    if method:

        class K:
            m = g

        k = K()
        g = k.m
        a_direct = (k, *a)
        mon.ev("method")
    else:
        check(not named or g.__name__ == "f" and g.__doc__ == "doc" and g.marker is f.marker and g.__wrapped__ is not None, "metadata of the function")
        mon.ev("metadata")
        a_direct = a
    check(not log, "wrapping called the function")
    for again in range(rng.choice([1, 1, 2, 3])):
        want = run(lambda: direct(types, target, a_direct, kw))
        wlog = list(log)
        log.clear()
        exc.__traceback__ = None
        got = run(lambda: g(*a, **kw))
        if not agrees(got, want):
            fail("a wrapped function gives another outcome than the try/except written out", got=got, want=want, types=types, raised=exc if raising else None)
        check(len(log) == 1, "a wrapped function was called another number of times", calls=len(log), types=types)
        (ga, gk), (wa, wk) = log[0], wlog[-1]
        check(len(ga) == len(wa) and all(x is y for x, y in zip(ga, wa)) and list(gk) == list(wk) and all(gk[n] is wk[n] for n in gk), "a wrapped function got other arguments", got=log[0], want=wlog[-1])
        log.clear()
        if raising:
            if has_cause:
                check(exc.__cause__ is cause, "the cause of the exception was changed")
            else:
                check(exc.__cause__ is None and exc.__context__ is None, "the exception got another cause or context", cause=exc.__cause__, context=exc.__context__)
            check(getattr(exc, "__notes__", None) == notes and len(exc.args) == len(args0) and all(x is y for x, y in zip(exc.args, args0)), "the notes or arguments of the exception were changed", notes=getattr(exc, "__notes__", None), args=exc.args)
            names = [fr.name for fr in traceback.extract_tb(exc.__traceback__)]
            check("f" in names, "the traceback of the exception lost the function", got=names)
        if again:
            mon.ev("reused")
    if not raising:
        mon.ev("value")
        if isinstance(ret, Result):
            mon.ev("result_passed")
        elif isinstance(ret, BaseException):
            mon.ev("exception_value")
        else:
            try:
                if not ret:
                    mon.ev("falsy_value")
            except Exception:
                pass
    elif want[0] == "error":
        mon.ev("caught")
        if all(type(exc) is not t for t in types):
            mon.ev("subclass")
    else:
        mon.ev("interrupt" if not isinstance(exc, Exception) else "propagated")
        if any(isinstance(t, type) and issubclass(t, type(exc)) for t in types):
            mon.ev("superclass_raised")
    if len(types) > 1:
        mon.ev("stacked")
    if any(isinstance(t, tuple) for t in types):
        mon.ev("tuple_types")
    mon.sig([str(t) for t in types], type(exc).__name__ if raising else type(ret).__name__, want[0])
    mon.sample([[str(t) for t in types], repr(exc) if raising else repr(ret)[:40], want[0]])


def two(a, b=1, *, c=2):
    return (a, b, c)


class Made:
    def __init__(self, x):
        if not x:
            raise ValueError("no x")
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Made) and self.x == o.x


CALLS = [
    (int, ("x",), {}), (int, ("7",), {}), (int, ([],), {}), (float, ("1.5",), {}), (float, ("",), {}), (len, (5,), {}), (len, ([1],), {}), (operator.getitem, ({}, 1), {}), (operator.getitem, ([], 1), {}),
    (operator.truediv, (1, 0), {}), (getattr, (1, "nothing"), {}), (next, (iter(()),), {}), ("abc".index, ("z",), {}), ([1].remove, (2,), {}), (bytes.decode, (b"\xff",), {}), (two, (), {}), (two, (1, 2, 3), {}),
    (two, (1,), {"d": 1}), (two, (1,), {"a": 1}), (two, (1,), {"c": 3}), (Made, (), {}), (Made, (0,), {}), (Made, (1,), {}), (max, ((),), {}), (dict, (5,), {}), (open, ("/nowhere/at/all",), {}), (isinstance, (1, 1), {}), (sum, (["a"],), {}), ({}.__getitem__, (1,), {}),
]


def calls(rng, mon):
    """Built-in functions, classes and bound methods, and calls whose arguments do not fit: the exception has no frame of the function."""
    f, a, kw = rng.choice(CALLS)
    types = [rng.choice([ValueError, TypeError, KeyError, LookupError, ArithmeticError, StopIteration, AttributeError, OSError, Exception, (TypeError, ValueError), UnicodeError]) for _ in range(rng.choice([1, 1, 2]))]
    g = f
    for t in types:
        g = wrap(rng, g, t)
    want = run(lambda: direct(types, f, a, kw))
    got = run(lambda: g(*a, **kw))
    # two calls raise two exceptions
    kinds = [(w[0], type(w[1]), str(w[1])) if isinstance(w[1], BaseException) else w[:2] for w in (got, want)]
    check(kinds[0] == kinds[1], "a wrapped built-in, class or misfit call gives another outcome than the try/except written out", f=f, args=a, types=types, got=got, want=want)
    mon.ev("calls")
    mon.sig("calls", getattr(f, "__name__", "f"), repr(a), [str(t) for t in types])


def reentrant(rng, mon):
    """A wrapped function calling itself; every level catches on its own."""
    d = rng.randint(1, 30)
    at = rng.choice([0, d // 2])
    kind = rng.choice([A, C, G])
    log = []

    @catch(exception=A)
    def f(n):
        log.append(n)
        if n == at:
            raise excs[0]
        r = f(n - 1)
        log.append((n, r))
        return r

    excs = [kind("x")]
    got = run(lambda: f(d))
    if kind is A:
        check(agrees(got, ("error", excs[0])), "a re-entrant wrapped function", got=got)
        check(len(log) == (d - at + 1) + (d - at), "a re-entrant wrapped function unwound too far", log=log, d=d, at=at)
    else:
        check(agrees(got, ("exc", excs[0])), "a re-entrant wrapped function", got=got)
        check(len(log) == d - at + 1, "a re-entrant wrapped function was resumed", log=log)
    mon.ev("reentrant")
    mon.sig("re", d, at, kind.__name__)


def threads(rng, mon):
    sched = Scheduler(rng, opcodes=rng.random() < 0.3)
    n = rng.choice([2, 3])

    @catch(exception=A)
    def f(x):
        pause()
        if x[1] % 3 == 1:
            e = B(x)
            raise e
        if x[1] % 3 == 2:
            raise C(x)
        return x

    outs = [[] for _ in range(n)]

    def worker(i):
        def go():
            for j in range(5):
                outs[i].append((j, run(lambda: f((i, j)))))

        return go

    for i in range(n):
        sched.spawn(worker(i))
    try:
        sched.run()
    except Deadlock as e:
        fail(f"concurrent calls deadlock: {e}")
    for w in sched.workers:
        if w.error is not None:
            raise w.error
    for i in range(n):
        for j, got in outs[i]:
            k = {0: "ok", 1: "error", 2: "exc"}[j % 3]
            payload = got[1] if k == "ok" else got[1].args[0]
            check(got[0] == k and payload == (i, j), "a concurrent call got another's outcome", got=got, want=(k, (i, j)))
    mon.ev("threaded", sched.switches)
    mon.sig("threads", sched.signature())


_ = Boom

SCALE = 12
WORKLOADS = {
    "calls": Workload(calls, 1500, 10000),
    "wrapped": Workload(wrapped, 25000, 400000),
    "reentrant": Workload(reentrant, 1500, 20000),
    "threads": Workload(threads, 1500, 30000),
}
