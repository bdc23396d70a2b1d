"""Instrumentation and verdict machinery shared by every monitor.

* `sys.monitoring` hooks (PEP 669) count the steps the *real* code takes
  (function entries, generator resumptions, jumps) and record which of its
  lines ran.  The step count gives deterministic hang verdicts and the data the
  cost monitors judge; the line set is the reach evidence.
* `Ctx` is the event log of one workload: every operation goes through it.
* `Violation` is raised by a monitor, and only by a monitor.
"""
import os
import random
import sys
import warnings
from collections import Counter, deque as _dq

REPO = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

EXTRA_DIR = os.path.join(os.path.realpath(REPO), "extra") + os.sep

DEFAULT_LIMIT = 3_000_000  # steps one operation may take (see Ctx.do)


class Violation(Exception):
    """A monitor observed an execution that breaks the property."""


class Inconclusive(Exception):
    """The workload couldn't be judged (neither pass nor violation)."""


class StepLimit(BaseException):
    """Raised inside the code under test when it exceeds its step budget."""


class _Counter:
    __slots__ = ("steps", "limit", "lines")

    def __init__(self):
        self.steps = 0
        self.limit = DEFAULT_LIMIT
        self.lines = set()


COUNTER = _Counter()
_TOOL = 4
_installed = False


def install():
    """Switch the sys.monitoring hooks on (once per process)."""
    global _installed
    if _installed:
        return
    _installed = True
    mon = sys.monitoring
    ev = mon.events
    mon.use_tool_id(_TOOL, "verif")
    c = COUNTER
    disable = mon.DISABLE
    prefix = EXTRA_DIR
    ours = {}

    def is_ours(code):
        r = ours.get(code)
        if r is None:
            r = ours[code] = os.path.realpath(code.co_filename).startswith(prefix)
        return r

    def on_jump(code, a, b):
        if not is_ours(code):
            return disable
        c.steps += 1
        if c.steps > c.limit:
            c.limit = float("inf")
            raise StepLimit(code.co_qualname)

    def on_start(code, a):
        if not is_ours(code):
            return disable
        c.steps += 1
        if c.steps > c.limit:
            c.limit = float("inf")
            raise StepLimit(code.co_qualname)

    def on_line(code, line):
        if is_ours(code):
            c.lines.add((code.co_filename[len(prefix):], line))
        return disable

    mon.register_callback(_TOOL, ev.JUMP, on_jump)
    mon.register_callback(_TOOL, ev.PY_START, on_start)
    mon.register_callback(_TOOL, ev.PY_RESUME, on_start)
    mon.register_callback(_TOOL, ev.LINE, on_line)
    mon.set_events(_TOOL, ev.JUMP | ev.PY_START | ev.PY_RESUME | ev.LINE)


_WARNED = []


def _showwarning(message, category, filename, lineno, file=None, line=None):
    _WARNED.append((category, str(message)))


warnings.simplefilter("always")
warnings.showwarning = _showwarning


def short(x, n=160):
    try:
        s = repr(x)
    except Exception as e:  # a broken __repr__ mustn't break the report
        s = f"<{type(x).__name__}: repr failed: {type(e).__name__}>"
    s = s.replace("\n", "\\n")
    return s if len(s) <= n else s[: n - 3] + "..."


def same(a, b):
    """The very same value: identical, or equal with the same exact type."""
    if a is b:
        return True
    return type(a) is type(b) and a == b


def same_seq(xs, ys):
    return len(xs) == len(ys) and all(map(same, xs, ys))


class Ctx:
    """Event log, step accounting and verdicts of one workload."""

    __slots__ = ("events", "states", "judged", "log", "op_steps", "max_steps")

    def __init__(self):
        self.events = Counter()
        self.states = set()
        self.judged = 0
        self.log = _dq(maxlen=400)
        self.max_steps = 0
        self.op_steps = 0

    # ------------------------------------------------------------ events ---
    def ev(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        """One judgement was made: on which state/answer?"""
        self.judged += 1
        if len(self.states) < 300_000:
            self.states.add(hash(key))

    def note(self, *parts):
        self.log.append(parts)

    def transcript(self, last=60):
        out = []
        for parts in list(self.log)[-last:]:
            out.append(" ".join(p if isinstance(p, str) else short(p) for p in parts))
        return out

    # -------------------------------------------------------- operations ---
    def _run(self, what, fn, args, kw, limit):
        _WARNED.clear()
        c = COUNTER
        c.steps = 0
        c.limit = limit
        try:
            return fn(*args, **kw)
        except StepLimit as e:
            raise Violation(
                f"`{what}` did not finish: over {limit} steps, "
                f"last inside {e.args[0]}"
            ) from None
        finally:
            self.op_steps = c.steps
            if c.steps > self.max_steps:
                self.max_steps = c.steps
            c.limit = float("inf")

    def do(self, what, fn, *args, limit=DEFAULT_LIMIT, **kw):
        """Runs an operation which has to complete normally."""
        self.events[what] += 1
        self.log.append((what, *args))
        try:
            return self._run(what, fn, args, kw, limit)
        except (Violation, Inconclusive):
            raise
        except Exception as e:
            raise Violation(
                f"`{what}` crashed with {type(e).__name__}: {short(str(e))}"
            ) from e

    def rejects(self, what, excs, fn, *args, **kw):
        """Runs an operation which has to be rejected with one of `excs`."""
        self.events["reject:" + what] += 1
        self.log.append(("(must be rejected)", what, *args))
        try:
            r = self._run(what, fn, args, kw, DEFAULT_LIMIT)
        except (Violation, Inconclusive):
            raise
        except excs:
            return
        except Exception as e:
            raise Violation(
                f"`{what}` {tuple(map(short, args))} raised {type(e).__name__} "
                f"({short(str(e))}), not {_names(excs)}"
            ) from e
        raise Violation(
            f"`{what}` {tuple(map(short, args))} was accepted (returned "
            f"{short(r)}) although it has to be rejected with {_names(excs)}"
        )

    def warned(self):
        """UserWarnings given by the last operation."""
        return sum(issubclass(c, UserWarning) for c, _ in _WARNED)

    def check(self, ok, msg, *parts):
        if not ok:
            if callable(msg):
                msg = msg()
            raise Violation(msg + "".join(" " + short(p, 300) for p in parts))

    def equal(self, what, got, want):
        """Compares an observation with the oracle's answer."""
        if not (got is want or (type(got) is type(want) and got == want)):
            raise Violation(f"{what}: got {short(got, 400)}, expected {short(want, 400)}")

    def equal_seq(self, what, got, want):
        if type(got) is not list:
            raise Violation(f"{what}: got {short(got)}, expected a list")
        if not same_seq(got, want):
            raise Violation(f"{what}: got {short(got, 400)}, expected {short(want, 400)}")


def _names(excs):
    return "/".join(e.__name__ for e in (excs if isinstance(excs, tuple) else (excs,)))


def in_extra(tb):
    """True if the innermost frames of the traceback belong to the code."""
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and os.path.realpath(last).startswith(EXTRA_DIR)


# `random.seed(None)` asks the operating system for entropy, which would make a
# workload unrepeatable: it gets a value out of the case's own source instead.
ENTROPY = random.Random(0)
_seed = random.seed


def _seed_random(a=None, version=2):
    _seed(ENTROPY.getrandbits(64) if a is None else a, version)


class _Random(random.Random):
    def seed(self, a=None, version=2):
        super().seed(ENTROPY.getrandbits(64) if a is None else a, version)


random.seed = _seed_random
random.Random = _Random


def seed_all(seed):
    ENTROPY.seed(seed)
    _seed(seed)
