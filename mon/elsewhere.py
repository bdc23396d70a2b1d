"""The same history played in other interpreters: with another hash seed, without
assertions, without garbage collection, after other collections were used, and
on derived classes.  The recorded event logs are compared offline."""
import copy
import gc
import os
import pickle
import struct
import subprocess
import sys
import warnings

from . import runtime
from .engine import VERIF, Scenario
from .kinds import BOUNDED, BY_NAME, KINDS, Kind, key, observe
from .memory import Footprint
from .plain import KINDS as PLAIN, Made, Plainly, PlainTrees, gen_spec, observe as observe_plain
from .runtime import COUNTER, REPO, StepLimit, Violation, short
from .threads import first_difference
from .values import frac

NAMES = [k.name for k in KINDS] + list(PLAIN)


def gen_program(r, name, n=None):
    """One instance's history."""
    pool = BY_NAME[name].values(r) if name in BY_NAME else None
    return {
        "name": name, "spec": gen_spec(r, name) if name in PLAIN else None,
        "cap": r.choice([1, 2, 4]) if name in BOUNDED and r.random() < .3 else None,
        "seed": r.randrange(1000) if r.random() < .5 else None,
        "start": [pool() for _ in range(r.choice([0, 1, 3, 8, 25]))] if pool else []}, \
        [(r.randrange(1000), pool() if pool else r.randrange(9), frac(r), r.randrange(1 << 20))
         for _ in range(n or r.choice([4, 10, 20]))]


def bare_levels(c):
    """How many levels of a skip list above its base one hold nothing."""
    rows = [x for x in repr(c).split("\n") if x.startswith("| -∞ │")]
    return sum(row.count("│⟶") < 2 for row in rows[:-1])


def derived(kind):
    """The kind of a user's own class, derived from the library's with nothing added."""
    k = copy.copy(kind)
    k.cls = type(kind.cls.__name__, (kind.cls,), {})
    return k


OWN = {k.name: derived(k) for k in KINDS}


def play(p, ops, own=False):
    """The event log of a history: what each step gave, and what can be seen after it."""
    log = []

    def step(what, fn, *args):
        runtime._WARNED.clear()
        COUNTER.steps, COUNTER.limit = 0, runtime.DEFAULT_LIMIT
        try:
            got = key(fn(*args))
        except StepLimit:
            got = "no end"
        except Exception as e:
            got = "raised " + type(e).__name__
        finally:
            COUNTER.limit = float("inf")
        log.append((what, got))
        warned = sum(issubclass(c, UserWarning) for c, _ in runtime._WARNED)
        if warned:
            log.append((what + ": warnings", warned))

    name = p["name"]
    if name in PLAIN:
        m = Made(Plainly, name, p["spec"])
        for o, v, f, salt in ops:
            step("change", PlainTrees.change, Plainly, m, o % 900, f, v, salt)
            log.append(("state", observe_plain(name, m.c)))
        return log
    kind = (OWN if own else BY_NAME)[name]
    Kind.settled = name != "Treap" or p["seed"] is None
    c = kind.make(p["cap"]) if Kind.settled else kind.cls(seed=p["seed"])
    for i, v in enumerate(p["start"]):
        step("add", kind.add, c, v, i)
    log.append(("state", observe(c, False)))
    for o, v, f, salt in ops:
        x = o % 10
        if x < 6 or not len(c):
            what = kind.ops[o // 10 % len(kind.ops)]
            step(what, kind.apply, c, what, v, f, salt)
        elif x == 6:
            for q, fn in kind.reads(c, v, f, salt):
                step(q, fn)
        elif x < 9:
            calls = list(kind.bad(c, salt))
            for j in range(4):
                what, _, fn = calls[(salt // 7 + j * (1 + salt % 11)) % len(calls)]
                step(what, fn)
        elif o < 50:
            step("clear", c.clear)
        elif Footprint.size(kind, c):
            step("drain", kind.drain, c, kind.drains[o // 10 % len(kind.drains)], salt)
        log.append(("state", observe(c, False)))
        if name == "SkipList":
            log.append(("levels holding nothing", bare_levels(c)))
    return log


# ------------------------------------------------------------ other interpreters --
def receive(f):
    head = f.read(4)
    if len(head) < 4:
        return None
    return pickle.loads(f.read(struct.unpack(">I", head)[0]))


def send(f, what):
    data = pickle.dumps(what)
    f.write(struct.pack(">I", len(data)) + data)
    f.flush()


def serve(quirky):
    """Plays each history it's sent in a process of its own."""
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    runtime.install()
    if quirky:
        gc.disable()
    while True:
        job = receive(inp)
        if job is None:
            return
        before, p, ops, seed = job
        pid = os.fork()
        if not pid:
            try:
                for other, its in before:
                    runtime.seed_all(seed + 1)
                    play(other, its)
                runtime.seed_all(seed)
                send(out, play(p, ops))
            except BaseException as e:
                send(out, [("broke", f"{type(e).__name__}: {short(str(e))}")])
            os._exit(0)
        if os.waitpid(pid, 0)[1]:
            send(out, [("broke", "the interpreter ended")])


class Interpreter:
    def __init__(self, flags, hashseed, quirky):
        env = {**os.environ, "PYTHONHASHSEED": hashseed, "VERIF_REPO": REPO}
        if quirky:
            env.update(LC_ALL="C", LANG="C", TZ="Pacific/Kiritimati", COLUMNS="7")
        self.p = subprocess.Popen(
            [sys.executable, "-B", *flags, "-c",
             f"import sys; sys.path.insert(0, {VERIF!r}); "
             f"from mon.elsewhere import serve; serve({quirky})"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/" if quirky else None)

    def play(self, before, p, ops, seed):
        send(self.p.stdin, (before, p, ops, seed))
        got = receive(self.p.stdout)
        if got is None:
            raise runtime.Inconclusive("the other interpreter ended")
        return got


_RUNNING = {}


def interpreter(which):
    k = (os.getpid(), which)
    if k not in _RUNNING:
        _RUNNING[k] = Interpreter([], "0", False) if which == "usual" else \
            Interpreter(["-O"], "4242", True)
    return _RUNNING[k]


class Elsewhere(Scenario):
    name = "elsewhere"
    required = tuple("replayed:" + n for n in NAMES) + (
        "without assertions", "after others", "in a used process", "derived", "refusals", "warnings")

    def gen(self, r):
        name = r.choice(NAMES)
        p, ops = gen_program(r, name)
        before = []
        for _ in range(r.choice([1, 1, 2])):
            # more often than not, the same kind was used before
            other = name if r.random() < .6 else r.choice(NAMES)
            before.append(gen_program(r, other, r.choice([3, 8])))
        if r.random() < .2 and name in BY_NAME:  # even with the very same contents
            before[0] = dict(p), list(ops)
        return {"program": p, "before": before, "seed": r.randrange(1 << 40)}, ops

    def run(self, ctx, cfg, ops):
        p, before, seed = cfg["program"], cfg["before"], cfg["seed"]
        name = p["name"]
        ctx.note(name, p["start"], p["spec"], p["cap"], p["seed"])
        for o in ops:
            ctx.note("step", o)
        usual = interpreter("usual").play([], p, ops, seed)
        ctx.ev("replayed:" + name)
        ctx.ev("steps logged", len(usual))
        if usual and usual[0][0] == "broke":
            raise Violation(f"a history of a {name} can't be played: {usual[0][1]}")
        for what, got in usual:
            if type(got) is str and got.startswith("raised"):
                ctx.ev("refusals")
            if what.endswith(": warnings"):
                ctx.ev("warnings")
        other = interpreter("other").play([], p, ops, seed)
        self.compare(ctx, name, "without assertions", usual, other,
                     "in an interpreter with another hash seed, without assertions and "
                     "garbage collection")
        after = interpreter("usual").play(before, p, ops, seed)
        self.compare(ctx, name, "after others", usual, after,
                     f"after {' and a '.join(b['name'] for b, _ in before)} was used in the "
                     f"same process")
        runtime.seed_all(seed)
        was = Kind.settled
        try:
            here = play(p, ops)
            runtime.seed_all(seed)
            mine = play(p, ops, True) if name in OWN else here
        finally:
            Kind.settled = was
        self.compare(ctx, name, "in a used process", usual, here,
                     "in a process which played many other histories before")
        self.compare(ctx, name, "derived", usual, mine,
                     "on an instance of a derived class which adds nothing")
        ctx.state(name, repr(usual)[:2000])

    @staticmethod
    def compare(ctx, name, ev, a, b, where):
        ctx.ev(ev)
        if a != b:
            raise Violation(f"the same history of a {name} came out differently {where}: "
                            f"{first_difference(a, b)}")
