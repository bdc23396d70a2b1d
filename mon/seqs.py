"""Workloads and monitors for the three linked lists."""
from . import runtime  # noqa: F401  (sets sys.path)
from .engine import Scenario
from .runtime import Violation, same, same_seq, short
from .values import M61, Thing, at, frac, obj_pool, stored

from extra.lists.linked_list import LinkedList
from extra.lists.doubly_linked_list import DoublyLinkedList
from extra.lists.circular_linked_list import CircularLinkedList

KINDS = {"LinkedList": LinkedList, "DoublyLinkedList": DoublyLinkedList,
         "CircularLinkedList": CircularLinkedList}
# classes of a user's own, derived from the library's
DERIVED = {name: type("My" + name, (cls,), {}) for name, cls in KINDS.items()}


# ------------------------------------------------------------- link monitor --
def check_links(ctx, kind, c):
    """Walks the real nodes: what the links say must be what the list says."""
    n = len(c)
    vals = c.to_list()
    ctx.ev("links:" + kind)
    head = c._head
    if n == 0:
        return
    ctx.check(head is not None, f"{kind}: {n} elements but no first node")
    nodes, node, seen = [], head, set()
    for _ in range(n):
        ctx.check(node is not None,
                  f"{kind}: the chain ends after {len(nodes)} of {n} nodes")
        ctx.check(id(node) not in seen,
                  f"{kind}: the chain loops back after {len(nodes)} of {n} nodes")
        seen.add(id(node))
        nodes.append(node)
        node = node.get_next()
    ctx.check(same_seq([x.get_data() for x in nodes], vals),
              f"{kind}: nodes hold {short([x.get_data() for x in nodes])}, "
              f"iteration gives {short(vals)}")
    if kind == "CircularLinkedList":
        ctx.check(node is head,
                  f"{kind}: the last of {n} nodes doesn't link back to the first one")
        return
    ctx.check(node is None, f"{kind}: the chain goes on after its {n} elements")
    if kind == "DoublyLinkedList":
        tail = c._tail
        ctx.check(tail is nodes[-1], f"{kind}: the last-node reference is wrong")
        ctx.check(head.get_prev() is None, f"{kind}: the first node has a previous one")
        node, back = tail, []
        for _ in range(n):
            ctx.check(node is not None,
                      f"{kind}: walking backwards ends after {len(back)} of {n} nodes")
            back.append(node)
            node = node.get_prev()
        ctx.check(node is None, f"{kind}: walking backwards goes past the first node")
        ctx.check(all(a is b for a, b in zip(back[::-1], nodes)),
                  f"{kind}: walking backwards gives "
                  f"{short([x.get_data() for x in back])}, forwards {short(vals)}")


# ---------------------------------------------------------- content monitor --
def check_contents(ctx, kind, c, M, r=None, reads=True):
    n = len(M)
    got = c.to_list()
    ctx.ev("contents:" + kind)
    if not (type(got) is list and same_seq(got, M)):
        raise Violation(f"{kind} holds {short(got, 500)}, expected {short(M, 500)}")
    ctx.equal(f"len({kind})", len(c), n)
    ctx.equal(f"{kind}.is_empty()", c.is_empty(), n == 0)
    if not reads:
        return
    it = [x for x in c]
    ctx.check(same_seq(it, M), f"iterating {kind} gives {short(it)}, expected {short(M)}")
    circular = kind == "CircularLinkedList"
    if n:
        for i in {0, n - 1, n // 2, r.randrange(n)}:
            j = i + n * r.choice([0, 0, 1, 2, 9]) if circular else i
            got = c[j]
            ctx.check(same(got, M[i]),
                      f"{kind}[{j}] of {short(M)} gives {short(got)}, expected {short(M[i])}")
            if not circular:
                got = c[i - n]
                ctx.check(same(got, M[i]),
                          f"{kind}[{i - n}] of {short(M)} gives {short(got)}, "
                          f"expected {short(M[i])}")


class SeqHistory(Scenario):
    """Random histories over one list, continued on derived lists as well."""

    WEIGHTS = {
        "add_front": 5, "add_end": 5, "insert": 8, "set": 4, "del": 6,
        "remove_front": 3, "remove_end": 3, "remove": 3, "remove_first": 3,
        "clear": 1, "extend": 3, "extend_self": 1, "rotl": 2, "rotr": 2,
        "reverse": 1, "copy": 1, "slice": 2, "split": 2, "find": 3,
        "rotl_new": 1, "rotr_new": 1, "rebuild": 1,
    }
    PROFILES = {
        "mix": {},
        "grow": {"add_front": 12, "add_end": 12, "insert": 20, "extend": 6, "clear": 0},
        "drain": {"del": 20, "remove_front": 8, "remove_end": 8, "remove": 6,
                  "remove_first": 8},
        "deque": {"add_front": 20, "add_end": 20, "remove_front": 20, "remove_end": 20},
        "rot": {"rotl": 20, "rotr": 20, "reverse": 8, "set": 6},
        "tiny": {"clear": 10, "del": 20, "remove_end": 10, "remove_front": 10,
                 "remove": 10, "insert": 14},
    }

    def __init__(self, name, kinds=None, monitors=("contents",), weights=None, size=None):
        self.name = name
        self.kinds = kinds or list(KINDS)
        self.monitors = monitors
        self.weights = weights
        self.size = size
        self.required = tuple(f"{m}:{k}" for m in monitors if m in ("contents", "links")
                              for k in self.kinds)

    def gen(self, r):
        kind = r.choice(self.kinds)
        pool, nxt = obj_pool(r)
        w = dict(self.WEIGHTS)
        prof = r.choice(list(self.PROFILES))
        w.update(self.PROFILES[prof])
        if self.weights:
            w = {k: v for k, v in w.items() if k in self.weights}
        names, ws = list(w), list(w.values())
        start = [nxt() for _ in range(r.choice([0, 0, 1, 2, 3, 5, 8, 13, 20]))]
        nops = self.size or r.choice([6, 12, 25, 50, 90])
        if self.size:
            start = [nxt() for _ in range(r.choice([250, 600, 1300]))]
        ops = []
        for o in r.choices(names, ws, k=nops):
            n_args = r.choice([0, 1, 2, 3, 6]) if o in ("extend", "rebuild") else 1
            ops.append((o, frac(r), frac(r), [nxt() for _ in range(n_args)],
                        r.randrange(1 << 30)))
        return {"kind": kind, "start": start, "pool": pool, "seed": r.randrange(1 << 30)}, ops

    def run(self, ctx, cfg, ops):
        import random
        kind = cfg["kind"]
        cls = KINDS[kind]
        circular = kind == "CircularLinkedList"
        r = random.Random(cfg["seed"])
        if cfg["seed"] % 12 == 0:
            cls = DERIVED[kind]
            ctx.ev("derived")
        c = ctx.do(f"{kind}(iterable)", cls, cfg["start"]) if cfg["start"] \
            else ctx.do(f"{kind}()", cls)
        M = [stored(v) for v in cfg["start"]]
        content = "contents" in self.monitors
        links = "links" in self.monitors
        if content:
            check_contents(ctx, kind, c, M, r)
        if links:
            check_links(ctx, kind, c)
        for o, f, g, vals, salt in ops:
            if not content:  # judge structure only: take the contents as they are
                M = c.to_list()
            n = len(M)
            v = vals[0] if vals else None
            wrap = (0, 0, 0, n, 3 * n)[salt % 5] if circular else 0
            if o == "add_front":
                ctx.do(o, c.add_front, v)
                M = [stored(v)] + M
            elif o == "add_end":
                ctx.do(o, c.add_end, v)
                M = M + [stored(v)]
            elif o == "insert":
                i = at(f, n + 1)
                j = i + ((n + 1) * (0, 0, 0, 1, 4)[salt % 5] if circular else 0)
                ctx.do(o, c.insert, j, v)
                M = M[:i] + [stored(v)] + M[i:]
            elif o == "set":
                if not n:
                    continue
                i = at(f, n)
                ctx.do(o, c.__setitem__, i + wrap, v)
                M = M[:i] + [stored(v)] + M[i + 1:]
            elif o == "del":
                if not n:
                    continue
                i = at(f, n)
                ctx.do(o, c.__delitem__, i + wrap)
                M = M[:i] + M[i + 1:]
            elif o == "remove_front":
                ctx.do(o, c.remove_front)
                M = M[1:]
            elif o == "remove_end":
                ctx.do(o, c.remove_end)
                M = M[:-1]
            elif o in ("remove", "remove_first"):
                t = M[at(f, n)] if n and salt % 4 else v
                if type(t) is str and "\n" in t:
                    continue
                if o == "remove":
                    if salt & 8:
                        ctx.do(o, c.remove, t)
                    else:
                        ctx.do(o, c.remove, t, all=True)
                    M = [x for x in M if not x == t]
                else:
                    ctx.do(o, c.remove, t, all=False)
                    for i, x in enumerate(M):
                        if x == t:
                            M = M[:i] + M[i + 1:]
                            break
            elif o == "clear":
                ctx.do(o, c.clear)
                M = []
            elif o == "extend":
                other = type(c)(vals)
                if kind == "LinkedList" and type(c) is cls is KINDS[kind] and salt % 5 == 0:
                    other = (DoublyLinkedList, CircularLinkedList)[salt // 5 % 2](vals)
                elif type(c) is KINDS[kind] and salt % 5 == 1:
                    other = DERIVED[kind](vals)
                    ctx.ev("extend_derived")
                ctx.do(o, c.extend, other)
                M = M + [stored(x) for x in vals]
            elif o == "extend_self":
                if n > 60:
                    continue
                ctx.do(o, c.extend, c)
                M = M + M
            elif o in ("rotl", "rotr", "rotl_new", "rotr_new"):
                d = at(f, n + 1) + (0, 0, n, 5 * n)[salt % 4]
                k = (d % n if o.startswith("rotl") else -d % n) if n else 0
                m = c.rotate_left if o.startswith("rotl") else c.rotate_right
                if o.endswith("new"):
                    c = ctx.do(o, m, d, inplace=False)
                elif salt & 64:
                    ctx.do(o, m, d)
                else:
                    ctx.do(o, m, d, inplace=True)
                M = M[k:] + M[:k]
            elif o == "reverse":
                c = ctx.do(o, c.reverse)
                M = M[::-1]
            elif o == "copy":
                c = ctx.do(o, c.copy)
            elif o == "slice":
                if circular:
                    continue
                s = _slice(f, g, salt, n)
                c = ctx.do(o, c.__getitem__, s)
                M = M[s]
            elif o == "split":
                i = at(f, n + 1)
                if circular and n:
                    i %= n
                    left, right = ctx.do(o, c.split, i + wrap)
                else:
                    left, right = ctx.do(o, c.split, i)
                if salt & 32:
                    c, M = left, M[:i]
                else:
                    c, M = right, M[i:]
            elif o == "rebuild":
                c = ctx.do(f"{kind}(list)", cls, c)
            elif o == "find":
                t = M[at(f, n)] if n and salt % 3 else v
                if type(t) is str and "\n" in t:
                    continue
                got = ctx.do("in", c.__contains__, t)
                cnt = ctx.do("count", c.count, t)
                if content:
                    want = [x for x in M if x == t]
                    ctx.check(got is bool(want),
                              f"`{short(t)} in {kind}` of {short(M)} gives {short(got)}")
                    ctx.equal(f"count({short(t)}) of {short(M)}", cnt, len(want))
            if content:
                ctx.check(type(c) is cls or cls is DERIVED[kind] and isinstance(c, KINDS[kind]),
                          f"{o} gave a {type(c).__name__} out of a {kind}")
                check_contents(ctx, kind, c, M, r, reads=n < 80 or salt % 8 == 0)
                ctx.state(kind, o, len(M), tuple(map(repr, M[:6])))
            if links:
                check_links(ctx, kind, c)
                if not content:
                    ctx.state(kind, o, len(c), tuple(map(repr, c.to_list()[:6])))


def _slice(f, g, salt, n):
    opts = [None, at(f, n + 2), -at(f, n + 2), at(g, n + 2), -at(g, n + 2), n + 7, -n - 7]
    a, b = opts[salt % 7], opts[salt // 7 % 7]
    return slice(a, b, (None, 1, 2, 3, -1, -2, -3, n + 1, -n - 1)[salt // 49 % 9])


class Derived(Scenario):
    """Every list-producing operation, against Python's own sequence algebra:
    contents, kind and size of the result and of the untouched original."""

    required = ("derived:slice", "derived:split", "derived:rotate", "derived:reverse",
                "derived:copy", "derived:extend", "derived:ctor", "derived:rotate_inplace")

    def __init__(self, name="derived"):
        self.name = name

    def gen(self, r):
        kind = r.choice(list(KINDS))
        _, nxt = obj_pool(r)
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 40, 120])
        vals = [nxt() for _ in range(n)]
        ops = [(r.choice(["slice", "slice", "split", "rotate", "reverse", "copy",
                          "extend", "ctor", "rotate_inplace", "history"]),
                frac(r), frac(r), [nxt() for _ in range(r.choice([0, 1, 2, 5]))],
                r.randrange(1 << 30)) for _ in range(r.choice([4, 10, 20]))]
        return {"kind": kind, "vals": vals}, ops

    def run(self, ctx, cfg, ops):
        kind = cfg["kind"]
        cls = KINDS[kind]
        circular = kind == "CircularLinkedList"
        c = ctx.do(f"{kind}(iterable)", cls, cfg["vals"])
        M = [stored(v) for v in cfg["vals"]]

        def result(what, d, want, fresh=True):
            ctx.check(type(d) is cls, f"{what} of a {kind} gave a {type(d).__name__}")
            ctx.equal_seq(f"{what} of {kind} {short(M)}", d.to_list(), want)
            ctx.equal(f"len of {what} of {kind} {short(M)}", len(d), len(want))
            check_links(ctx, kind, d)
            if fresh:
                ctx.check(d is not c, f"{what} returned the very same instance")
                ctx.equal_seq(f"the original after {what}", c.to_list(), M)
                ctx.equal("its length", len(c), len(M))
                check_links(ctx, kind, c)

        for o, f, g, vals, salt in ops:
            n = len(M)
            ctx.ev("derived:" + o)
            if o == "slice":
                s = _slice(f, g, salt, n)
                if circular:
                    ctx.rejects("slice", IndexError, c.__getitem__, s)
                    continue
                result(f"slice {s}", ctx.do(o, c.__getitem__, s), M[s])
            elif o == "split":
                i = at(f, n + 1)
                k = i
                if circular:
                    k = i % n if n else 0
                    i += (0, n, 2 * n)[salt % 3]
                pair = ctx.do(o, c.split, i)
                ctx.check(len(pair) == 2, "split didn't give two lists")
                result(f"split({i}) left part", pair[0], M[:k])
                result(f"split({i}) right part", pair[1], M[k:])
                ctx.check(pair[0] is not pair[1], "split gave the same list twice")
            elif o in ("rotate", "rotate_inplace"):
                d = at(f, n + 1) + (0, 0, n, 3 * n, 1000 * n + 1)[salt % 5]
                left = salt & 64
                k = (d % n if left else -d % n) if n else 0
                m = c.rotate_left if left else c.rotate_right
                name = f"rotate_{'left' if left else 'right'}({d})"
                if o == "rotate":
                    result(name, ctx.do("rotate", m, d, inplace=False), M[k:] + M[:k])
                else:
                    ctx.do("rotate_inplace", m, d)
                    M = M[k:] + M[:k]
                    result(name + " in place", c, M, fresh=False)
            elif o == "reverse":
                result(o, ctx.do(o, c.reverse), M[::-1])
            elif o == "copy":
                result(o, ctx.do(o, c.copy), M)
            elif o == "ctor":
                result("a list built from it", ctx.do(f"{kind}(list)", cls, c), M)
            elif o == "extend":
                if n > 200:
                    continue
                other = cls(vals)
                if salt % 6 == 0:
                    other, vals = c, list(M)
                before = other.to_list()
                ctx.do(o, c.extend, other)
                M = M + [stored(v) for v in vals]
                result(o, c, M, fresh=False)
                if other is not c:
                    ctx.equal_seq("the list extended with", other.to_list(), before)
            elif o == "history":  # so that later operations start from used lists
                if n and salt % 3:
                    i = at(f, n)
                    ctx.do("del", c.__delitem__, i)
                    M = M[:i] + M[i + 1:]
                elif vals:
                    i = at(f, n + 1)
                    ctx.do("insert", c.insert, i, vals[0])
                    M = M[:i] + [stored(vals[0])] + M[i:]
            ctx.state(kind, o, n, salt % 441 if o == "slice" else at(f, n + 1))


# --------------------------------------------------------------- comparisons --
def _pairs(a, b):
    return list(zip(a, b))


def model_eq(a, b):
    return len(a) == len(b) and all(x == y for x, y in _pairs(a, b))


def model_le(a, b):
    return len(a) <= len(b) and all(x == y or x < y for x, y in _pairs(a, b))


def model_lt(a, b):
    p = _pairs(a, b)
    if all(x == y for x, y in p):
        return len(a) < len(b)
    return model_le(a, b)


class Compare(Scenario):
    """Pairs/triples of lists, many of them nearly equal."""

    required = ("cmp:true", "cmp:false", "cmp:equal", "cmp:unordered")

    def __init__(self, name="compare"):
        self.name = name

    def gen(self, r):
        kind = r.choice(list(KINDS))
        dom = r.choice(["int", "int", "float", "str", "tuple", "mix", "odd", "alike"])
        few = r.choice([[-1, -2, 0], [7, 7 + M61, 7 - M61], [0, M61, -M61],
                        [2 ** 53, 2 ** 53 + 1, float(2 ** 53)], ["a", "A", "á", "a\u0301"],
                        ["x" * 70, "x" * 71, "x" * 69 + "y"], [1e-13, 2e-13, 0]])
        things = [Thing(i) for i in range(3)]
        nxt = {
            "int": lambda: r.randrange(3), "float": lambda: r.choice([0.5, 1.5, -1.0]),
            "str": lambda: r.choice(["", "a", "ab", "b"]),
            "tuple": lambda: (r.randrange(2), r.randrange(2)),
            "odd": lambda: r.choice([1, "a", 2j, 3j, (), [], [1], {}, {"k": 1}, b"a"] + things),
            "mix": lambda: r.choice([0, 0.0, 1, 1.0, True, 2 ** 60, -3]),
            "alike": lambda: r.choice(few),
        }[dom]
        ops = []
        for _ in range(r.choice([4, 12])):
            x = r.random()
            a = [nxt() for _ in range(r.choice(
                [0, 1, 2, 3, 4, 7, 30] if x < .97 else [66, 130, 260, 700] if x < .999
                else [2200, 4200]))]
            m = r.randrange(7)
            b = list(a)
            if m == 1 and b:
                b[r.randrange(len(b))] = nxt()
            elif m == 2:
                b = b[: r.randrange(len(b) + 1)]
            elif m == 3:
                b = b + [nxt()]
            elif m == 4:
                b = [nxt() for _ in range(r.randrange(6))]
            elif m == 5 and dom in ("int", "float", "mix"):
                d = r.choice([-1, 1])
                b = [x + d if r.random() < 0.6 else x for x in b]
            elif m == 6 and b:
                b[-1] = nxt()
                b = b[: len(b) - r.randrange(2)]
            if r.random() < 0.5:
                a, b = b, a
            ops.append((a, b, r.randrange(1 << 20)))
        return {"kind": kind, "ordered": dom != "odd"}, ops

    def run(self, ctx, cfg, ops):
        kind = cfg["kind"]
        cls = KINDS[kind]
        for a, b, salt in ops:
            x, y = cls(a), cls(b)
            if not cfg["ordered"]:  # values which only know equality
                ctx.ev("cmp:unordered")
                want = model_eq(a, b)
                for p, q in ((x, y), (y, x)):
                    ctx.equal(f"{kind}: {short(a)} == {short(b)}", ctx.do("==", lambda: p == q),
                              want)
                    ctx.equal(f"{kind}: {short(a)} != {short(b)}", ctx.do("!=", lambda: p != q),
                              not want)
                ctx.equal_seq(f"{kind} after comparing", x.to_list(), a)
                ctx.equal_seq(f"{kind} after comparing", y.to_list(), b)
                ctx.state(kind, tuple(map(repr, a)), tuple(map(repr, b)))
                continue
            if salt % 3 == 0 and b:  # a list with a past
                y = cls([b[0]] + b + [b[-1]])
                ctx.do("remove_front", y.remove_front)
                ctx.do("remove_end", y.remove_end)
            if salt % 5 == 0 and a:
                x = cls(a[::-1])
                x = ctx.do("reverse", x.reverse)
            want = {"==": model_eq(a, b), "!=": not model_eq(a, b),
                    "<": model_lt(a, b), "<=": model_le(a, b),
                    ">": model_lt(b, a), ">=": model_le(b, a)}
            got = {"==": ctx.do("==", lambda: x == y), "!=": ctx.do("!=", lambda: x != y),
                   "<": ctx.do("<", lambda: x < y), "<=": ctx.do("<=", lambda: x <= y),
                   ">": ctx.do(">", lambda: x > y), ">=": ctx.do(">=", lambda: x >= y)}
            for op in want:
                ctx.check(got[op] is want[op],
                          f"{kind}: {short(a)} {op} {short(b)} gives {short(got[op])}, "
                          f"expected {want[op]}")
                ctx.ev("cmp:true" if want[op] else "cmp:false")
            mirror = {"==": ctx.do("==", lambda: y == x), "<": ctx.do("<", lambda: y < x),
                      "<=": ctx.do("<=", lambda: y <= x), ">": ctx.do(">", lambda: y > x),
                      ">=": ctx.do(">=", lambda: y >= x)}
            for op, back in (("==", "=="), ("<", ">"), (">", "<"), ("<=", ">="), (">=", "<=")):
                ctx.check(mirror[op] is got[back],
                          f"{kind}: {short(b)} {op} {short(a)} is {short(mirror[op])} but "
                          f"{short(a)} {back} {short(b)} is {short(got[back])}")
            if got["=="]:
                ctx.ev("cmp:equal")
                ctx.check(not got["<"] and not got[">"] and got["<="] and got[">="],
                          f"{kind}: equal lists {short(a)}, {short(b)} are also < or >")
            ctx.check(ctx.do("==", lambda: x == x) is True and
                      ctx.do("<", lambda: x < x) is False and
                      ctx.do("<=", lambda: x <= x) is True,
                      f"{kind}: {short(a)} compares wrongly with itself")
            ctx.equal_seq(f"{kind} after comparing", x.to_list(), [stored(v) for v in a])
            ctx.equal_seq(f"{kind} after comparing", y.to_list(), [stored(v) for v in b])
            for junk in (a, None, 3, "x", tuple(b)):
                ctx.rejects("compare with another type", TypeError,
                            (lambda j: x == j, lambda j: x != j, lambda j: x < j,
                             lambda j: x <= j, lambda j: x > j, lambda j: x >= j)[salt % 6],
                            junk)
            ctx.state(kind, tuple(map(repr, a)), tuple(map(repr, b)))
