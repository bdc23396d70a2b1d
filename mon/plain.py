"""The cross-cutting monitors for the collections which aren't filled value by
value: general trees, hand-linked or parsed binary trees, and suffix tries."""
import random

from . import runtime  # noqa: F401
from .engine import Scenario
from .kinds import difference, key
from .runtime import Violation, short
from .trees import (BinaryTree, BinaryTreeNode, Tree, TreeNode, gen_general, gen_shape, strewn,
                    node_value)
from .tries import SuffixTrie, suffix_word
from .values import at, frac

KINDS = ("Tree", "BinaryTree", "ParsedTree", "SuffixTrie")
COMMON = ("get_height", "get_depth", "count_leaf_nodes")
ASK = {
    "Tree": COMMON + ("is_empty", "get_nodes_per_level"),
    "BinaryTree": COMMON + (
        "is_empty", "get_nodes_per_level", "is_balanced", "is_perfect", "is_strict",
        "preorder_traverse", "inorder_traverse", "postorder_traverse", "breadth_first_traverse",
        "depth_first_traverse", "get_leftside_view", "get_rightside_view"),
    "SuffixTrie": COMMON + ("to_suffix_array", "get_longest_common_substring",
                            "get_longest_repeated_substring"),
}
ASK["ParsedTree"] = ASK["BinaryTree"]
LOOSE = ("get_longest_common_substring", "get_longest_repeated_substring")  # any order will do


def answer(c, name):
    got = getattr(c, name)()
    return key(sorted(got)) if name in LOOSE else key(got)


def observe(kind, c):
    out = [("len", len(c)), ("drawing", repr(c)), ("iteration", key(list(c))),
           ("to_list", key(c.to_list()))]
    return out + [(n, answer(c, n)) for n in ASK[kind]]


def describe(shape):
    """A binary shape as what parse takes."""
    v, left, right = shape
    if left is None and right is None:
        return [v]
    if right is None:
        return [v, describe(left)]
    if left is None:
        return [v, describe(right)]  # only a left child can be alone
    return [v, describe(left), describe(right)]


class Plainly:
    """Does at once what a workload's `Ctx` would record."""

    @staticmethod
    def do(what, fn, *args, **kw):
        return fn(*args)

    @staticmethod
    def note(*parts):
        pass


class Made:
    """An instance with the nodes it's made of."""

    def __init__(self, ctx, kind, spec):
        self.kind, self.nodes, self.source = kind, [], None
        if kind == "SuffixTrie":
            self.c = ctx.do("SuffixTrie", SuffixTrie, spec)
        elif kind == "ParsedTree":
            self.source = describe(spec) if spec is not None else [0]
            self.c = ctx.do("parse", BinaryTree.parse, self.source)
            todo = [self.c._root]
            while todo:
                n = todo.pop()
                self.nodes.append(n)
                todo += n.get_children()
        else:
            self.c = Tree() if kind == "Tree" else BinaryTree()
            self.graft(spec)

    def graft(self, spec):
        self.nodes = []
        self.c._root = None if spec is None else self.node(spec)

    def node(self, s):
        if self.kind == "Tree":
            n = TreeNode(s[0])
            for k in s[1]:
                n.set_child(self.node(k))
        else:
            n = BinaryTreeNode(s[0])
            if s[1] is not None:
                n.set_left(self.node(s[1]))
            if s[2] is not None:
                n.set_right(self.node(s[2]))
        self.nodes.append(n)
        return n

    def look(self):
        return observe(self.kind, self.c)


def gen_spec(r, kind):
    if kind == "SuffixTrie":
        return suffix_word(r, 20)
    if kind == "Tree":
        return strewn(gen_general(r), r) if r.random() < .95 else None
    return strewn(gen_shape(r), r)


def subtree(n):
    return 1 + sum(map(subtree, n.get_children()))


def inside(root, n):
    return root is n or any(inside(k, n) for k in root.get_children())


class PlainTrees(Scenario):
    """mode: "queries", "sizes", "independence", "emptied" or "rejections"."""

    def __init__(self, mode):
        self.mode = mode
        self.name = "plain_" + mode
        kinds = KINDS[:3] if mode == "emptied" else KINDS
        self.required = tuple(f"{mode}:{k}" for k in kinds)

    def gen(self, r):
        kind = r.choice(KINDS[:3] if self.mode == "emptied" else KINDS)
        many = 3 if self.mode == "independence" else 1
        cfg = {"kind": kind, "specs": [gen_spec(r, kind) for _ in range(many)]}
        if many > 1 and r.random() < .5:  # built from one and the same description
            cfg["specs"][1] = cfg["specs"][0]
        return cfg, [(r.randrange(1000), frac(r), node_value(r), r.randrange(1 << 20))
                     for _ in range(r.choice([3, 8, 16]))]

    def run(self, ctx, cfg, ops):
        kind = cfg["kind"]
        pool = [Made(ctx, kind, s) for s in cfg["specs"]]
        ctx.ev(f"{self.mode}:{kind}")
        getattr(self, self.mode)(ctx, kind, pool, ops, cfg)

    # ------------------------------------------------------------ changing it --
    @staticmethod
    def change(ctx, m, o, f, v, salt):
        """One change through the nodes or the tree; says what the size has to
        be afterwards."""
        c = m.c
        size = len(c)
        if m.kind == "SuffixTrie":
            return size
        if o % 10 == 0:
            ctx.do("clear", c.clear)
            m.nodes = []
            return 0
        if m.kind != "Tree" and o % 10 in (1, 2, 3):
            ctx.do("invert", c.invert)
            return size
        if not m.nodes:
            m.graft([v, []] if m.kind == "Tree" else [v, None, None])
            ctx.note("a new root", v)
            return 1
        n = m.nodes[at(f, len(m.nodes))]
        here = inside(c._root, n)
        if m.kind == "Tree":
            if o % 10 < 7:
                k = TreeNode(v)
                m.nodes.append(k)
                ctx.do("set_child", n.set_child, k)
                return size + here
            gone = sum(map(subtree, n.get_children()))
            kids = [TreeNode(salt % 7) for _ in range(salt % 3)]
            ctx.do("set_children", n.set_children, kids)
            m.nodes += kids
            return size + (len(kids) - gone) * here
        k = BinaryTreeNode(v)
        m.nodes.append(k)
        old = n.get_left() if salt & 1 else n.get_right()
        ctx.do("set_left" if salt & 1 else "set_right", n.set_left if salt & 1 else n.set_right, k)
        return size + (1 - (subtree(old) if old is not None else 0)) * here

    # -------------------------------------------------------------- the modes --
    def sizes(self, ctx, kind, pool, ops, cfg):
        m = pool[0]
        want = len(m.c)
        self.sized(ctx, m, want)
        for o, f, v, salt in ops:
            want = self.change(ctx, m, o, f, v, salt)
            self.sized(ctx, m, want)

    @staticmethod
    def sized(ctx, m, want):
        c = m.c
        n = len(c)
        ctx.equal(f"len() of a {m.kind}", n, want)
        items, listed = sum(1 for _ in c), len(c.to_list())
        root = m.kind == "SuffixTrie"  # which counts its empty root as well
        ctx.check(items + root == n == listed + root,
                  f"{m.kind}: len() is {n}, it gives {items} elements, to_list() {listed}")
        if not root:
            per = sum(map(len, c.get_nodes_per_level()))
            ctx.check(per == n, f"{m.kind}: len() is {n}, its levels hold {per}")
            ctx.equal(f"is_empty() of a {m.kind} of {n}", c.is_empty(), n == 0)
        ctx.state(m.kind, n, c.get_height(), c.count_leaf_nodes())

    def queries(self, ctx, kind, pool, ops, cfg):
        m = pool[0]
        c = m.c
        for o, f, v, salt in ops:
            before = m.look()
            names = list(ASK[kind])
            rr = random.Random(salt)
            rr.shuffle(names)
            said = dict(before)
            for n in names[:6]:
                got = ctx.do("q:" + n, answer, c, n)
                ctx.check(got == said[n], f"{kind}: {n}() gives {short(got)}, {short(said[n])} "
                                          f"before")
            for what, q in self.asks(kind, m, cfg, v, f, salt):
                a, b = ctx.do("q:" + what, q), ctx.do("q:" + what, q)
                ctx.check(key(a) == key(b), f"{kind}: asking {what} twice gives {short(a)}, "
                                            f"then {short(b)}")
            want = list(c)
            i1, i2 = iter(c), iter(c)
            got1, got2 = [], []
            while len(got1) + len(got2) < 2 * len(want) + 2:
                it, got = (i1, got1) if rr.random() < .5 else (i2, got2)
                try:
                    got.append(next(it))
                except StopIteration:
                    (got2 if it is i1 else got1).extend(i2 if it is i1 else i1)
                    break
            ctx.check(key(got1) == key(want) == key(got2),
                      f"{kind}: two interleaved iterators gave {short(got1)} and {short(got2)}")
            next(iter(c), None)
            after = m.look()
            ctx.check(before == after, lambda: f"{kind}: queries changed "
                                               f"{difference(before, after)}")
            ctx.state(kind, repr(before)[:300])
            self.change(ctx, m, o, f, v, salt)

    @staticmethod
    def asks(kind, m, cfg, v, f, salt):
        c = m.c
        yield "len", lambda: len(c)
        yield "str", lambda: str(c)
        if kind == "SuffixTrie":
            w = cfg["specs"][0]
            i, j = at(f, len(w) + 1), salt % (len(w) + 1)
            p = w[min(i, j):max(i, j)]
            yield "has_substring", lambda: c.has_substring(p)
            yield "has_substring(odd)", lambda: c.has_substring(5)
            yield "count", lambda: c.count_pattern_occurrences(p + "a" * (salt % 2))
            yield "ancestor", lambda: c.get_lowest_common_ancestor(i, j)
            return
        yield "in", lambda: v in c
        if kind != "Tree":
            yield "traverse", lambda: c.traverse(
                ["inorder", "Preorder", "postorder", "breadth-first", "depth-first"][salt % 5])

    def independence(self, ctx, kind, pool, ops, cfg):
        seen = [m.look() for m in pool]
        for o, f, v, salt in ops:
            i = salt % len(pool)
            m = pool[i]
            changed = None
            x = salt // 8 % 4
            if x == 0:  # what is handed out is the caller's
                for n in ("to_list",) + ASK[kind]:
                    got = getattr(m.c, n)()
                    if type(got) is list:
                        for row in got if n == "get_nodes_per_level" else ():
                            row.append(999)
                        got.append(888)
                        got[0] = 777
                        got.reverse()
                ctx.note("vandalised what", kind, "handed out")
            elif x == 1 and m.source is not None:  # what was handed in as well
                todo = [m.source]
                while todo:
                    s = todo.pop()
                    todo += [k for k in s[1:] if type(k) is list]
                    s[0] = "changed"
                    s.append("more")
                ctx.note("changed the description of", i)
            elif x == 2 and kind == "Tree" and m.nodes:
                n = m.nodes[at(f, len(m.nodes))]
                kids = [TreeNode(v) for _ in range(salt // 64 % 3)]
                ctx.do("set_children", n.set_children, kids)
                m.nodes += kids
                seen[i] = m.look()
                kids.append(TreeNode(9))
                kids[0] = TreeNode(8)
            else:
                self.change(ctx, m, o, f, v, salt)
                changed = i
            for k, other in enumerate(pool):
                got = other.look()
                if k == changed:
                    seen[k] = got
                elif got != seen[k]:
                    raise Violation(f"{kind}: something done to instance {i} or what it gave or "
                                    f"got changed instance {k}: {difference(seen[k], got)}")
            ctx.state(kind, repr(seen)[:300])

    def emptied(self, ctx, kind, pool, ops, cfg):
        m = pool[0]
        cls = type(m.c)
        for k, (o, f, v, salt) in enumerate(ops):
            self.change(ctx, m, o, f, v, salt)
            if k % 3 and k + 1 < len(ops):
                continue
            ctx.do("clear", m.c.clear)
            fresh = Made(ctx, "Tree" if kind == "Tree" else "BinaryTree", None)
            ctx.check(type(m.c) is cls, f"clearing a {kind} left a {type(m.c).__name__}")
            for again in range(3):
                a, b = m.look(), observe(kind, fresh.c)
                ctx.check(a == b, lambda: f"a cleared {kind} against a new one, {again} steps "
                                          f"later: {difference(a, b)}")
                spec = gen_spec(random.Random(salt + again), fresh.kind)
                m.graft(spec)
                fresh.graft(spec)
                if fresh.kind != "Tree" and salt & 2:
                    ctx.do("invert", m.c.invert)
                    fresh.c.invert()
            a, b = m.look(), observe(kind, fresh.c)
            ctx.check(a == b, lambda: f"a cleared {kind}, filled again, against a new one: "
                                      f"{difference(a, b)}")
            ctx.state(kind, repr(a)[:300])

    def rejections(self, ctx, kind, pool, ops, cfg):
        m = pool[0]
        V, T = ValueError, TypeError
        c = m.c
        for o, f, v, salt in ops:
            before = m.look()
            n = m.nodes[at(f, len(m.nodes))] if m.nodes else None
            if kind == "SuffixTrie":
                w = cfg["specs"][0]
                bad = [(V, lambda: c.get_lowest_common_ancestor(-1, 0)),
                       (V, lambda: c.get_lowest_common_ancestor(0, len(w) + 1)),
                       (T, lambda: c.get_lowest_common_ancestor("0", 0)),
                       (T, lambda: c.get_lowest_common_ancestor(0, None)),
                       (T, lambda: SuffixTrie(5)), (V, lambda: SuffixTrie("")),
                       (V, lambda: SuffixTrie(None))]
            elif kind == "Tree":
                bad = [(T, lambda: Tree.from_path(5)), (V, lambda: Tree.from_path("/no/such/path")),
                       (V, lambda: TreeNode(None)), (T, lambda: TreeNode(c))]
                if n:
                    bad += [(T, lambda: n.set_child(5)), (T, lambda: n.set_child(None)),
                            (T, lambda: n.set_child(c)), (T, lambda: n.set_children(7)),
                            (T, lambda: n.set_children([TreeNode(1), 5])),
                            (T, lambda: n.set_children(iter([TreeNode(1), None]))),
                            (T, lambda: TreeNode.swap(n, 5)), (T, lambda: TreeNode.swap(None, n))]
            else:
                bad = [(T, lambda: c.traverse(5)), (V, lambda: c.traverse("sideways")),
                       (T, lambda: BinaryTree.parse(5)), (V, lambda: BinaryTree.parse([])),
                       (V, lambda: BinaryTree.parse([1, [], 2])),
                       (V, lambda: BinaryTree.parse([1, 2, 3, 4])),
                       (V, lambda: BinaryTree.parse([None])), (T, lambda: BinaryTreeNode(c))]
                if n:
                    bad += [(T, lambda: n.set_left(5)), (T, lambda: n.set_right(None)),
                            (T, lambda: n.set_left(TreeNode(1))), (T, lambda: n.set_right(c)),
                            (NotImplementedError, lambda: n.set_children([n])),
                            (T, lambda: BinaryTreeNode.swap(n, 5))]
            for j in range(3):
                k = (salt // 7 + j * (1 + salt % 5)) % len(bad)
                ctx.rejects(f"{kind} (bad call {k})", bad[k][0], bad[k][1])
            after = m.look()
            ctx.check(before == after, lambda: f"{kind}: a rejected call changed "
                                               f"{difference(before, after)}")
            ctx.state(kind, repr(before)[:300])
            self.change(ctx, m, o, f, v, salt)
