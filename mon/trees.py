"""Workloads and monitors for the binary trees, search trees, heaps and the
general tree."""
import math
import os
import random
import shutil
import tempfile

from . import runtime  # noqa: F401  (sets sys.path)
from .engine import Scenario
from .runtime import Violation, same, same_seq, short
from .values import Thing, Point, at, frac, num_pool, obj_pool, priorities, stored

from extra.trees.tree import Tree, TreeNode
from extra.trees.binary_tree import BinaryTree, BinaryTreeNode
from extra.trees.bst import BST
from extra.trees.avl import AVL
from extra.trees.red_black_tree import RedBlackTree, Color
from extra.trees.splay_tree import SplayTree
from extra.trees.treap import Treap
from extra.trees.min_heap import MinHeap
from extra.trees.max_heap import MaxHeap

SEARCH = {"BST": BST, "AVL": AVL, "RedBlackTree": RedBlackTree,
          "SplayTree": SplayTree, "Treap": Treap}
HEAPS = {"MinHeap": MinHeap, "MaxHeap": MaxHeap}
ODD = ["3", "", [1], (), True, False, 2j, object(), {}, {1}, b"1", float]


# --------------------------------------------------------- walking the nodes --
class Snap:
    """The nodes really reachable from the root (never loops, never recurses)."""

    __slots__ = ("root", "nodes", "left", "right", "depth", "up", "side", "val")

    def __init__(self, root, who="tree"):
        self.root = root
        self.nodes, self.left, self.right = [], {}, {}
        self.depth, self.up, self.side = {}, {}, {}
        self.val = {}  # a later operation can swap the nodes' values
        if root is None:
            return
        todo = [(root, None, "", 0)]
        while todo:
            node, up, side, d = todo.pop()
            k = id(node)
            if k in self.depth:
                raise Violation(f"{who}: node {short(node)} is reachable twice")
            self.nodes.append(node)
            self.depth[k], self.up[k], self.side[k] = d, up, side
            self.val[k] = node.get_data()
            l, r = node.get_left(), node.get_right()
            self.left[k], self.right[k] = l, r
            if r is not None:
                todo.append((r, node, "R", d + 1))
            if l is not None:
                todo.append((l, node, "L", d + 1))

    # nodes is already in pre-order
    def preorder(self):
        return [n.get_data() for n in self.nodes]

    def inorder_nodes(self):
        out, stack, node = [], [], self.root
        while stack or node is not None:
            while node is not None:
                stack.append(node)
                node = self.left[id(node)]
            node = stack.pop()
            out.append(node)
            node = self.right[id(node)]
        return out

    def inorder(self):
        return [n.get_data() for n in self.inorder_nodes()]

    def postorder(self):
        out, todo = [], [self.root] if self.root is not None else []
        while todo:
            n = todo.pop()
            out.append(n.get_data())
            for c in (self.left[id(n)], self.right[id(n)]):
                if c is not None:
                    todo.append(c)
        return out[::-1]

    def levels(self):
        out = []
        for n in self.nodes:  # pre-order keeps each level left to right
            d = self.depth[id(n)]
            if d == len(out):
                out.append([])
            out[d].append(n.get_data())
        return out

    def heights(self):
        h = {}
        for n in reversed(self.nodes):
            k = id(n)
            h[k] = max([1 + h[id(c)] for c in (self.left[k], self.right[k])
                        if c is not None], default=0)
        return h

    def sizes(self):
        s = {}
        for n in reversed(self.nodes):
            k = id(n)
            s[k] = 1 + sum(s[id(c)] for c in (self.left[k], self.right[k])
                           if c is not None)
        return s

    def path_to(self, v):
        """The values a search for `v` meets, root first."""
        out, n = [], self.root
        while n is not None:
            out.append(n)
            x = self.val[id(n)]
            if v == x:
                break
            n = self.left[id(n)] if v < x else self.right[id(n)]
        return out


# ------------------------------------------------------- structural monitors --
def check_search_links(ctx, kind, c):
    s = Snap(c._root, kind)
    ctx.ev("nodes_walked", len(s.nodes))
    ctx.ev("links:" + kind)
    got = s.inorder()
    ctx.check(all(a < b for a, b in zip(got, got[1:])),
              f"{kind}: left to right the nodes hold {short(got)}, not increasing")
    ctx.check(len(s.nodes) == len(c),
              f"{kind}: {len(s.nodes)} nodes are linked, len() says {len(c)}")
    for n in s.nodes:
        k = id(n)
        up, side = s.up[k], s.side[k]
        ctx.check(n.get_parent() is up,
                  lambda: f"{kind}: parent of {short(n)} is {short(n.get_parent())}, "
                          f"it hangs below {short(up)}")
        kids = [x for x in (s.left[k], s.right[k]) if x is not None]
        got = n.get_children()
        ctx.check(len(got) == len(kids) and all(a is b for a, b in zip(got, kids)),
                  lambda: f"{kind}: children of {short(n)} are given as {short(got)}")
        ctx.check(n.is_leaf() is (not kids), lambda: f"{kind}: is_leaf() of {short(n)}")
        ctx.check(n.has_one_child() is (len(kids) == 1),
                  lambda: f"{kind}: has_one_child() of {short(n)}")
        if up is not None:
            ctx.check(n.is_left_child() is (side == "L"),
                      lambda: f"{kind}: is_left_child() of {short(n)} below {short(up)} is "
                              f"{n.is_left_child()}")
            sib = s.right[id(up)] if side == "L" else s.left[id(up)]
            ctx.check(n.get_sibling() is sib, lambda: f"{kind}: sibling of {short(n)} is "
                                                      f"{short(n.get_sibling())}")
            gp = s.up[id(up)]
        else:
            ctx.check(n.get_sibling() is None, lambda: f"{kind}: the root has a sibling")
            gp = None
        ctx.check(n.get_grand_parent() is gp, lambda: f"{kind}: grandparent of {short(n)} is "
                                                      f"{short(n.get_grand_parent())}")
        uncle = None
        if gp is not None:
            uncle = s.right[id(gp)] if s.side[id(up)] == "L" else s.left[id(gp)]
        ctx.check(n.get_uncle() is uncle, lambda: f"{kind}: uncle of {short(n)} is "
                                                  f"{short(n.get_uncle())}")
    return s


def check_avl(ctx, c):
    s = Snap(c._root, "AVL")
    h = s.heights()
    ctx.ev("avl_nodes", len(s.nodes))
    for n in s.nodes:
        k = id(n)
        l, r = ((1 + h[id(x)] if x is not None else 0) for x in (s.left[k], s.right[k]))
        ctx.check(abs(l - r) <= 1, lambda: f"AVL: below {short(n)} the left side is {l} high "
                                           f"and the right side {r}")
        ctx.check(n.get_height() == h[k], lambda: f"AVL: {short(n)} says its height is "
                                                  f"{n.get_height()}, it is {h[k]}")
        if l != r:
            ctx.ev("avl_leaning")
    n = len(s.nodes)
    top = h[id(s.root)] if s.root is not None else 0
    ctx.equal("AVL get_height()", c.get_height(), top)
    ctx.check(top <= 1.4405 * math.log2(n + 2), f"AVL: height {top} for {n} values")
    ctx.equal("AVL is_balanced()", c.is_balanced(), True)
    return s


def check_rb(ctx, c):
    s = Snap(c._root, "RedBlackTree")
    ctx.ev("rb_nodes", len(s.nodes))
    if s.root is None:
        ctx.equal("get_black_height() of an empty tree", c.get_black_height(), 0)
        return s
    ctx.check(s.root.get_color() is Color.BLACK, "RedBlackTree: the root isn't black")
    blacks, paths = {}, set()
    for n in s.nodes:
        k = id(n)
        up = s.up[k]
        red = n.get_color() is Color.RED
        ctx.check(red or n.get_color() is Color.BLACK, f"{short(n)} has no color")
        ctx.check(not (red and up is not None and up.get_color() is Color.RED),
                  lambda: f"RedBlackTree: {short(n)} below {short(up)} are both red")
        blacks[k] = (blacks[id(up)] if up is not None else 0) + (not red)
        if s.left[k] is None or s.right[k] is None:
            paths.add(blacks[k])
        if red:
            ctx.ev("red")
    ctx.check(len(paths) == 1, f"RedBlackTree: paths with different numbers of black nodes "
                               f"{sorted(paths)}")
    ctx.equal("get_black_height()", c.get_black_height(), paths.pop())
    h = max(s.depth.values())
    ctx.equal("RedBlackTree get_height()", c.get_height(), h)
    ctx.check(h + 1 <= 2 * math.log2(len(s.nodes) + 1) + 1e-9,
              f"RedBlackTree: height {h} for {len(s.nodes)} values")
    return s


def check_treap(ctx, c, prios):
    """`prios`: value -> the explicit priority it was inserted with."""
    s = Snap(c._root, "Treap")
    ctx.ev("treap_nodes", len(s.nodes))
    for n in s.nodes:
        p, up = n.get_priority(), s.up[id(n)]
        ctx.check(up is None or up.get_priority() >= p,
                  lambda: f"Treap: {short(n)} is below {short(up)}")
        v = n.get_data()
        if v in prios:
            ctx.ev("explicit_priority")
            ctx.check(same(p, prios[v]), lambda: f"Treap: {v} was given priority {prios[v]}, "
                                                 f"it has {p}")
        else:
            ctx.ev("random_priority")
            ctx.check(type(p) is int and 0 <= p <= 100,
                      lambda: f"Treap: random priority {p} of {v}")
    return s


# ------------------------------------------------------------ search history --
class TreeHistory(Scenario):
    """Random histories over one search tree.

    monitors: "set" (contents against a sorted model), "links", "avl", "rb",
    "treap", "splay" (structure only: the contents are taken as they are)."""

    def __init__(self, name, kinds, monitors, big=False, required=()):
        self.name = name
        self.kinds = kinds
        self.monitors = monitors
        self.big = big
        self.required = required

    def gen(self, r):
        kind = r.choice(self.kinds)
        _, nxt = num_pool(r, r.choice(["wide", "dense"]) if self.big else None)
        w = r.choice([(6, 3, 2, 0, 1), (8, 1, 1, 0, 1), (4, 6, 1, 0, 1), (5, 5, 2, 1, 1),
                      (3, 8, 1, 0, 0)])
        n = r.choice([30, 80]) if self.big else r.choice([6, 15, 30, 60, 120])
        prio = priorities(r)
        ops = [(o, nxt(), frac(r), prio(), r.randrange(1 << 20)) for o in
               r.choices(["insert", "remove", "in", "clear", "odd"], w, k=n)]
        size = r.choice([120, 250, 400, 700]) if self.big else r.choice([0, 0, 1, 3, 7, 15, 40])
        order = r.choice(["random", "random", "up", "down", "zigzag", "inside_out"])
        if order == "random":
            start = [nxt() for _ in range(size)]
        else:
            start = list(range(size))
            if order == "down":
                start.reverse()
            elif order == "zigzag":
                start = [x for p in zip(start, reversed(start)) for x in p][:size]
            elif order == "inside_out":
                m = size // 2
                start = [m + (i // 2 + 1) * (-1) ** i for i in range(size)]
        if self.big and kind in ("BST", "SplayTree") and order != "random":
            start = start[:250]  # chains: well within what any recursion takes
        return {"kind": kind, "start": start, "seed": r.randrange(1 << 30)}, ops

    def run(self, ctx, cfg, ops):
        kind = cfg["kind"]
        cls = SEARCH[kind]
        judge = "set" in self.monitors
        c = ctx.do(f"{kind}(iterable)", cls, cfg["start"]) if cfg["start"] else \
            ctx.do(f"{kind}()", cls)
        M, prios = {}, {}
        for v in cfg["start"]:
            M.setdefault(v, v)
        self.look(ctx, kind, c, M, prios, True)
        for o, v, f, p, salt in ops:
            if not judge:
                M = {x: x for x in Snap(c._root, kind).preorder()}
            ks = sorted(M)
            before = Snap(c._root, kind) if "splay" in self.monitors else None
            if o == "insert":
                if salt % 8 == 0 and ks:
                    v = type(v)(ks[at(f, len(ks))]) if abs(ks[at(f, len(ks))]) < 1e15 else \
                        ks[at(f, len(ks))]
                dup = v in M
                if kind == "Treap" and p is not None:
                    ctx.do(o, c.insert, v, p)
                    if not dup:
                        prios[v] = p
                else:
                    ctx.do(o, c.insert, v)
                ctx.ev("duplicate" if dup else "new")
                if judge:
                    ctx.check(bool(ctx.warned()) is dup,
                              lambda: f"{kind}: inserting {v} into {short(ks)} gave "
                                      f"{ctx.warned()} warnings")
                M.setdefault(v, v)
                if before is not None:
                    ctx.check(c._root.get_data() == v,
                              lambda: f"SplayTree: the root after inserting {v} is "
                                      f"{short(c._root)}")
            elif o == "remove":
                t = ks[at(f, len(ks))] if ks and salt % 5 else v
                there = t in M
                ctx.do(o, c.remove, t)
                ctx.ev("hit" if there else "absent")
                if judge:
                    ctx.check(bool(ctx.warned()) is not there,
                              lambda: f"{kind}: removing {t} from {short(ks)} gave "
                                      f"{ctx.warned()} warnings")
                M.pop(t, None)
                prios.pop(t, None)
                if before is not None:
                    self.splay_removed(ctx, c, before, t, there)
            elif o == "in":
                t = ks[at(f, len(ks))] if ks and salt % 2 else v
                got = ctx.do(o, c.__contains__, t)
                if judge:
                    ctx.equal(f"`{t} in` {kind} {short(ks)}", got, t in M)
                if before is not None:
                    self.splay_access(ctx, c, before, t)
            elif o == "clear":
                ctx.do(o, c.clear)
                M, prios = {}, {}
            else:
                t = ODD[salt % len(ODD)]
                ctx.equal(f"`{short(t)} in` {kind}", ctx.do("in(odd)", c.__contains__, t), False)
                ctx.do("remove(odd)", c.remove, t)
                ctx.ev("odd")
                if judge:
                    ctx.check(ctx.warned(), f"{kind}: removing {short(t)} gave no warning")
            self.look(ctx, kind, c, M, prios, salt % 4 == 0 or o == "remove", salt)

    def look(self, ctx, kind, c, M, prios, deep, salt=0):
        m = self.monitors
        if "set" in m:
            self.contents(ctx, kind, c, M, deep, salt)
            ctx.state(kind, tuple(c)[:8], len(M))
            return
        if "links" in m:
            s = check_search_links(ctx, kind, c)
        elif "avl" in m:
            s = check_avl(ctx, c)
        elif "rb" in m:
            s = check_rb(ctx, c)
        elif "treap" in m:
            s = check_treap(ctx, c, prios)
        else:
            s = Snap(c._root, kind)
            vals = s.inorder()
            ctx.check(all(a < b for a, b in zip(vals, vals[1:])),
                      f"{kind}: left to right the nodes hold {short(vals)}")
        ctx.state(kind, tuple(s.preorder()[:12]), len(s.nodes),
                  tuple(s.depth[id(n)] for n in s.nodes[:12]))

    def contents(self, ctx, kind, c, M, deep, salt):
        want = [M[k] for k in sorted(M)]
        got = ctx.do("inorder", c.inorder_traverse)
        if not (type(got) is list and same_seq(got, want)):
            raise Violation(f"{kind} holds {short(got, 400)}, expected {short(want, 400)}")
        ctx.equal(f"len({kind})", len(c), len(want))
        ctx.equal("is_empty()", c.is_empty(), not want)
        if want:
            lo, hi = c.get_min(), c.get_max()
            ctx.check(same(lo, want[0]), f"{kind}: minimum of {short(want)} given as {lo}")
            ctx.check(same(hi, want[-1]), f"{kind}: maximum of {short(want)} given as {hi}")
        else:
            ctx.rejects("get_min", IndexError, c.get_min)
            ctx.rejects("get_max", IndexError, c.get_max)
        if deep:
            for what, xs in (("iterating", list(c)), ("to_list()", c.to_list())):
                ctx.check(same_seq(sorted(xs), want),
                          lambda: f"{kind}: {what} gives {short(xs)}, expected the "
                                  f"elements {short(want)}")
        if salt % 16 == 1:
            for x in want:
                ctx.check(x in c, f"{kind}: {x} isn't found in {short(want)}")
            for x in (want[:-1] if want else [0]):
                y = x + 0.5 if abs(x) < 1e300 else x + 1
                ctx.check((y in c) is (y in M), f"{kind}: `{y} in` {short(want)}")

    # ------------------------------------------------------------- splaying --
    def splay_access(self, ctx, c, before, t):
        path = before.path_to(t)
        if not path:
            ctx.check(c._root is None, "a search changed an empty splay tree")
            return
        last = before.val[id(path[-1])]
        ctx.ev("splay:hit" if last == t else "splay:miss")
        ctx.check(c._root.get_data() == last,
                  f"SplayTree: searching {t} met {short([before.val[id(n)] for n in path])}, the "
                  f"root afterwards is {short(c._root)}, not {last}")
        ctx.check(c._root.get_parent() is None, "SplayTree: the root has a parent")
        # access lemma: rotations + potential change <= 3 (r(root) - r(x)) + 1
        after = Snap(c._root, "SplayTree")
        s0, s1 = before.sizes(), after.sizes()
        phi0 = sum(map(math.log2, s0.values()))
        phi1 = sum(map(math.log2, s1.values()))
        d = len(path) - 1
        bound = 3 * (math.log2(s0[id(before.root)]) - math.log2(s0[id(path[-1])])) + 1
        if d >= 3:
            ctx.ev("splay:deep")
        ctx.check(d + phi1 - phi0 <= bound + 1e-6,
                  f"SplayTree: accessing {t} at depth {d} of {len(before.nodes)} nodes breaks "
                  f"the amortized bound ({d} + {phi1 - phi0:.2f} > {bound:.2f})")

    def splay_removed(self, ctx, c, before, t, there):
        path = before.path_to(t)
        if not path:
            return
        if not there:
            ctx.check(c._root.get_data() == before.val[id(path[-1])],
                      f"SplayTree: the root after removing the missing {t} is "
                      f"{short(c._root)}, not {before.val[id(path[-1])]}")
            return
        if len(before.nodes) == 1:
            ctx.check(c._root is None, "SplayTree: removing its only value leaves a root")
            return
        near = {before.val[id(n)] for n in path}
        n = path[-1]
        k = before.right[id(n)]
        step = before.left
        if k is None:
            k, step = before.left[id(n)], before.right
        while k is not None:
            near.add(before.val[id(k)])
            k = step[id(k)]
        near.discard(t)
        ctx.ev("splay:removed")
        ctx.check(c._root is not None and c._root.get_data() in near,
                  f"SplayTree: the root after removing {t} is {short(c._root)}, none of the "
                  f"visited {short(sorted(near))}")


def _struct_snapshot(c):
    s = Snap(c._root)
    return [(n.get_data(), s.depth[id(n)], s.side[id(n)], n.get_priority()) for n in s.nodes]


class SeededTreaps(Scenario):
    """Equal seeds and equal histories give equal treaps."""

    required = ("seeded",)
    name = "seeded"

    def gen(self, r):
        _, nxt = num_pool(r, "dense")
        ops = [(r.choice(["insert", "insert", "remove"]), nxt(),
                r.choice([None, None, r.randrange(100)])) for _ in range(r.choice([0, 5, 30]))]
        return {"seed": r.choice([0, 1, 9, 2.5, 2 ** 50, "abc", r.randrange(10 ** 6)]),
                "start": [nxt() for _ in range(r.choice([1, 4, 12, 40]))]}, ops

    def run(self, ctx, cfg, ops):
        def build():
            c = ctx.do("Treap(seed)", Treap, cfg["start"], cfg["seed"])
            for o, v, p in ops:
                if o == "insert":
                    c.insert(v, p)
                else:
                    c.remove(v)
            return _struct_snapshot(c)

        random.seed(1)
        a = build()
        random.seed(2)
        b = build()
        ctx.ev("seeded")
        ctx.check(a == b, f"Treap: seed {short(cfg['seed'])} gave {short(a)} and {short(b)}")
        ctx.state(short(cfg["seed"]), tuple(a))


# ------------------------------------------------------------ binary trees ----
def node_value(r):
    k = r.randrange(12)
    return [lambda: r.randrange(6), lambda: r.randrange(100), lambda: "abc"[r.randrange(3)],
            lambda: r.random(), lambda: True, lambda: "", lambda: 0.0, lambda: Thing(3),
            lambda: Point(r.randrange(3)), lambda: "x" * r.randrange(9),
            lambda: r.randrange(1000), lambda: "a\nb"][k]()


def gen_almost_perfect(r):
    """A perfect tree, but for a few nodes too many or too few at any depth."""
    def make(h):
        return None if h == 0 else [node_value(r), make(h - 1), make(h - 1)]

    h = r.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7])
    top = make(h)
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        what = r.choice(["leaf", "twins", "cut", "cut", "cut side"])
        goal = h if what in ("leaf", "twins") else r.randrange(1, h + 1)
        s = [None, top, None]  # walks towards a node at the depth chosen
        for _ in range(goal):
            down = [k for k in (1, 2) if s[k] is not None]
            if not down:
                break
            s = s[r.choice(down)]
        if s[0] is None:
            break
        side = r.choice([1, 2])
        if what == "cut side":
            s[side] = None
        elif what == "cut":
            s[1] = s[2] = None
        elif s[1] is None and s[2] is None:
            s[side] = [node_value(r), None, None]
            if what == "twins":
                s[3 - side] = [node_value(r), None, None]
    return top


def gen_shape(r, n=None):
    """A random binary tree as nested [value, left, right] (None = missing)."""
    if n is None and r.random() < .2:
        return gen_almost_perfect(r)
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 15, 31, 40]) if n is None else n
    style = r.choice(["random", "random", "chain", "full", "left", "right", "nearly"])

    def make(k, d=0):
        if k == 0:
            return None
        if style == "full" or style == "nearly":
            h = (k).bit_length()
            if style == "full" and k == 2 ** h - 1 or style == "nearly" and k % 2:
                l = k // 2
            else:
                l = min(k - 1, k // 2)
        elif style == "chain":
            l = r.choice([0, k - 1])
        elif style == "left":
            l = k - 1 if d % 7 else (k - 1) * 2 // 3
        elif style == "right":
            l = 0 if d % 7 else (k - 1) // 3
        else:
            l = r.randrange(k)
        v = node_value(r)
        left = make(l, d + 1)
        return [v, left, make(k - 1 - l, d + 1)]

    return make(n)


def strewn(shape, r):
    """With just anything hung here and there."""
    if shape is not None and r.random() < .3:
        todo = [shape]
        while todo:
            s = todo.pop()
            if r.random() < .5:
                s[0] = obj_pool(r, "exotic")[1]()
            todo += s[1] if len(s) == 2 else [k for k in s[1:] if k is not None]
    return shape


def build_shape(shape):
    """Links the real nodes the way a user does."""
    c = BinaryTree()
    if shape is None:
        return c

    def node(s):
        n = BinaryTreeNode(s[0])
        if s[1] is not None:
            n.set_left(node(s[1]))
        if s[2] is not None:
            n.set_right(node(s[2]))
        return n

    c._root = node(shape)
    return c


def flat(shape, out=None):
    out = [] if out is None else out
    if shape is not None:
        out.append(shape[0])
        flat(shape[1], out)
        flat(shape[2], out)
    return out


def expect(shape):
    """Everything the queries have to answer, straight from the shape."""
    pre, ino, post, levels = [], [], [], []
    facts = {"leaves": 0, "strict": True}

    def go(s, d):
        if s is None:
            return -1
        v = stored(s[0])
        if d == len(levels):
            levels.append([])
        levels[d].append(v)
        pre.append(v)
        hl = go(s[1], d + 1)
        ino.append(v)
        hr = go(s[2], d + 1)
        post.append(v)
        if s[1] is None and s[2] is None:
            facts["leaves"] += 1
        elif s[1] is None or s[2] is None:
            facts["strict"] = False
        if d == 0:
            facts["balanced"] = abs(hl - hr) <= 1
        return 1 + max(hl, hr)

    h = go(shape, 0)
    facts.update(pre=pre, ino=ino, post=post, levels=levels, height=max(h, 0),
                 bfs=[v for l in levels for v in l],
                 perfect=all(len(l) == 2 ** d for d, l in enumerate(levels)))
    if shape is None:
        facts["balanced"] = True
    return facts


def check_shape_queries(ctx, who, c, e, n, views=True, methods=True):
    q = ctx.do
    n_nodes = len(e["pre"])
    ctx.equal(f"len of {who}", q("len", len, c), n_nodes)
    ctx.equal(f"is_empty of {who}", c.is_empty(), n_nodes == 0)
    for name, want in (("preorder_traverse", e["pre"]), ("depth_first_traverse", e["pre"]),
                       ("inorder_traverse", e["ino"]), ("postorder_traverse", e["post"]),
                       ("breadth_first_traverse", e["bfs"]), ("to_list", e["bfs"])):
        ctx.equal_seq(f"{name}() of {who}", q(name, getattr(c, name)), want)
    it = q("iter", list, c)
    ctx.equal_seq(f"iterating {who}", it, e["bfs"])
    if methods:
        for name, want in (("inorder", e["ino"]), ("PreOrder", e["pre"]),
                           ("POSTORDER", e["post"]), ("depth-first", e["pre"]),
                           ("Breadth-First", e["bfs"])):
            ctx.equal_seq(f"traverse({name!r}) of {who}", q("traverse", c.traverse, name), want)
        ctx.equal_seq(f"traverse() of {who}", c.traverse(), e["ino"])
    lv = q("get_nodes_per_level", c.get_nodes_per_level)
    ctx.check(len(lv) == len(e["levels"]) and all(map(same_seq, lv, e["levels"])),
              f"levels of {who}: got {short(lv)}, expected {short(e['levels'])}")
    ctx.equal(f"get_height() of {who}", q("get_height", c.get_height), e["height"])
    ctx.equal(f"get_depth() of {who}", q("get_depth", c.get_depth), 0)
    ctx.equal(f"count_leaf_nodes() of {who}", q("count_leaf_nodes", c.count_leaf_nodes),
              e["leaves"])
    for name, want in (("is_balanced", e["balanced"]), ("is_perfect", e["perfect"]),
                       ("is_strict", e["strict"])):
        ctx.equal(f"{name}() of {who} {short(e['levels'])}", q(name, getattr(c, name)), want)
        ctx.check(bool(ctx.warned()) is (n_nodes == 0),
                  f"{name}() of {who} with {n_nodes} nodes gave {ctx.warned()} warnings")
        ctx.ev(f"{name}={want}")
    if views:
        ctx.equal_seq(f"left side view of {who}", q("get_leftside_view", c.get_leftside_view),
                      [l[0] for l in e["levels"]])
        ctx.equal_seq(f"right side view of {who}",
                      q("get_rightside_view", c.get_rightside_view),
                      [l[-1] for l in e["levels"]])


SHAPE_EVENTS = tuple(f"{q}={a}" for q in ("is_balanced", "is_perfect", "is_strict")
                     for a in (True, False))


class ShapeQueries(Scenario):
    """Every traversal and shape query of hand-linked binary trees."""

    required = SHAPE_EVENTS + ("in", "traverse_bad")
    name = "shapes"

    def gen(self, r):
        shape = strewn(gen_shape(r), r)
        ops = [(r.choice(["queries", "in", "bad", "invert", "clear"] if r.random() < .1 else
                         ["queries", "in", "invert", "bad"]), frac(r), node_value(r),
                r.randrange(64)) for _ in range(r.choice([3, 6]))]
        return {"shape": shape}, ops

    def run(self, ctx, cfg, ops):
        shape = cfg["shape"]
        c = build_shape(shape)
        e = expect(shape)
        check_shape_queries(ctx, "BinaryTree", c, e, 0)
        ctx.state(repr(e["levels"])[:200])
        for o, f, v, salt in ops:
            if o == "queries":
                check_shape_queries(ctx, "BinaryTree", c, e, salt)
            elif o == "in":
                vals = e["pre"]
                t = vals[at(f, len(vals))] if vals and salt % 2 else v
                if type(t) is str and "\n" in t:
                    continue
                got = ctx.do("in", c.__contains__, t)
                ctx.equal(f"`{short(t)} in` {short(vals)}", got, any(x == t for x in vals))
            elif o == "bad":
                ctx.ev("traverse_bad")
                ctx.rejects("traverse(not a str)", TypeError, c.traverse,
                            [1, None, [], 2.5, b"inorder"][salt % 5])
                ctx.rejects("traverse(unknown)", ValueError, c.traverse,
                            ["", "in-order", "levels", "depth first"][salt % 4])
            elif o == "invert":
                ctx.do("invert", c.invert)
                shape = mirror(shape)
                e = expect(shape)
                check_shape_queries(ctx, "BinaryTree", c, e, salt)
            else:
                ctx.do("clear", c.clear)
                shape = None
                e = expect(None)
                check_shape_queries(ctx, "BinaryTree", c, e, salt)


def mirror(s):
    return None if s is None else [s[0], mirror(s[2]), mirror(s[1])]


class SearchShapes(Scenario):
    """The same queries on search trees, against a walk over the real nodes."""

    name = "search_shapes"

    def __init__(self):
        self.required = tuple("queries:" + k for k in SEARCH)

    def gen(self, r):
        kind = r.choice(list(SEARCH))
        _, nxt = num_pool(r)
        ops = [(r.choice(["insert", "insert", "remove", "in"]), nxt(), frac(r))
               for _ in range(r.choice([2, 6, 12, 25]))]
        return {"kind": kind, "start": [nxt() for _ in range(r.choice([0, 2, 6, 15]))]}, ops

    def run(self, ctx, cfg, ops):
        kind = cfg["kind"]
        c = ctx.do(f"{kind}(iterable)", SEARCH[kind], cfg["start"])
        for k in range(len(ops) + 1):
            if k:
                o, v, f = ops[k - 1]
                if o != "insert":
                    vals = c.to_list()
                    v = vals[at(f, len(vals))] if vals else v
                ctx.do(o, {"insert": c.insert, "remove": c.remove,
                           "in": c.__contains__}[o], v)
            s = Snap(c._root, kind)

            def rec(n):
                return None if n is None else [n.get_data(), rec(s.left[id(n)]),
                                               rec(s.right[id(n)])]

            e = expect(rec(s.root))
            check_shape_queries(ctx, kind, c, e, k, methods=k % 3 == 0)
            ctx.ev("queries:" + kind)
            ctx.state(kind, repr(e["levels"])[:120])


def spell(r, shape):
    """The nested description of a shape (one without a left child only can't be)."""
    if shape is None:
        return None
    v, kids = shape[0], [spell(r, s) for s in shape[1:] if s is not None]
    if not kids and r.random() < .5 and type(v) not in (list, tuple):
        return v
    return r.choice([list, tuple])([v] + kids)


class ParseTrees(Scenario):
    """BinaryTree.parse gives exactly the described tree; invert mirrors it."""

    required = ("parse", "parse_bad", "invert")
    name = "parse"

    def gen(self, r):
        bad = r.random() < 0.3
        hole = [r.choice(["empty", "long", "none", "pair", "inner", "value"])] if bad else None
        left = [r.choice([0, 1, 2, 4, 9, 16])]
        spot = r.randrange(6)
        shared = r.random() < 0.3
        made = []

        def make(d):
            if shared and made and d and r.random() < 0.4:
                return r.choice(made)  # one description object used in several places
            made.append(fresh(d))
            return made[-1]

        def seq(xs):
            return r.choice([list, tuple])(xs)

        def fresh(d):
            if hole and hole[0] and d == min(spot, 3):
                kind, hole[0] = hole[0], None
                return {"empty": lambda: seq([]),
                        "long": lambda: seq(range(1, r.choice([5, 6, 9]))),
                        "pair": lambda: seq([1, seq([]), seq([])]),
                        "inner": lambda: seq([1] + r.choice([[seq([])], [2, seq([])],
                                                             [seq([]), 2], [seq([5, seq([])]), 2]])),
                        "value": lambda: seq([None] + [2] * r.randrange(3)),
                        "none": lambda: None}[kind]()
            left[0] -= 1
            v = node_value(r)
            if r.random() < 0.08:
                v = r.choice([[], (), [1, 2], ([3],), [[]], {1: 2}, {4}])
                if r.random() < 0.5:
                    return seq([v])
            elif r.random() < 0.02:
                return seq([v])
            k = r.choice([1, 2, 3, 3]) if left[0] > 0 and d < 7 else 1
            if k == 1 and not d == 0:
                return v if r.random() < 0.6 and type(v) not in (list, tuple) else seq([v])
            return seq([v] + [make(d + 1) for _ in range(k - 1)])

        spec = make(0)
        if not hole and r.random() < .15:  # large ones, long ones
            spec = spell(r, gen_shape(r, r.choice([None, None, 60, 120, 200])))
        if spec is None or not isinstance(spec, (list, tuple)):
            spec = [spec]
        return {"spec": spec}, [r.randrange(64) for _ in range(4)]

    @staticmethod
    def meaning(spec):
        """(shape, is the description valid)"""
        if type(spec) not in (list, tuple):
            return ([spec, None, None], True) if spec is not None else (None, False)
        if not 1 <= len(spec) <= 3 or spec[0] is None:
            return None, False
        ok, kids = True, [None, None]
        for i, s in enumerate(spec[1:]):
            kids[i], good = ParseTrees.meaning(s)
            ok = ok and good
        return [spec[0]] + kids, ok

    def run(self, ctx, cfg, ops):
        spec = cfg["spec"]
        shape, ok = self.meaning(spec)
        text = repr(spec)
        if not ok:
            ctx.ev("parse_bad")
            ctx.rejects("parse", ValueError, BinaryTree.parse, spec)
            ctx.equal("the description after parsing", repr(spec), text)
            return
        ctx.ev("parse")
        c = ctx.do("parse", BinaryTree.parse, spec)
        ctx.check(type(c) is BinaryTree, f"parse gave a {type(c).__name__}")
        ctx.equal("the description after parsing", repr(spec), text)
        self.agree(ctx, f"tree parsed from {short(spec)}", c, shape)
        other = BinaryTree.parse(spec)
        for salt in ops:
            ctx.rejects("parse", TypeError, BinaryTree.parse,
                        [5, "abc", {1: 2}, {3}, None, 2.5, iter([1])][salt % 7])
            ctx.ev("invert")
            ctx.do("invert", c.invert)
            shape = mirror(shape)
            self.agree(ctx, f"inverted tree of {short(spec)}", c, shape)
        self.agree(ctx, "another tree of the same description", other, self.meaning(spec)[0])
        ctx.state(text[:200])

    @staticmethod
    def agree(ctx, who, c, shape):
        s = Snap(c._root, who)
        got = [(n.get_data(), s.depth[id(n)], s.side[id(n)]) for n in s.nodes]
        want = []

        def go(sh, d, side):
            if sh is not None:
                want.append((stored(sh[0]), d, side))
                go(sh[1], d + 1, "L")
                go(sh[2], d + 1, "R")

        go(shape, 0, "")
        ctx.check(len(got) == len(want) and all(
            same(a[0], b[0]) and a[1:] == b[1:] for a, b in zip(got, want)),
            f"{who} has nodes {short(got)}, expected {short(want)}")
        e = expect(shape)
        ctx.equal_seq(f"left view of {who}", c.get_leftside_view(), [l[0] for l in e["levels"]])
        ctx.equal_seq(f"right view of {who}", c.get_rightside_view(),
                      [l[-1] for l in e["levels"]])
        ctx.equal_seq(f"iteration of {who}", list(c), e["bfs"])


# ------------------------------------------------------------- general trees --
def gen_general(r):
    """A random general tree as nested [value, [children]]."""
    left = [r.choice([1, 2, 4, 8, 16, 30])]
    wide = r.choice([1, 2, 3, 6])
    more = .75
    if r.random() < .03:
        left, wide, more = [r.choice([70, 140, 280])], r.choice([2, 3, 9, 70, 140]), .97

    def make(d):
        left[0] -= 1
        v = node_value(r)
        kids = []
        while left[0] > 0 and len(kids) < wide and d < 12 and r.random() < more:
            kids.append(make(d + 1))
        return [v, kids]

    return make(0)


class GeneralTrees(Scenario):
    """Hand-linked general trees: every query against the description."""

    required = ("general", "in", "clear", "set_children")
    name = "general"

    def gen(self, r):
        return {"shape": strewn(gen_general(r), r) if r.random() < .97 else None}, \
            [(frac(r), node_value(r), r.randrange(64)) for _ in range(4)]

    def run(self, ctx, cfg, ops):
        c = ctx.do("Tree()", Tree)
        shape = cfg["shape"]

        def node(s, d):
            n = TreeNode(s[0])
            kids = [node(k, d + 1) for k in s[1]]
            if d % 2:
                ctx.do("set_children", n.set_children, kids)
                kids.append(None)  # the node mustn't share the caller's list
            else:
                for k in kids:
                    ctx.do("set_child", n.set_child, k)
            return n

        if shape is not None:
            c._root = node(shape, 0)
        self.agree(ctx, "Tree", c, shape)
        vals = [v for l in self.levels(shape) for v in l]
        for f, v, salt in ops:
            t = vals[at(f, len(vals))] if vals and salt % 2 else v
            if type(t) is str and "\n" in t:
                continue
            got = ctx.do("in", c.__contains__, t)
            ctx.equal(f"`{short(t)} in` {short(vals)}", got, any(x == t for x in vals))
        self.agree(ctx, "Tree", c, shape)
        n = TreeNode(1)
        n.set_child(TreeNode(2))
        ctx.rejects("set_child", TypeError, n.set_child, 5)
        ctx.rejects("set_children", TypeError, n.set_children, [TreeNode(3), "x"])
        ctx.rejects("set_children", TypeError, n.set_children, 7)
        ctx.equal("children after rejected changes", [k.get_data() for k in n.get_children()],
                  [2])
        ctx.do("clear", c.clear)
        self.agree(ctx, "cleared Tree", c, None)
        ctx.state(repr(self.levels(shape))[:200])

    @staticmethod
    def levels(shape):
        out, cur = [], [shape] if shape is not None else []
        while cur:
            out.append([stored(s[0]) for s in cur])
            cur = [k for s in cur for k in s[1]]
        return out

    @classmethod
    def agree(cls, ctx, who, c, shape):
        ctx.ev("general")
        levels = cls.levels(shape)
        bfs = [v for l in levels for v in l]
        leaves = [0]

        def go(s):
            if not s[1]:
                leaves[0] += 1
            for k in s[1]:
                go(k)

        if shape is not None:
            go(shape)
        ctx.equal(f"len of {who}", ctx.do("len", len, c), len(bfs))
        ctx.equal(f"is_empty of {who}", c.is_empty(), shape is None)
        ctx.equal_seq(f"iterating {who}", ctx.do("iter", list, c), bfs)
        ctx.equal_seq(f"to_list() of {who}", ctx.do("to_list", c.to_list), bfs)
        got = ctx.do("get_nodes_per_level", c.get_nodes_per_level)
        ctx.check(len(got) == len(levels) and all(map(same_seq, got, levels)),
                  f"levels of {who}: {short(got)}, expected {short(levels)}")
        ctx.equal(f"get_height() of {who}", ctx.do("get_height", c.get_height),
                  max(len(levels) - 1, 0))
        ctx.equal(f"get_depth() of {who}", ctx.do("get_depth", c.get_depth), 0)
        ctx.equal(f"count_leaf_nodes() of {who}",
                  ctx.do("count_leaf_nodes", c.count_leaf_nodes), leaves[0])


class PathTrees(Scenario):
    """Tree.from_path over scratch directories mirrors what is there."""

    required = ("from_path", "empty_folder", "from_path_file", "bad_path", "link")
    name = "from_path"
    NAMES = ["a", "b", "B", "10", "9", ".hidden", "é", "with space", "x.txt", "z", "_", "A",
             "c.d.e", "0", "~"]

    def gen(self, r):
        ops = []
        for _ in range(r.choice([0, 1, 3, 7, 14])):
            depth = r.choice([1, 1, 1, 2, 2, 3, 4])
            ops.append((r.choice(["dir", "file", "file", "dir", "file", "file", "link:folder",
                                  "link:file", "link:nowhere"]),
                        [r.choice(self.NAMES) for _ in range(depth)]))
        return {"root": r.choice(["root", "r s", ".r", "R"]), "how": r.randrange(4)}, ops

    def run(self, ctx, cfg, ops):
        base = tempfile.mkdtemp(prefix="verif-tree-")
        cwd = os.getcwd()
        try:
            top = os.path.join(base, cfg["root"])
            os.mkdir(top)
            model = {}
            for kind, parts in ops:
                cur, ok = model, True
                for p in parts[:-1]:
                    nxt = cur.setdefault(p, {})
                    if type(nxt) is not dict:
                        ok = False
                        break
                    cur = nxt
                if ok and parts[-1] not in cur:
                    cur[parts[-1]] = {} if kind == "dir" else None if kind == "file" else \
                        Linked(inner={"deep": None}, file=None) if kind == "link:folder" else kind

            # what links lead to lies beside the tree, so none leads in a circle
            folder = os.path.join(base, "folder")
            os.makedirs(os.path.join(folder, "inner"))
            for name in ("inner/deep", "file"):
                open(os.path.join(folder, name), "w").close()

            def make(path, m):
                for name, sub in list(m.items()):
                    p = os.path.join(path, name)
                    if type(sub) is Linked or type(sub) is str:
                        ctx.ev("link")
                        os.symlink(folder if type(sub) is Linked else os.path.join(
                            folder, "file" if sub == "link:file" else "nowhere"), p)
                        if type(sub) is str:
                            m[name] = None
                    elif sub is None:
                        open(p, "w").close()
                    else:
                        os.mkdir(p)
                        make(p, sub)

            make(top, model)

            def shape(name, m):
                kids = [shape(k, m[k]) for k in sorted(m)] if m is not None else []
                return [name, kids]

            want = shape(cfg["root"], model)
            path = top
            if cfg["how"] == 1:
                path = top + os.sep
            elif cfg["how"] == 2:
                os.chdir(base)
                path = cfg["root"]
            elif cfg["how"] == 3:
                os.chdir(top)
                path = "."
            ctx.ev("from_path")
            if any(v == {} for v in _walk(model)):
                ctx.ev("empty_folder")
            c = ctx.do("from_path", Tree.from_path, path)
            ctx.check(type(c) is Tree, f"from_path gave a {type(c).__name__}")
            GeneralTrees.agree(ctx, f"Tree of {short(model)}", c, want)
            for name, sub in model.items():
                if sub is None and os.path.exists(os.path.join(top, name)):
                    ctx.ev("from_path_file")
                    c = ctx.do("from_path", Tree.from_path, os.path.join(top, name))
                    GeneralTrees.agree(ctx, "Tree of a file", c, [name, []])
                    break
            ctx.ev("bad_path")
            ctx.rejects("from_path(missing)", ValueError, Tree.from_path,
                        os.path.join(top, "no such entry"))
            ctx.rejects("from_path(not a str)", TypeError, Tree.from_path,
                        [5, None, ["/"], b"/"][cfg["how"]])
            ctx.equal("the folders afterwards", _listing(top), _listing_of(model))
            ctx.state(repr(want)[:300])
        finally:
            os.chdir(cwd)
            shutil.rmtree(base, ignore_errors=True)


class Linked(dict):
    """A link to a folder: shown with what is in there."""


def _walk(m):
    for v in m.values():
        yield v
        if v:
            yield from _walk(v)


def _listing(path):
    return {n: _listing(os.path.join(path, n)) if os.path.isdir(os.path.join(path, n))
            else None for n in sorted(os.listdir(path))}


def _listing_of(m):
    return {n: None if m[n] is None else _listing_of(m[n]) for n in sorted(m)}


# -------------------------------------------------------------------- heaps ---
def check_heap_order(ctx, kind, c):
    xs = c.to_list()
    ctx.ev("heap_nodes", len(xs))
    for i in range(1, len(xs)):
        p = (i - 1) // 2
        ok = xs[p] <= xs[i] if kind == "MinHeap" else xs[p] >= xs[i]
        ctx.check(ok, lambda: f"{kind}: {xs[p]} is above {xs[i]} in {short(xs)}")
    it = list(c)
    ctx.check(same_seq(it, xs), f"{kind}: iterating gives {short(it)}, to_list() {short(xs)}")
    return xs


class HeapHistory(Scenario):
    def __init__(self, name, monitors=("set",), big=False):
        self.name = name
        self.monitors = monitors
        self.big = big
        self.required = ("hit", "absent", "remove_min", "remove_max", "insert", "underflow",
                         "heapify") if "set" in monitors else ("heap_nodes", "hit", "heapify")

    def gen(self, r):
        kind = r.choice(list(HEAPS))
        _, nxt = num_pool(r)
        w = r.choice([(6, 3, 2, 2, 2, 0, 1), (8, 1, 1, 1, 1, 0, 1), (4, 6, 2, 2, 1, 0, 1),
                      (5, 2, 4, 4, 1, 1, 1), (4, 1, 6, 1, 1, 0, 0), (4, 1, 1, 6, 1, 0, 0)])
        n = r.choice([8, 20, 50, 120])
        ops = [(o, nxt(), frac(r), r.randrange(1 << 20)) for o in
               r.choices(["insert", "remove", "remove_min", "remove_max", "in", "clear",
                          "odd"], w, k=n)]
        start = [nxt() for _ in range(r.choice([0, 0, 1, 3, 7, 12, 31, 80]))]
        if self.big:
            ops, n = ops[:40], r.choice([300, 700, 1500])
            start = [r.randrange(4 * n) for _ in range(n)]
        if r.random() < 0.2:
            start = sorted(start, reverse=r.random() < 0.5)
        return {"kind": kind, "start": start}, ops

    def run(self, ctx, cfg, ops):
        kind = cfg["kind"]
        cls = HEAPS[kind]
        judge = "set" in self.monitors
        if cfg["start"]:
            c = ctx.do("heapify", cls.heapify, cfg["start"])
            ctx.check(type(c) is cls, f"heapify gave a {type(c).__name__}")
        else:
            c = ctx.do(f"{kind}()", cls)
        M = sorted(cfg["start"])
        self.look(ctx, kind, c, M, judge)
        for o, v, f, salt in ops:
            if not judge:
                M = sorted(c.to_list())
            if o == "insert":
                ctx.do(o, c.insert, v)
                M.append(v)
            elif o == "remove":
                t = M[at(f, len(M))] if M and salt % 5 else v
                there = t in M
                ctx.do(o, c.remove, t)
                ctx.ev("hit" if there else "absent")
                if judge:
                    ctx.check(bool(ctx.warned()) is not there,
                              f"{kind}: removing {t} from {short(M)} gave {ctx.warned()} "
                              f"warnings")
                if there:
                    M.remove(t)
            elif o in ("remove_min", "remove_max"):
                ctx.do(o, getattr(c, o))
                if judge:
                    ctx.check(bool(ctx.warned()) is (not M),
                              f"{kind}: {o} on {short(M)} gave {ctx.warned()} warnings")
                if M:
                    M.remove(min(M) if o == "remove_min" else max(M))
                else:
                    ctx.ev("underflow")
            elif o == "in":
                t = M[at(f, len(M))] if M and salt % 2 else v
                got = ctx.do(o, c.__contains__, t)
                if judge:
                    ctx.equal(f"`{t} in` {kind} {short(M)}", got, t in M)
            elif o == "clear":
                ctx.do(o, c.clear)
                M = []
            else:
                t = ODD[salt % len(ODD)]
                ctx.equal(f"`{short(t)} in` {kind}", ctx.do("in(odd)", c.__contains__, t), False)
                ctx.do("remove(odd)", c.remove, t)
                if judge:
                    ctx.check(ctx.warned(), f"{kind}: removing {short(t)} gave no warning")
            M.sort()
            self.look(ctx, kind, c, M, judge)
        if judge:
            low = len(ops) % 2 == 0
            M.sort()
            while M:
                want = M.pop(0 if low else -1)
                got = c.get_min() if low else c.get_max()
                ctx.equal(f"{kind}: draining, next", got == want, True)
                ctx.do("drain", c.remove_min if low else c.remove_max)
            ctx.equal("is_empty() after draining", c.is_empty(), True)

    @staticmethod
    def look(ctx, kind, c, M, judge):
        if judge:
            for what, xs in (("to_list()", c.to_list()), ("iterating", list(c))):
                ctx.check(sorted(xs) == M,
                          f"{kind}: {what} gives {short(xs)}, expected the elements {short(M)}")
            ctx.equal(f"len({kind})", len(c), len(M))
            ctx.equal("is_empty()", c.is_empty(), not M)
            if M:
                lo, hi = c.get_min(), c.get_max()
                ctx.check(lo == M[0], f"{kind}: minimum of {short(M)} given as {lo}")
                ctx.check(hi == M[-1], f"{kind}: maximum of {short(M)} given as {hi}")
            else:
                ctx.rejects("get_min", IndexError, c.get_min)
                ctx.rejects("get_max", IndexError, c.get_max)
            ctx.state(kind, len(M), tuple(M[:3]), tuple(M[-3:]))
        else:
            xs = check_heap_order(ctx, kind, c)
            ctx.check(len(xs) == len(c), f"{kind}: len() says {len(c)}, it holds {short(xs)}")
            if xs:
                top = c.get_min() if kind == "MinHeap" else c.get_max()
                ctx.check(same(top, xs[0]), f"{kind}: the top is {top}, first {xs[0]}")
            if len(xs) < 40 and len(set(map(str, xs))) == len(xs):
                from .drawings import same_tree

                ts = [str(x) for x in xs]

                def full(i):
                    return [ts[i], full(2 * i + 1), full(2 * i + 2)] if i < len(ts) else None

                same_tree(ctx, f"{kind} of {short(xs)}", ctx.do("repr", repr, c), full(0))
            ctx.state(kind, tuple(xs[:12]))
