"""Monitor of the public node objects: whatever is linked, unlinked, recolored
or swapped, each node says exactly what it was told, and refuses the rest."""
from . import runtime  # noqa: F401
from .engine import Scenario
from .kinds import any_extra
from .runtime import same, short
from .values import at, frac, num_pool, obj_pool, stored

from extra.lists.linked_list import LinkedList, Node
from extra.lists.doubly_linked_list import DoublyNode
from extra.lists.priority_queue import PriorityNode
from extra.lists.skip_list import SkipNode
from extra.lists.stack import Stack
from extra.trees.tree import TreeNode
from extra.trees.binary_tree import BinaryTreeNode
from extra.trees.bst import BSTNode
from extra.trees.avl import AVLNode
from extra.trees.red_black_tree import Color, RedBlackNode
from extra.trees.treap import TreapNode
from extra.trees._heap import HeapNode
from extra.trees.trie import TrieNode

CLASSES = {c.__name__: c for c in (
    Node, DoublyNode, PriorityNode, SkipNode, TreeNode, BinaryTreeNode, HeapNode, BSTNode,
    AVLNode, RedBlackNode, TreapNode, TrieNode)}
CHAIN = ("Node", "DoublyNode", "PriorityNode", "SkipNode")
SEARCH_NODES = ("BSTNode", "AVLNode", "RedBlackNode", "TreapNode")
NUMERIC = ("SkipNode", "HeapNode") + SEARCH_NODES
T, V = TypeError, ValueError


class Nodes(Scenario):
    name = "nodes"
    required = tuple("node:" + k for k in CLASSES) + ("refused", "linked", "unlinked", "swapped", "children_shared",
                                                      "renamed")

    def gen(self, r):
        k = r.choice(list(CLASSES))
        if k in NUMERIC:
            nxt = num_pool(r, r.choice(["dense", "wide", "float", "mix"]))[1]
        elif k == "TrieNode":
            nxt = lambda: r.choice(["a", "b", "ab", "}", "é", "\n", " "])
        else:
            nxt = obj_pool(r)[1]
        ops = [(r.randrange(100), frac(r), frac(r), nxt(), r.randrange(1 << 20))
               for _ in range(r.choice([5, 15, 40]))]
        return {"kind": k, "vals": [nxt() for _ in range(r.choice([1, 2, 3, 6]))],
                "prios": [r.choice([0, 5, -3, 2.5, 101, None]) for _ in range(6)]}, ops

    def run(self, ctx, cfg, ops):
        k = cfg["kind"]
        cls = CLASSES[k]
        text = stored if k != "TrieNode" else lambda v: v
        S = []  # [node, {attribute: value}]
        for i, v in enumerate(cfg["vals"]):
            m = {"data": text(v)}
            if k in ("PriorityNode", "TreapNode"):
                p = cfg["prios"][i]
                n = ctx.do("node", cls, v, p) if p is not None else ctx.do("node", cls, v)
                m["priority"] = n.get_priority() if p is None else p
                ctx.check(p is not None or type(m["priority"]) is int
                          and 0 <= m["priority"] <= 100, f"random priority {m['priority']}")
            elif k == "RedBlackNode" and i % 2:
                n = ctx.do("node", cls, v, Color.BLACK)
                m["color"] = Color.BLACK
            else:
                n = ctx.do("node", cls, v)
            if k in CHAIN:
                m["next"] = None
                if k in ("DoublyNode", "PriorityNode"):
                    m["prev"] = None
                if k == "SkipNode":
                    m["down"] = None
            elif k == "TreeNode":
                m["children"] = []
            elif k == "TrieNode":
                m["kids"], m["parent"] = {}, None
            else:
                m["left"] = m["right"] = None
                if k in SEARCH_NODES:
                    m["parent"] = None
                if k == "AVLNode":
                    m["height"] = 0
                if k == "RedBlackNode":
                    m.setdefault("color", Color.RED)
            S.append((n, m))
        index = {id(n): i for i, (n, _) in enumerate(S)}
        self.look(ctx, k, S, index)
        for o, f, g, v, salt in ops:
            i, j = at(f, len(S)), at(g, len(S))
            (a, m), (b, w) = S[i], S[j]
            if o < 25:
                self.refuse(ctx, k, cls, a, salt)
            elif k in CHAIN:
                if o < 40:
                    ctx.ev("renamed")
                    ctx.do("set_data", a.set_data, v)
                    m["data"] = text(v)
                elif o < 55:
                    ctx.ev("unlinked")
                    ctx.do("set_next(None)", a.set_next, None)
                    m["next"] = None
                    if "prev" in m and salt & 1:
                        ctx.do("set_prev(None)", b.set_prev, None)
                        w["prev"] = None
                elif "prev" in m and o < 75:
                    ctx.ev("linked")
                    ctx.do("set_prev", a.set_prev, b)
                    m["prev"] = j
                    w["next"] = i
                elif "down" in m and o < 75:
                    ctx.do("set_down", a.set_down, b)
                    m["down"] = j
                elif "priority" in m and o < 82:
                    p = [3, -2, 0.5, 0, float("inf")][salt % 5]
                    ctx.do("set_priority", a.set_priority, p)
                    m["priority"] = p
                else:
                    ctx.ev("linked")
                    ctx.do("set_next", a.set_next, b)
                    m["next"] = j
                    if "prev" in w:
                        w["prev"] = i
            elif k == "TreeNode":
                if o < 60:
                    ctx.ev("linked")
                    ctx.do("set_child", a.set_child, b)
                    m["children"].append(j)
                elif o < 65:  # one node's own children, given to it or to another one
                    ctx.ev("children_shared")
                    ctx.do("set_children", b.set_children, a.get_children())
                    w["children"] = list(m["children"])
                elif o < 80:
                    kids = [(j + x) % len(S) for x in range(salt % 4)]
                    ctx.do("set_children", a.set_children, [S[x][0] for x in kids] if salt & 8
                           else (S[x][0] for x in kids))
                    m["children"] = kids
                else:
                    self.swap(ctx, cls, a, m, b, w)
            elif k == "TrieNode":
                ctx.ev("linked")
                ctx.do("set_child", a.set_child, v, b)
                m["kids"][v] = j
                w["parent"] = i
            else:
                if o < 65:
                    side = ("left", "right")[salt & 1]
                    if k in SEARCH_NODES and salt % 5 == 0:
                        ctx.ev("unlinked")
                        ctx.do(f"set_{side}(None)", getattr(a, "set_" + side), None)
                        m[side] = None
                    else:
                        ctx.ev("linked")
                        ctx.do("set_" + side, getattr(a, "set_" + side), b)
                        m[side] = j
                        if "parent" in w:
                            w["parent"] = i
                    if "height" in m:
                        m["height"] = max([0] + [1 + S[m[s]][1]["height"]
                                                 for s in ("left", "right")
                                                 if m[s] is not None])
                elif o < 75 and "parent" in m:
                    ctx.do("set_parent", a.set_parent, b if salt & 1 else None)
                    m["parent"] = j if salt & 1 else None
                elif o < 88 and "color" in m:
                    m["color"] = [Color.RED, Color.BLACK][salt & 1]
                    ctx.do("set_color", a.set_color, m["color"])
                elif o < 88 and "height" in m:
                    m["height"] = salt % 9
                    ctx.do("set_height", a.set_height, m["height"])
                elif o < 88 and "priority" in m:
                    m["priority"] = [3, -2, 0.5, 0][salt % 4]
                    ctx.do("set_priority", a.set_priority, m["priority"])
                else:
                    self.swap(ctx, cls, a, m, b, w)
            self.look(ctx, k, S, index)

    @staticmethod
    def swap(ctx, cls, a, m, b, w):
        ctx.ev("swapped")
        ctx.do("swap", cls.swap, a, b)
        for x in ("data", "color"):
            if x in m:
                m[x], w[x] = w[x], m[x]

    @staticmethod
    def refuse(ctx, k, cls, a, salt):
        ctx.ev("refused")
        odd = [5, "x", [], object(), Stack(), LinkedList([1])]
        x = odd[salt % len(odd)]
        other = Node(1) if k not in CHAIN else TreeNode(1)
        todo = []
        if k in NUMERIC:
            todo += [(T, lambda: cls("5")), (T, lambda: cls(True)), (T, lambda: cls([1])),
                     ((T, V), lambda: cls(None))]
        elif k == "TrieNode":
            todo += [(T, lambda: cls(5)), (T, lambda: cls(None)), (T, lambda: cls(["a"]))]
        else:
            todo += [(V, lambda: cls(None)), (T, lambda: cls(any_extra(salt))), (T, lambda: cls(a))]
        if k in CHAIN:
            todo += [(T, lambda: a.set_next(x)), (T, lambda: a.set_next(other)),
                     (V, lambda: a.set_data(None)), (T, lambda: a.set_data(any_extra(salt)))]
            if k in ("DoublyNode", "PriorityNode"):
                todo += [(T, lambda: a.set_prev(x)), (T, lambda: a.set_prev(Node(1))),
                         (T, lambda: a.set_next(Node(1)))]
            if k == "SkipNode":
                todo += [(T, lambda: a.set_down(None)), (T, lambda: a.set_down(Node(1)))]
        elif k == "TreeNode":
            todo += [(T, lambda: a.set_child(x)), (T, lambda: a.set_children([a, x])),
                     (T, lambda: a.set_children(5)), (T, lambda: a.set_child(None)),
                     (T, lambda: a.set_children(iter([a, a, other]))),
                     (T, lambda: cls.swap(a, x)), (T, lambda: cls.swap(x, a))]
        elif k == "TrieNode":
            todo += [(T, lambda: a.set_child("a", x)), (T, lambda: a.set_child(5, a)),
                     (T, lambda: a.set_child("a", TreeNode(1)))]
        else:
            todo += [(T, lambda: a.set_left(x)), (T, lambda: a.set_right(x)),
                     (T, lambda: a.set_left(TreeNode(1))), (T, lambda: a.set_right(TreeNode(1))),
                     (T, lambda: cls.swap(a, x)),
                     (NotImplementedError, lambda: a.set_children([a]))]
            if k in SEARCH_NODES:
                todo += [(T, lambda: a.set_parent(x)), (T, lambda: a.set_left(BinaryTreeNode(1))),
                         (T, lambda: a.set_right(BinaryTreeNode(1)))]
            else:
                todo += [(T, lambda: a.set_left(None)), (T, lambda: a.set_right(None))]
            if k == "RedBlackNode":
                todo += [(V, lambda: a.set_color("RED")), (V, lambda: a.set_color(None)),
                         (V, lambda: cls(1, "BLACK")), (V, lambda: a.set_color(1))]
            if k == "AVLNode":
                todo += [(T, lambda: a.set_height("1")), (V, lambda: a.set_height(-1)),
                         (T, lambda: a.set_height(1.0)), (T, lambda: a.set_height(True)),
                         (T, lambda: a.set_height(None)), (T, lambda: a.set_height(float("nan")))]
        if k in ("PriorityNode", "TreapNode"):
            todo += [(T, lambda: a.set_priority("1")), (T, lambda: a.set_priority(None)),
                     (T, lambda: a.set_priority(True)), (T, lambda: cls(1, "1"))]
        exc, call = todo[salt // 8 % len(todo)]
        ctx.rejects(f"{k} (bad call {salt // 8 % len(todo)})", exc, call)

    @staticmethod
    def look(ctx, k, S, index):
        ctx.ev("node:" + k)

        def is_(what, got, want):
            """`want` is an index into S or None."""
            target = None if want is None else S[want][0]
            ctx.check(got is target, lambda: f"{k} {short(n)}: {what} is {short(got)}, it was "
                                             f"set to {short(target)}")

        for n, m in S:
            d = n.get_data()
            ctx.check(same(d, m["data"]), lambda: f"{k}: holds {short(d)}, it was given "
                                                  f"{short(m['data'])}")
            for x in ("next", "prev", "down", "left", "right", "parent"):
                if x in m:
                    is_(x, getattr(n, "get_" + x)(), m[x])
            for x in ("priority", "color", "height"):
                if x in m:
                    got = getattr(n, "get_" + x)()
                    ctx.check(same(got, m[x]), lambda: f"{k}: {x} is {got}, not {m[x]}")
            if k in CHAIN:
                txt = lambda i: None if i is None else S[i][1]["data"]
                if k == "DoublyNode":
                    want = f"DoublyNode(data: {d}, prev: {txt(m['prev'])}, next: " \
                           f"{txt(m['next'])})"
                elif k == "PriorityNode":
                    want = f"PriorityNode(data: {d}, Priority: {m['priority']})"
                else:
                    want = f"{k}(data: {d}, next: {txt(m['next'])})"
                if k == "SkipNode" and abs(d) == float("inf"):
                    continue
                ctx.equal(f"repr of a {k}", repr(n), want)
                continue
            if k == "TreeNode":
                kids = m["children"]
            elif k == "TrieNode":
                kids = list(m["kids"].values())
                ctx.equal("get_characters()", sorted(n.get_characters()), sorted(m["kids"]))
                for ch in list(m["kids"]) + ["zz"]:
                    is_(f"child {ch!r}", n.get_child(ch), m["kids"].get(ch))
            else:
                kids = [m[s] for s in ("left", "right") if m[s] is not None]
                ctx.equal(f"has_one_child() of {k} with {len(kids)}", n.has_one_child(),
                          len(kids) == 1)
                if "parent" in m:
                    up = m["parent"]
                    is_("grandparent", n.get_grand_parent(),
                        None if up is None else S[up][1]["parent"])
                if "height" in m:
                    hs = [0 if m[s] is None else 1 + S[m[s]][1]["height"]
                          for s in ("left", "right")]
                    ctx.equal("children's heights", n.get_children_heights(), hs)
                    ctx.equal("is_balanced() of a node", n.is_balanced(),
                              abs(hs[0] - hs[1]) <= 1)
            got = list(n.get_children())
            ctx.check(len(got) == len(kids) and all(x is S[i][0] for x, i in zip(got, kids)),
                      lambda: f"{k}: children {short(got)}, expected "
                              f"{short([S[i][0] for i in kids])}")
            ctx.equal(f"is_leaf() of a {k}", n.is_leaf(), not kids)
            if k == "TreapNode":
                want = f"TreapNode(data: {d}, Priority: {m['priority']})"
            elif k == "RedBlackNode":
                want = f"{'Red' if m['color'] is Color.RED else 'Black'}Node({d})"
            else:
                want = f"{k}({d})"
            ctx.equal(f"repr of a {k}", repr(n), want)
        ctx.state(k, repr([{x: y for x, y in m.items()} for _, m in S])[:400])
