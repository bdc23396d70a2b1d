"""Every kind grown to thousands of elements and drained again, one operation at
a time, against a plain model; what most histories never get to see."""
import bisect
import random

from .bounded import check_levels
from .engine import Scenario
from .kinds import BY_NAME
from .runtime import same, same_seq, short
from .seqs import check_links
from .trees import (check_avl, check_heap_order, check_rb, check_search_links, check_treap)

SEQUENCES = ("LinkedList", "DoublyLinkedList", "CircularLinkedList")
ENDS = ("Stack", "Queue", "Deque")
SORTED = ("SkipList", "BST", "AVL", "RedBlackTree", "SplayTree", "Treap")
HEAPS = ("MinHeap", "MaxHeap")
TRIES = ("Trie", "RadixTrie")
GROW = {**{k: ("add_front", "add_end", "insert") for k in SEQUENCES},
        "Stack": ("push",), "Queue": ("enqueue",), "Deque": ("append_left", "append_right"),
        "PriorityQueue": ("enqueue",), **{k: ("insert",) for k in SORTED + HEAPS + TRIES}}
SHRINK = {**{k: ("remove_front", "remove_end", "del") for k in SEQUENCES},
          "Stack": ("pop",), "Queue": ("dequeue",), "Deque": ("pop_left", "pop_right"),
          "PriorityQueue": ("dequeue", "lowest"), "SkipList": ("remove", "del"),
          **{k: ("remove",) for k in SORTED[1:] + TRIES},
          **{k: ("remove", "remove_min", "remove_max") for k in HEAPS}}
MARKS = {m + d for k in range(6, 18) for m in (2 ** k, 1000 * (k - 5), 10 ** (k // 3))
         for d in (-1, 0, 1)}


class Scale(Scenario):
    def __init__(self, kinds, judge="contents", sizes=(600, 1100, 2100, 4100, 10100),
                 name="scale"):
        self.kinds, self.sizes, self.judge, self.name = kinds, sizes, judge, name
        self.required = ("checkpoint",)

    def gen(self, r):
        kind = self.kinds[r.randrange(len(self.kinds))]
        n = r.choice(self.sizes)
        n += r.randrange(n // 8)

        def phase(way, count):
            ops = way[kind]
            return ["grow" if way is GROW else "shrink",
                    r.choice(ops) if r.random() < .6 else "mix", count, r.getrandbits(32)]

        part = r.randrange(1, n)
        return {"kind": kind}, [phase(GROW, n), phase(SHRINK, part), phase(GROW, part),
                                phase(SHRINK, n)]

    # -- one operation, on the real thing and on the model ----------------------
    def run(self, ctx, cfg, ops):
        name = cfg["kind"]
        ctx.ev("grown:" + name)
        c = ctx.do(name, BY_NAME[name].cls)
        self.M, self.known = [], set()
        for way, how, count, seed in ops:
            r = random.Random(seed)
            pick = GROW[name] if way == "grow" else SHRINK[name]
            for k in range(count):
                if way == "shrink" and not self.M:
                    break
                o = how if how != "mix" else pick[r.randrange(len(pick))]
                self.step(ctx, name, c, o, r)
                size = len(self.M)
                if self.judge == "contents" and name not in TRIES:
                    ctx.equal(f"len of a {name} after {o}", len(c), size)
                if size in MARKS or k == count - 1:
                    self.look(ctx, name, c)
            ctx.state(name, how, len(self.M), count)

    def fresh(self, name, r):
        while True:
            v = r.randrange(1 << 24)
            if name in TRIES:
                v = "".join(r.choice("abcd") for _ in range(r.randint(1, 9)))
            if v not in self.known:
                self.known.add(v)
                return v

    def out(self, ctx, name, o, got, want):
        if self.judge == "contents":
            ctx.check(same(got, want), lambda: f"{name}: {o} of {len(self.M) + 1} gave {short(got)}, "
                                               f"expected {short(want)}")

    def step(self, ctx, name, c, o, r):
        M = self.M
        if name in SEQUENCES:
            if o in GROW[name]:
                v = self.fresh(name, r)
                if r.random() < .05 and M:  # some values more than once
                    v = M[r.choice([0, -1, r.randrange(len(M))])]
                i = {"add_front": 0, "add_end": len(M)}.get(o, r.randrange(len(M) + 1))
                ctx.do(o, c.insert, i, v) if o == "insert" else ctx.do(o, getattr(c, o), v)
                M.insert(i, v)
            elif o == "del":
                i = r.randrange(len(M))
                ctx.do(o, c.__delitem__, i)
                del M[i]
            else:
                ctx.do(o, getattr(c, o))
                del M[0 if o == "remove_front" else -1]
        elif name in ENDS:
            if o in GROW[name]:
                v = self.fresh(name, r)
                ctx.do(o, getattr(c, o), v)
                M.insert(0 if o == "append_left" else len(M), v)
            else:
                v = M.pop(0 if o in ("dequeue", "pop_left") else -1)
                self.out(ctx, name, o, ctx.do(o, getattr(c, o)), v)
        elif name == "PriorityQueue":
            if o == "enqueue":
                v = self.fresh(name, r)
                ctx.do(o, c.enqueue, f"<{v}>", priority=v - (1 << 23))
                bisect.insort(M, v)
            elif o == "lowest":
                v = M.pop(0)
                self.out(ctx, name, o, ctx.do(o, c.dequeue, lowest_priority=True), f"<{v}>")
            else:
                v = M.pop()
                self.out(ctx, name, o, ctx.do(o, c.dequeue), f"<{v}>")
        elif o == "insert":
            v = self.fresh(name, r)
            ctx.do(o, c.insert, v)
            bisect.insort(M, v)
        elif o == "del":
            i = r.randrange(len(M))
            ctx.do(o, c.__delitem__, i)
            del M[i]
        elif o == "remove":
            v = M.pop(r.randrange(len(M)))
            ctx.do(o, c.remove, v)
        else:
            ctx.do(o, getattr(c, o))
            M.pop(0 if o == "remove_min" else -1)

    # -- the whole of it ---------------------------------------------------------
    def look(self, ctx, name, c):
        M, n = self.M, len(self.M)
        ctx.ev("checkpoint")
        if self.judge == "structure":
            return self.structure(ctx, name, c)
        who = f"{name} of {n}"
        ctx.equal(f"is_empty() of a {who}", c.is_empty(), not n)
        if name in SEQUENCES:
            ctx.equal_seq(who, c.to_list(), M)
            if n:
                i = n * 2 // 3
                ctx.check(same(c[i], M[i]), f"{who}: element {i} is {short(c[i])}, not {M[i]}")
                for v in M[:: max(1, n // 4)] + M[-1:]:
                    ctx.equal(f"`in` {who}", v in c, True)
                ctx.equal(f"count of the first value of a {who}", c.count(M[0]), M.count(M[0]))
            ctx.equal(f"`in` {who}", -1 in c, False)
        elif name == "Stack" and n:
            ctx.check(same(c.peek(), M[-1]), f"{who}: the top is {short(c.peek())}")
        elif name == "Queue" and n:
            ctx.check(same(c.top(), M[0]), f"{who}: the first is {short(c.top())}")
        elif name == "Deque" and n:
            ctx.check(same(c.get_left(), M[0]) and same(c.get_right(), M[-1]),
                      f"{who}: its ends are {short(c.get_left())} and {short(c.get_right())}")
        elif name in SORTED + HEAPS:
            got = sorted(c.to_list())
            ctx.check(same_seq(got, M), lambda: f"{who} holds {short(got)}, expected {short(M)}")
            if n and name != "SkipList":
                ctx.equal(f"the minimum of a {who}", c.get_min(), M[0])
                ctx.equal(f"the maximum of a {who}", c.get_max(), M[-1])
            for v in M[:: max(1, n // 8)]:
                ctx.equal(f"{v} in {who}", v in c, True)
            ctx.equal(f"-1 in {who}", -1 in c, False)
        elif name in TRIES:
            got = sorted(ctx.do("auto_complete", c.auto_complete))
            ctx.check(same_seq(got, M), lambda: f"{who} holds {short(got)}, expected {short(M)}")

    def structure(self, ctx, name, c):
        if name in SEQUENCES:
            check_links(ctx, name, c)
        elif name == "SkipList":
            check_levels(ctx, c)
        elif name in HEAPS:
            check_heap_order(ctx, name, c)
        else:
            for x in {"AVL": [check_avl], "RedBlackTree": [check_rb],
                      "Treap": [lambda ctx, c: check_treap(ctx, c, {})]}.get(name, []):
                x(ctx, c)
            check_search_links(ctx, name, c)
