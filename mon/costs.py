"""Cost monitors.  The hooks count the steps (function entries, resumptions,
jumps) the real code takes for one operation; the growth of that count between a
small and a large instance decides.  Only what the interpreter's own built-in
lists do unseen is judged by time: that of the quickest of many goes, on
instances so large that copying one takes hundreds of times what it may."""
import math
import random
import time

from . import runtime
from .engine import Scenario
from .kinds import BY_NAME, KINDS
from .runtime import short
from .trees import BinaryTree, BinaryTreeNode, Tree, TreeNode
from .tries import SuffixTrie
from .values import at

SMALL, BIG = (16, 40), (700, 1100)


class Constant(Scenario):
    """Operations documented as taking constant time (or time depending only on
    how far from an end the position is): as many steps on a large instance as
    on a small one, up to a generous factor."""

    name = "constant"

    TABLE = {}
    for _k in ("LinkedList", "DoublyLinkedList", "CircularLinkedList"):
        TABLE[_k] = {
            "len": lambda c, n, k: len(c), "is_empty": lambda c, n, k: c.is_empty(),
            "clear": lambda c, n, k: c.clear(), "add_front": lambda c, n, k: c.add_front(7),
            "remove_front": lambda c, n, k: c.remove_front(),
            "insert(k)": lambda c, n, k: c.insert(k, 7), "c[k]": lambda c, n, k: c[k],
            "c[k]=v": lambda c, n, k: c.__setitem__(k, 7),
            "del c[k]": lambda c, n, k: c.__delitem__(k),
            "in(front)": lambda c, n, k: c.add_front(5) or 5 in c,
            "next(iter)": lambda c, n, k: next(iter(c)),
        }
    TABLE["DoublyLinkedList"].update({
        "add_end": lambda c, n, k: c.add_end(7), "remove_end": lambda c, n, k: c.remove_end(),
        "insert(n-k)": lambda c, n, k: c.insert(n - k, 7), "c[n-1-k]": lambda c, n, k: c[n - 1 - k],
        "c[n-1-k]=v": lambda c, n, k: c.__setitem__(n - 1 - k, 7),
        "del c[n-1-k]": lambda c, n, k: c.__delitem__(n - 1 - k),
        "c[-1-k]": lambda c, n, k: c[-1 - k],
        "extend(small)": lambda c, n, k: c.extend(type(c)([1, 2])),
    })
    TABLE["CircularLinkedList"].update({
        "c[mn+k]": lambda c, n, k: c[n * 500 + k],
        "c[mn+k]=v": lambda c, n, k: c.__setitem__(n * 500 + k, 7),
    })
    for _k in ("Stack", "Queue", "Deque", "PriorityQueue"):
        TABLE[_k] = {"len": lambda c, n, k: len(c), "is_empty": lambda c, n, k: c.is_empty(),
                     "is_full": lambda c, n, k: c.is_full(), "clear": lambda c, n, k: c.clear()}
    TABLE["Stack"].update({"push": lambda c, n, k: c.push(7), "pop": lambda c, n, k: c.pop(),
                           "peek": lambda c, n, k: c.peek()})
    TABLE["Queue"].update({"enqueue": lambda c, n, k: c.enqueue(7),
                           "dequeue": lambda c, n, k: c.dequeue(),
                           "top": lambda c, n, k: c.top()})
    TABLE["PriorityQueue"].update({"enqueue": lambda c, n, k: c.enqueue(7),
                                   "enqueue(p)": lambda c, n, k: c.enqueue(7, 3),
                                   "top": lambda c, n, k: c.top()})
    TABLE["Deque"].update({
        "append_left": lambda c, n, k: c.append_left(7),
        "append_right": lambda c, n, k: c.append_right(7),
        "pop_left": lambda c, n, k: c.pop_left(), "pop_right": lambda c, n, k: c.pop_right(),
        "get_left": lambda c, n, k: c.get_left(), "get_right": lambda c, n, k: c.get_right()})
    for _k in ("SkipList", "BST", "AVL", "RedBlackTree", "SplayTree", "Treap", "MinHeap",
               "MaxHeap", "Trie", "RadixTrie"):
        TABLE[_k] = {"len": lambda c, n, k: len(c), "is_empty": lambda c, n, k: c.is_empty(),
                     "clear": lambda c, n, k: c.clear()}
    TABLE["MinHeap"]["get_min"] = lambda c, n, k: c.get_min()
    TABLE["MaxHeap"]["get_max"] = lambda c, n, k: c.get_max()
    TABLE["SkipList"]["c[k]"] = lambda c, n, k: c[k]
    TABLE["Trie"].update({
        "in": lambda c, n, k: "abcabcab" in c, "has_prefix": lambda c, n, k: c.has_prefix("abcab"),
        "insert": lambda c, n, k: c.insert("abcabcac"),
        "remove": lambda c, n, k: c.remove("abcabcab")})
    TABLE["RadixTrie"].update({
        "in": lambda c, n, k: "abcabcab" in c, "has_prefix": lambda c, n, k: c.has_prefix("abcab"),
        "insert": lambda c, n, k: c.insert("abcabcac"),
        "remove": lambda c, n, k: c.remove("abcabcab")})
    for _k in ("Trie", "RadixTrie"):
        TABLE[_k].update({"miss": lambda c, n, k: "zz" in c,
                          "miss_prefix": lambda c, n, k: c.has_prefix("abczz"),
                          "remove(miss)": lambda c, n, k: c.remove("abcabca"),
                          "insert(new)": lambda c, n, k: c.insert("zzabcabc"),
                          "complete": lambda c, n, k: c.auto_complete("abcabc")})
    TABLE["SuffixTrie"] = {
        "has_substring": lambda c, n, k: c.has_substring("abcabcab"),
        "has_substring(miss)": lambda c, n, k: c.has_substring("abcabcaz"),
        "count": lambda c, n, k: c.count_pattern_occurrences("zyx"),
        "len": lambda c, n, k: len(c)}

    required = tuple(f"measured:{k}" for k in TABLE)

    def gen(self, r):
        kind = r.choice(list(self.TABLE))
        return {"kind": kind, "k": r.choice([0, 0, 1, 3]), "small": r.randint(*SMALL),
                "big": r.randint(*BIG), "seed": r.randrange(1 << 30),
                "full": r.random() < .4, "broad": r.random() < .4}, \
            sorted(self.TABLE[kind])

    @staticmethod
    def fill(ctx, kind, n, cfg):
        r = random.Random(cfg["seed"])
        if kind is SuffixTrie:
            n //= 8
            return ctx.do("SuffixTrie", SuffixTrie, "zyx" + "abcabcab" + "".join(
                chr(0x4e00 + i) if cfg.get("broad") else r.choice("abcd") for i in range(n)),
                limit=20_000_000)
        if kind.pool == "word":
            c = kind.make()
            for i in range(n):
                # broad: as many children as words, of one node or another
                head = "" if not cfg.get("broad") else r.choice(["", "abc", "abcabc"[:i % 6]])
                c.insert(head + chr(0x4e00 + i) if cfg.get("broad") else
                         "".join(r.choice("abcd") for _ in range(8)))
            for w in ("abcabcab", "abcabcbb"):
                c.insert(w)
            return c
        vals = list(range(n))
        if kind.pool == "num":
            r.shuffle(vals)
        if kind.name.endswith("LinkedList"):
            return ctx.do("build", kind.cls, vals, limit=20_000_000)
        cap = n if cfg["full"] and kind.name in ("Queue", "Deque") else None
        return ctx.do("build", kind.build, vals, cap, limit=20_000_000)

    def run(self, ctx, cfg, ops):
        kind = BY_NAME.get(cfg["kind"], SuffixTrie)
        name = cfg["kind"]
        for o in ops:
            if o == "complete" and cfg.get("broad"):
                continue  # it may give as many words as there are
            f = self.TABLE[name][o]
            got = []
            small = self.fill(ctx, kind, cfg["small"], cfg)
            big = self.fill(ctx, kind, cfg["big"], cfg)
            for _ in range(3):  # again and again: no step may be put off either
                row = []
                for c in (small, big):
                    if not len(c) or o == "clear" and got:
                        row.append(0)
                        continue
                    ctx.do(o, f, c, len(c), cfg["k"])
                    row.append(ctx.op_steps)
                got.append(row)
            a, b = max(x for x, _ in got), max(y for _, y in got)
            ctx.ev("measured:" + name)
            ctx.check(b <= 4 * a + 100,
                      f"{name}: {o} (k={cfg['k']}) takes {a} steps on {cfg['small']} "
                      f"elements and {b} on {cfg['big']}")
            ctx.state(name, o, b)


class Native(Scenario):
    """The same for the work the hooks don't see: what lists do natively.
    Processor time, the quickest of many goes, a large factor in between."""

    name = "native"
    TABLE = {
        "Stack": {"push": lambda c: c.push(7), "pop": lambda c: c.pop(),
                  "peek": lambda c: c.peek(), "len": len, "is_empty": lambda c: c.is_empty(),
                  "is_full": lambda c: c.is_full()},
        "MinHeap": {"insert": lambda c: c.insert(1e9), "get_min": lambda c: c.get_min(),
                    "len": len, "is_empty": lambda c: c.is_empty()},
        "MaxHeap": {"insert": lambda c: c.insert(-1e9), "get_max": lambda c: c.get_max(),
                    "len": len, "is_empty": lambda c: c.is_empty()},
    }
    required = tuple(f"timed:{k}" for k in TABLE)

    def gen(self, r):
        kind = r.choice(list(self.TABLE))
        return {"kind": kind, "n": r.randint(300_000, 400_000) * (3 if kind == "Stack" else 1)}, \
            sorted(self.TABLE[kind])

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        table, c, first = self.TABLE[kind.name], kind.make(), {}
        add = c.push if kind.name == "Stack" else c.insert
        sign, i = -1 if kind.name == "MaxHeap" else 1, 0
        n = 200
        while True:  # step by step, or filling it would take forever when it's broken
            for i in range(i, min(n, cfg["n"])):
                add(sign * i)
            for o in [add.__name__, *ops]:
                times = []
                for _ in range(25):
                    t = time.thread_time_ns()
                    table[o](c)
                    times.append(time.thread_time_ns() - t)
                best = min(times)
                first.setdefault(o, best)
                ctx.ev("timed:" + kind.name)
                ctx.check(best <= 20 * first[o] + 60_000,
                          f"{kind.name}: {o} takes {first[o]} ns on 200 elements and {best} ns "
                          f"on {n}, the quickest of 25 goes")
                ctx.state(kind.name, o, n)
            if n >= cfg["n"]:
                break
            n = 25_000 if n == 200 else n * 2


def lg(n):
    return math.log2(n + 2)


class Logarithmic(Scenario):
    """Worst case for the balanced trees and heaps, average for those balanced by
    chance: steps grow with the logarithm of the size."""

    name = "logarithmic"
    ORDERS = ["random", "up", "down", "zigzag", "blocks"]
    WORST = ["AVL", "RedBlackTree", "MinHeap", "MaxHeap"]
    MEAN = ["SkipList", "Treap", "SplayTree"]
    required = tuple(f"measured:{k}" for k in WORST + MEAN)

    def gen(self, r):
        n = r.randint(1500, 2500)
        ops = [(r.choice(["insert", "remove", "in", "miss", "min", "max", "insert", "remove"]),
                r.random()) for _ in range(r.choice([60, 300]))]
        kind = r.choice(self.WORST + self.MEAN)
        if kind == "SplayTree":  # sorted input makes a chain, which it descends recursively
            n //= 8
        return {"kind": kind, "n": n, "order": r.choice(self.ORDERS),
                "seed": r.randrange(1 << 30)}, ops

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        r = random.Random(cfg["seed"])
        n = cfg["n"]
        vals = [2 * i for i in range(n)]
        if cfg["order"] == "random":
            r.shuffle(vals)
        elif cfg["order"] == "down":
            vals.reverse()
        elif cfg["order"] == "zigzag":
            vals = [x for p in zip(vals, reversed(vals)) for x in p][:n]
        elif cfg["order"] == "blocks":
            k = n // 7
            vals = [x for i in r.sample(range(8), 8) for x in vals[i * k:(i + 1) * k]]
        c = kind.make()
        bound = 90 * lg(n) + 200
        total, count, worst = 0, 0, 0

        def measured(o, f, *args):
            nonlocal total, count, worst
            ctx.do(o, f, *args)
            s = ctx.op_steps
            total, count, worst = total + s, count + 1, max(worst, s)
            if kind.name in self.WORST:
                ctx.check(s <= bound, f"{kind.name} filled with {n} numbers ({cfg['order']}): "
                                      f"{o} {short(args)} took {s} steps on {len(c)} elements")

        for v in vals:
            measured("insert", c.insert, v)
        self.mean(ctx, kind, cfg, "inserting them", total, count, bound)
        here = sorted(set(vals))
        total = count = 0
        heap = "Heap" in kind.name
        for o, f in ops:
            t = here[at(f, len(here))]
            if o == "insert":
                measured(o, c.insert, t + 1)
            elif heap:
                top = "min" if kind.name == "MinHeap" else "max"
                if o == "remove":
                    measured("remove_" + top, getattr(c, "remove_" + top))
                else:
                    measured("get_" + top, getattr(c, "get_" + top))
            elif o == "remove":
                measured(o, c.remove, t)
            elif o == "in":
                measured(o, c.__contains__, t)
            elif o == "miss":
                measured(o, c.__contains__, t + .5)
            elif kind.name not in ("SkipList", "SplayTree"):
                measured(o, getattr(c, "get_" + o))
        if count >= 40:
            # splay trees only promise it for sequences starting empty
            if kind.name != "SplayTree":
                self.mean(ctx, kind, cfg, "working on them", total, count, bound)
        ctx.ev("measured:" + kind.name)
        ctx.state(kind.name, cfg["order"], n, worst)

    @staticmethod
    def mean(ctx, kind, cfg, what, total, count, bound):
        ctx.check(total <= count * bound,
                  f"{kind.name} filled with {cfg['n']} numbers ({cfg['order']}): {what} took "
                  f"{total / count:.0f} steps an operation")


class Linear(Scenario):
    """Operations going over all elements: steps proportional to their number."""

    name = "linear"
    LISTS = {
        "to_list": lambda c: c.to_list(), "iterate": lambda c: list(c), "copy": lambda c: c.copy(),
        "reverse": lambda c: c.reverse(), "rotate_left": lambda c: c.rotate_left(len(c) // 3),
        "rotate_right": lambda c: c.rotate_right(len(c) // 3),
        "rotate_left(copy)": lambda c: c.rotate_left(len(c) // 3, inplace=False),
        "rotate_far": lambda c: c.rotate_left(10 ** 12 + 1),
        "rotate_right_far": lambda c: c.rotate_right(10 ** 12 + 1),
        "split": lambda c: c.split(len(c) // 2), "count": lambda c: c.count(1),
        "remove_all": lambda c: c.remove(1), "remove_none": lambda c: c.remove(-1),
        "compare": lambda c: c == type(c)(c), "in": lambda c: -5 in c,
        "middle": lambda c: c[len(c) // 2], "insert_middle": lambda c: c.insert(len(c) // 2, 9),
        "del_middle": lambda c: c.__delitem__(len(c) // 2), "add_end": lambda c: c.add_end(1),
        "remove_end": lambda c: c.remove_end(), "extend": lambda c: c.extend(type(c)([1, 2])),
        "construct": lambda c: type(c)(c), "drawing": repr,
        "less": lambda c: c < type(c)(c), "at_most": lambda c: c <= type(c)(c),
        "above": lambda c: c > type(c)(c), "at_least": lambda c: c >= type(c)(c),
        "differs": lambda c: c != type(c)(c), "extend_self": lambda c: c.extend(c),
        "split_end": lambda c: c.split(len(c) - 1),
    }
    SLICES = {
        "slice": lambda c: c[3:-3], "slice_all": lambda c: c[:], "slice_back": lambda c: c[::-1],
        "slice_step": lambda c: c[1::2], "slice_empty": lambda c: c[5:2],
        "last": lambda c: c[-1],
    }
    TREES = {
        "to_list": lambda c: c.to_list(), "iterate": lambda c: list(c),
        "preorder": lambda c: c.preorder_traverse(), "inorder": lambda c: c.inorder_traverse(),
        "postorder": lambda c: c.postorder_traverse(),
        "breadth": lambda c: c.breadth_first_traverse(),
        "depth": lambda c: c.depth_first_traverse(), "levels": lambda c: c.get_nodes_per_level(),
        "leaves": lambda c: c.count_leaf_nodes(), "height": lambda c: c.get_height(),
        "left view": lambda c: c.get_leftside_view(),
        "right view": lambda c: c.get_rightside_view(), "strict": lambda c: c.is_strict(),
        "min": lambda c: c.get_min(), "max": lambda c: c.get_max(),
        "balanced": lambda c: c.is_balanced(), "perfect": lambda c: c.is_perfect(),
    }
    FLAT = {"to_list": lambda c: c.to_list(), "iterate": lambda c: list(c)}
    required = tuple(f"measured:{k.name}" for k in KINDS
                     if k.name not in ("Stack", "Queue", "Deque"))

    @classmethod
    def table(cls, name):
        if name in ("LinkedList", "DoublyLinkedList"):
            return {**cls.LISTS, **cls.SLICES}
        if name == "CircularLinkedList":
            return cls.LISTS
        if name == "PriorityQueue":
            return {"dequeue": lambda c: c.dequeue(),
                    "dequeue_lowest": lambda c: c.dequeue(lowest_priority=True)}
        if name in ("BST", "AVL", "RedBlackTree", "SplayTree", "Treap"):
            return cls.TREES
        if name in ("Trie", "RadixTrie"):
            return {**cls.FLAT, "words": lambda c: c.auto_complete(),
                    "levels": lambda c: c.get_nodes_per_level()}
        if "Heap" in name:
            return {**cls.FLAT, "remove": lambda c: c.remove(len(c) // 3),
                    "remove_min": lambda c: c.remove_min(),
                    "remove_max": lambda c: c.remove_max()}
        return {**cls.FLAT, "middle": lambda c: c[len(c) // 2],
                "del_middle": lambda c: c.__delitem__(len(c) // 2)}

    def gen(self, r):
        kind = r.choice([k.name for k in KINDS if k.name not in ("Stack", "Queue", "Deque")])
        return {"kind": kind, "n": r.randint(900, 1300), "seed": r.randrange(1 << 30),
                "full": False, "dup": r.random() < .5}, sorted(self.table(kind))

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        table = self.table(kind.name)
        c = None
        for o in ops:
            if o == "drawing" and cfg["n"] % 4:
                continue
            if kind.pool == "obj" and cfg["dup"]:
                c = (kind.cls if kind.name.endswith("LinkedList") else kind.build)(
                    [i % 3 for i in range(cfg["n"])])
            elif c is None or table is not self.TREES:  # queries can share one
                c = Constant.fill(ctx, kind, cfg["n"], cfg)
            n = len(c)
            ctx.do(o, table[o], c, limit=40_000_000)
            ctx.ev("measured:" + kind.name)
            ctx.check(ctx.op_steps <= 150 * n + 500,
                      f"{kind.name}: {o} takes {ctx.op_steps} steps on {n} elements")
            ctx.state(kind.name, o, ctx.op_steps)


class LinearTrees(Scenario):
    """The same for general, linked and parsed trees of many forms."""

    name = "linear_trees"
    COMMON = {
        "len": len, "to_list": lambda c: c.to_list(), "iterate": list,
        "levels": lambda c: c.get_nodes_per_level(), "height": lambda c: c.get_height(),
        "depth": lambda c: c.get_depth(), "leaves": lambda c: c.count_leaf_nodes(),
        "miss": lambda c: -1 in c, "empty": lambda c: c.is_empty(),
    }
    TABLE = {"Tree": {**COMMON, "drawing": repr},
             "BinaryTree": {**COMMON, **{k: f for k, f in Linear.TREES.items()
                                         if k not in ("min", "max")},
                            "invert": lambda c: c.invert()}}
    ONCE = ("levels", "height", "depth", "leaves", "empty", "left view", "right view",
            "strict", "balanced", "perfect", "invert")
    FORMS = ("wide", "deep", "comb", "random", "full")
    required = tuple(f"measured:Tree:{f}" for f in FORMS)
    required += tuple(r.replace("Tree", "BinaryTree") for r in required[1:])

    def gen(self, r):
        kind = r.choice(list(self.TABLE))
        form = r.choice(self.FORMS[kind == "BinaryTree":])
        return {"kind": kind, "form": form, "seed": r.randrange(1 << 30),
                "n": r.randint(200, 300) if form in ("deep", "comb") else
                r.choice([511, 1023, 1023]) if form == "full" else r.randint(900, 1300)}, \
            sorted(self.TABLE[kind])

    def run(self, ctx, cfg, ops):
        r, n, form = random.Random(cfg["seed"]), cfg["n"], cfg["form"]
        binary = cfg["kind"] == "BinaryTree"
        c, node = (BinaryTree(), BinaryTreeNode) if binary else (Tree(), TreeNode)
        c._root = node(0)
        nodes = [c._root]
        for i in range(1, n):
            new = node(i)
            if form == "wide":
                up = c._root
            elif form == "deep":
                up = nodes[-1]
            elif form == "comb":
                up = nodes[-1 - (i % 2 == 0) if i > 1 else -1]
            elif form == "full":  # or perfect
                up = nodes[(i - 1) // 2]
            else:
                up = r.choice(nodes)
                while binary and len(up.get_children()) == 2:
                    up = r.choice(nodes)
            if not binary:
                up.set_child(new)
            elif up.get_left() is None and (up.get_right() is not None or form == "full"
                                            or r.random() < .5):
                up.set_left(new)
            elif up.get_right() is None:
                up.set_right(new)
            else:
                up.set_left(new)
            nodes.append(new)
        for o in ops:
            ctx.do(o, self.TABLE[cfg["kind"]][o], c, limit=40_000_000)
            ctx.ev(f"measured:{cfg['kind']}:{form}")
            size = n if o != "drawing" else n * 3 + sum(
                len(l) for l in repr(c).split("\n"))  # it's as long as the tree is deep
            # going on through every generator above it is no fault
            deep = n * n // 2 if form in ("deep", "comb") and o not in self.ONCE else 0
            ctx.check(ctx.op_steps <= 150 * size + deep + 500,
                      f"{cfg['kind']} ({form}): {o} takes {ctx.op_steps} steps on {n} nodes")
            ctx.state(cfg["kind"], form, o, ctx.op_steps)


class Growth(Scenario):
    """The same again for everything a kind offers that goes over all of it, making
    and emptying included: eight times the elements, not sixty-four times the
    steps."""

    name = "growth"
    QUERIES = ("to_list", "copy", "reverse", "breadth_first_traverse", "preorder_traverse",
               "postorder_traverse", "inorder_traverse", "depth_first_traverse", "traverse",
               "count_leaf_nodes", "get_depth", "get_height", "get_leftside_view",
               "get_rightside_view", "get_nodes_per_level", "is_balanced", "is_perfect",
               "is_strict", "invert", "auto_complete", "to_suffix_array",
               "get_longest_common_substring", "get_longest_repeated_substring", "clear")
    DRAIN = {"Stack": ["pop"], "Queue": ["dequeue"], "Deque": ["pop_left", "pop_right"],
             "LinkedList": ["remove_front"], "CircularLinkedList": ["remove_front"],
             "DoublyLinkedList": ["remove_front", "remove_end"],
             "MinHeap": ["remove_min"], "MaxHeap": ["remove_max"]}
    NAMES = [k.name for k in KINDS] + ["SuffixTrie"]
    required = tuple(f"measured:{k}" for k in NAMES)

    @classmethod
    def moves(cls, name):
        c = SuffixTrie if name == "SuffixTrie" else BY_NAME[name].cls
        out = ["build", "drawing", "twice"] + [q for q in cls.QUERIES if hasattr(c, q)]
        if name == "SuffixTrie" or BY_NAME[name].iterable:
            out.append("iterate")
        if name in cls.DRAIN:
            out.append("drain")
        elif name in ("BST", "AVL", "RedBlackTree", "Treap", "SplayTree", "SkipList", "Trie",
                      "RadixTrie"):
            out.append("take")
        if name.endswith("LinkedList"):
            out += ["extend", "equal"]
        return out

    def gen(self, r):
        name = r.choice(self.NAMES)
        return {"kind": name, "n": r.randint(60, 110), "seed": r.randrange(1 << 30),
                "few": r.random() < .3}, self.moves(name)

    def make(self, cfg, n):
        """What to build from, and how."""
        name, r = cfg["kind"], random.Random(cfg["seed"])
        if name == "SuffixTrie":
            word = "".join(r.choice("abcd") for _ in range(n // 2))
            return word, lambda: SuffixTrie(word)
        kind = BY_NAME[name]
        if kind.pool == "word":
            vals = ["".join(r.choice("abcd") for _ in range(8)) for _ in range(n)]
        else:
            vals = list(range(n))
            if cfg["few"] and kind.pool == "obj":
                vals = [v % 3 for v in vals]
            if kind.pool == "num":
                r.shuffle(vals)
        if name.endswith("LinkedList"):
            return vals, lambda: kind.cls(vals)
        if "Heap" in name:
            return vals, lambda: kind.cls.heapify(vals)
        return vals, lambda: kind.build(vals)

    def drain(self, name, c):
        ways = self.DRAIN[name]
        i = 0
        while len(c):
            getattr(c, ways[i % len(ways)])()
            i += 1

    def run(self, ctx, cfg, ops):
        name = cfg["kind"]
        for o in ops:
            got = []
            for n in (cfg["n"], 8 * cfg["n"]):
                vals, build = self.make(cfg, n)
                if o == "build":
                    ctx.do("build", build, limit=20_000_000)
                    got.append(ctx.op_steps)
                    continue
                c = ctx.do("build", build, limit=20_000_000)
                if o == "twice":  # what the first look leaves for the second
                    f = lambda: (repr(c), repr(c))
                elif o == "drawing":
                    f = lambda: repr(c)
                elif o == "iterate":
                    f = lambda: [None for _ in c]
                elif o == "drain":
                    f = lambda: self.drain(name, c)
                elif o == "take":
                    f = lambda: [c.remove(v) for v in dict.fromkeys(vals)]
                elif o == "extend":
                    other = build()
                    f = lambda: c.extend(other)
                elif o == "equal":
                    other = build()
                    f = lambda: c == other
                else:
                    f = getattr(c, o)
                ctx.do(o, f, limit=40_000_000)
                got.append(ctx.op_steps)
            ctx.ev("measured:" + name)
            a, b = got
            ctx.check(b <= 24 * a + 800,
                      f"{name}: {o} takes {a} steps on {cfg['n']} elements and {b} on eight "
                      f"times as many")
            ctx.state(name, o, b)


class LongWords(Scenario):
    """What tries do with one word takes work in proportion to its length, however
    the words before it end along the way."""

    name = "long_words"
    MOVES = ("insert", "again", "in", "miss", "has_prefix", "prefix_miss", "complete",
             "complete_half", "remove", "remove_miss", "fork")
    required = ("measured:Trie", "measured:RadixTrie")

    def gen(self, r):
        return {"kind": r.choice(["Trie", "RadixTrie"]), "n": r.randint(30, 60),
                "seed": r.randrange(1 << 30), "letters": r.choice(["a", "ab", "abcdefgh"]),
                "steps": r.choice([0, 0, 1, 5])}, list(self.MOVES)

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        for o in ops:
            got = []
            for n in (cfg["n"], 8 * cfg["n"]):
                r = random.Random(cfg["seed"])
                word = "".join(r.choice(cfg["letters"]) for _ in range(n))
                c = kind.make()
                if cfg["steps"]:  # words ending along its way
                    for i in range(cfg["steps"], n, cfg["steps"]):
                        c.insert(word[:i])
                if o != "insert":
                    c.insert(word)
                f, arg = {
                    "insert": (c.insert, word), "again": (c.insert, word),
                    "in": (c.__contains__, word), "miss": (c.__contains__, word + "z"),
                    "has_prefix": (c.has_prefix, word[:-1]),
                    "prefix_miss": (c.has_prefix, word[:-1] + "z"),
                    "complete": (c.auto_complete, word),
                    "complete_half": (c.auto_complete, word[:n // 2]),
                    "remove": (c.remove, word), "remove_miss": (c.remove, word + "z"),
                    "fork": (c.insert, word[:-2] + "zz")}[o]
                ctx.do(o, f, arg, limit=20_000_000)
                got.append(ctx.op_steps)
            a, b = got
            ctx.ev("measured:" + kind.name)
            ctx.check(b <= 24 * a + 800,
                      f"{kind.name}: {o} takes {a} steps with a word of {cfg['n']} letters "
                      f"and {b} with one eight times as long")
            ctx.state(kind.name, o, cfg["steps"], b)
