"""Monitors of the drawings (`repr`): they show the contents, all of them, in
the documented arrangement.  Lists are drawn again from what they hold by
renderers of our own; trees are decoded back from the two-dimensional text and
compared with the nodes really linked."""
import re

from . import runtime  # noqa: F401
from .engine import Scenario
from .kinds import (BY_NAME, CircularLinkedList, Deque, DoublyLinkedList, LinkedList,
                    PriorityQueue, Queue, SkipList, Stack, Treap)
from .runtime import Violation, short
from .trees import (HEAPS, SEARCH, Color, Snap, Tree, TreeNode, BinaryTree, build_shape,
                    gen_general, gen_shape, strewn)
from .tries import SuffixTrie, suffix_word
from .values import at, frac, lean, leaning, num_pool, stored


# ------------------------------------------------------------------- renderers --

def draw_linked(vals):
    if not vals:
        return "┌─\n│\n└─"
    ts = [str(v) for v in vals]
    return "\n".join((
        "".join("┌" + "─" * (len(t) + 2) + "┐ " for t in ts),
        "".join(f"│ {t} │⟶" for t in ts),
        "".join("└" + "─" * (len(t) + 2) + "┘ " for t in ts)))


def draw_doubly(vals):
    if not vals:
        return "┌─\n│\n└─"
    ts = [str(v) for v in vals]
    return "\n".join((
        "".join(" ┌" + "─" * (len(t) + 2) + "┐" for t in ts) + " ",
        "".join(f"⟷│ {t} │" for t in ts) + "⟷",
        "".join(" └" + "─" * (len(t) + 2) + "┘" for t in ts) + " "))


def draw_circular(vals):
    if not vals:
        return draw_linked(vals)
    a, b, c = draw_linked(vals).split("\n")
    off = (len(str(vals[0])) + 4) // 2
    gap = len(b) - off
    return "\n".join((a, b + " ┐", c + " │", " " * off + "↑" + " " * gap + "│",
                      " " * off + "└" + "─" * gap + "┘"))


def draw_stack(vals):
    ts = [str(v) for v in vals]
    return "\n".join((
        "┌" + "".join("─" * (len(t) + 2) + "┬" for t in ts) + "─",
        "│" + "".join(f" {t} │" for t in ts) + " ",
        "└" + "".join("─" * (len(t) + 2) + "┴" for t in ts) + "─"))


def draw_queue(ts, arrow):
    full = bool(ts)
    return "\n".join((
        "─┬" + "".join("─" * (len(t) + 2) + "┬" for t in ts) + "─" * full,
        arrow + "│" + "".join(f" {t} │" for t in ts) + arrow * full,
        "─┴" + "".join("─" * (len(t) + 2) + "┴" for t in ts) + "─" * full))


def draw_skip(vals, rows):
    """`rows` (lowest first) are the sets of columns present on each level."""
    def label(v):
        return "∞" if v == float("inf") else "-∞" if v == float("-inf") else str(v)

    cols = ["-∞"] + [label(v) for v in vals]
    out = []
    for k in range(len(rows), -1, -1):
        # the line between level k (above) and level k - 1 (below)
        up = rows[k] if k < len(rows) else set()
        down = rows[k - 1] if k else set()
        line = ""
        for j, t in enumerate(cols):
            w = len(t) + 2
            if j in up and j in down:
                line += "├" + "─" * w + "┤ "
            elif j in up:
                line += "└" + "─" * w + "┘ "
            elif j in down:
                line += "┌" + "─" * w + "┐ "
            else:
                line += " " * (w + 3)
        out.append(line)
        if k:
            out.append("".join(f"| {t} │⟶" if j in down else "⟶" * (len(t) + 5)
                               for j, t in enumerate(cols)))
    return "\n".join(out)


def decode_skip(ctx, vals, text):
    """Which columns each level of a drawn skip list has (lowest first)."""
    cols = ["-∞"] + ["∞" if v == float("inf") else "-∞" if v == float("-inf") else str(v)
                     for v in vals]
    lines = text.split("\n")
    ctx.check(len(lines) % 2 == 1 and len(lines) >= 3,
              f"skip list of {short(vals)} is drawn with {len(lines)} lines")
    rows = []
    for line in lines[1::2]:
        ctx.check(len(line) == sum(len(t) + 5 for t in cols),
                  f"skip list of {short(vals)}: a level is drawn as {line!r}")
        at_, row = 0, set()
        for j, t in enumerate(cols):
            if line[at_] == "|":
                row.add(j)
            at_ += len(t) + 5
        rows.append(row)
    return rows[::-1]


def same_drawing(ctx, who, text, want):
    ctx.ev("drawn:" + who.split(" ")[0])
    if text != want:
        raise Violation(f"{who} is drawn as\n{text}\ninstead of\n{want}")


# ----------------------------------------------------------------------- lists --
class ListDrawings(Scenario):
    """Linked lists after every operation of a history."""

    name = "lists"
    required = ("drawn:LinkedList", "drawn:DoublyLinkedList", "drawn:CircularLinkedList",
                "empty", "wide")
    DRAW = {"LinkedList": draw_linked, "DoublyLinkedList": draw_doubly,
            "CircularLinkedList": draw_circular}

    def gen(self, r):
        kind = BY_NAME[r.choice(list(self.DRAW))]
        nxt = kind.values(r)
        ops = [(r.choice(kind.ops + ("clear",) * (r.random() < .1)), nxt(), frac(r),
                r.randrange(1 << 20)) for _ in range(r.choice([4, 12, 30]))]
        big = r.random() < .03
        return {"kind": kind.name, "start": [nxt() for _ in range(
            r.choice([40, 70, 130, 270] if big else [0, 1, 2, 6]))]}, ops[:6 if big else None]

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        draw = self.DRAW[kind.name]
        c = ctx.do("build", kind.build, cfg["start"])
        for o, v, f, salt in [("none", 0, 0, 0)] + ops:
            if o == "clear":
                ctx.do(o, c.clear)
            elif o != "none":
                ctx.do(o, kind.apply, c, o, v, f, salt)
            vals = c.to_list()
            same_drawing(ctx, f"{kind.name} holding {short(vals)}", ctx.do("repr", repr, c),
                         draw(vals))
            ctx.equal("str() and repr()", str(c), repr(c))
            if not vals:
                ctx.ev("empty")
            elif len(str(vals[0])) > 20:
                ctx.ev("wide")
            d = c.reverse()
            same_drawing(ctx, f"{kind.name} reversed, holding {short(d.to_list())}", repr(d),
                         draw(vals[::-1]))
            ctx.state(kind.name, repr(c))


class QueueDrawings(Scenario):
    """Stacks, queues, deques, priority queues: the drawing after a history has
    to be the order in which the elements then come out."""

    name = "queues"
    required = ("drawn:Stack", "drawn:Queue", "drawn:Deque", "drawn:PriorityQueue", "empty",
                "priority_shown")

    def gen(self, r):
        name = r.choice(["Stack", "Queue", "Deque", "PriorityQueue"])
        kind = BY_NAME[name]
        nxt = kind.values(r)
        n = r.choice([2, 6, 15, 30])
        ops = [(r.choice(kind.ops), nxt(), frac(r), r.randrange(1 << 20)) for _ in range(n)]
        return {"kind": name, "cap": r.choice([None, None, None, 3]),
                "crowd": r.choice([50, 90, 140, 270]) if r.random() < .02 else 0,
                "right": r.random() < .5, "low": r.random() < .5}, ops

    def run(self, ctx, cfg, ops):
        name = cfg["kind"]
        kind = BY_NAME[name]
        c = ctx.do("build", kind.make, cfg["cap"])
        prio, k = {}, 0
        for _ in range(cfg["crowd"]):
            k += 1
            if name == "PriorityQueue":
                c.enqueue(f"{k}:", k % 11)
                prio[f"{k}:"] = k % 11
            elif not (name == "Stack" and c.is_full()):
                kind.add(c, f"{k}:", k)
        for o, v, f, salt in ops[:6] if cfg["crowd"] else ops:
            if name == "PriorityQueue" and o == "enqueue":
                k += 1  # every element can be told apart by its text
                v = f"{k}:{v}"[:30]
                p = [salt % 5, -(salt % 7), salt / 8, salt % 2][salt % 4]
                ctx.do(o, c.enqueue, v, p)
                prio[stored(v)] = p
            else:
                ctx.do(o, kind.apply, c, o, v, f, salt)
            if not len(c):
                ctx.ev("empty")
                same_drawing(ctx, f"{name} (empty)", repr(c), self.draw(name, []))
        plain, shown = [], []
        order = []
        while True:
            plain.append(ctx.do("repr", repr, c))
            if name == "PriorityQueue":
                was, PriorityQueue.SHOW_PRIORITY = PriorityQueue.SHOW_PRIORITY, True
                try:
                    shown.append(repr(c))
                finally:
                    PriorityQueue.SHOW_PRIORITY = was
                ctx.equal("the drawing after showing priorities", repr(c), plain[-1])
            if c.is_empty():
                break
            if name == "Stack":
                order.append(c.pop())
            elif name == "Queue":
                order.append(c.dequeue())
            elif name == "Deque":
                order.append(c.pop_right() if cfg["right"] else c.pop_left())
            else:
                order.append(c.dequeue(cfg["low"]))
        # the end the elements leave at is known, so the contents at each point are
        flip = name in ("Stack", "Queue") or name == "Deque" and cfg["right"]
        for i, text in enumerate(plain):
            left = order[i:][::-1] if flip else order[i:]
            if name == "PriorityQueue":  # drawn in the order of arrival
                left.sort(key=lambda v: -int(v.split(":")[0]))
            same_drawing(ctx, f"{name} holding {short(left)}", text, self.draw(name, left))
            if shown:
                ctx.ev("priority_shown")
                same_drawing(ctx, f"{name} holding {short(left)} (priorities shown)", shown[i],
                             draw_queue([f"{v}|P:{prio[v]}" for v in left], "⟶"))
        ctx.state(name, plain[0])

    @staticmethod
    def draw(name, vals):
        if name == "Stack":
            return draw_stack(vals)
        return draw_queue([str(v) for v in vals], "⟷" if name == "Deque" else "⟶")


class SkipDrawings(Scenario):
    name = "skip_drawings"
    required = ("drawn:SkipList", "levels_drawn", "empty")

    def gen(self, r):
        _, nxt = num_pool(r)
        if r.random() < .04:
            nxt = lambda: r.randint(-500, 500)
            return {"start": [nxt() for _ in range(r.choice([60, 130, 270]))], "coin": lean(r, .8)}, \
                [(r.choice(["insert", "remove", "del"]), nxt(), frac(r)) for _ in range(4)]
        return {"start": [nxt() for _ in range(r.choice([0, 1, 4, 12]))], "coin": lean(r, .9)}, \
            [(r.choice(["insert", "insert", "insert", "remove", "del"]), nxt(), frac(r))
             for _ in range(r.choice([3, 10, 25]))]

    def run(self, ctx, cfg, ops):
        with leaning(cfg["coin"]):
            self._run(ctx, cfg, ops)

    def _run(self, ctx, cfg, ops):
        c = ctx.do("SkipList", SkipList, cfg["start"])
        for o, v, f in [("none", 0, 0)] + ops:
            if o in ("insert", "remove"):
                ctx.do(o, getattr(c, o), v)
            elif o == "del" and len(c):
                ctx.do(o, c.__delitem__, at(f, len(c)))
            vals = c.to_list()
            text = ctx.do("repr", repr, c)
            rows = decode_skip(ctx, vals, text)
            ctx.equal(f"levels drawn of {short(vals)}", len(rows), c.get_height())
            ctx.check(rows[0] == set(range(len(vals) + 1)),
                      f"skip list of {short(vals)}: its lowest level is drawn as "
                      f"{text.split(chr(10))[-2]}")
            for k, row in enumerate(rows):
                ctx.check(0 in row and (k == 0 or row <= rows[k - 1]),
                          f"skip list of {short(vals)}: level {k} isn't part of the one below "
                          f"in\n{text}")
                if k:
                    ctx.ev("levels_drawn")
            same_drawing(ctx, f"SkipList holding {short(vals)}", text, draw_skip(vals, rows))
            if not vals:
                ctx.ev("empty")
            ctx.state(text)


# ------------------------------------------------------------------ tree decoder --
TOKEN = re.compile(r"(_*)([^ _]+)(_*)")


def decode_binary(ctx, who, text):
    """The tree a drawing shows, as nested [label, left, right]."""
    lines = text.split("\n")
    at_, used = {}, set()  # (row, middle column of a label) -> token

    def cell(row, col):
        return lines[row][col] if row < len(lines) and 0 <= col < len(lines[row]) else " "

    def bad(what):
        raise Violation(f"{who}: {what} in the drawing\n{text}")

    for row in range(0, len(lines), 2):
        for m in TOKEN.finditer(lines[row]):
            at_[row, (m.start(2) + m.end(2) - 1) // 2] = m
    branches = {(row, col) for row in range(1, len(lines), 2)
                for col, ch in enumerate(lines[row]) if ch != " "}

    def child(row, col, mid, ch):
        if (row + 1, col) in branches and cell(row + 1, col) == ch:
            branches.discard((row + 1, col))
            k = (row + 2, mid)
            if k not in at_:
                bad(f"the branch at line {row + 2}, column {col + 1} leads nowhere")
            return make(*k)
        return None

    def make(row, mid):
        if (row, mid) in used:
            bad("two branches lead to one node")
        used.add((row, mid))
        m = at_[row, mid]
        left = child(row, m.start() - 1, m.start() - 2, "/")
        right = child(row, m.end(), m.end() + 1, "\\")
        if m.group(1) and left is None or m.group(3) and right is None:
            bad(f"a line out of {m.group(2)} leads nowhere")
        ctx.ev("nodes_decoded")
        return [m.group(2), left, right]

    top = [k for k in at_ if k[0] == 0]
    if len(top) != 1:
        bad(f"{len(top)} roots")
    out = make(*top[0])
    if branches:
        bad("unconnected branches")
    if len(used) != len(at_):
        bad(f"{len(at_) - len(used)} unconnected nodes")
    return out


def linked(node, label):
    """The same form, out of the linked nodes."""
    if node is None:
        return None
    return [label(node), linked(node.get_left(), label), linked(node.get_right(), label)]


def draw_general(shape):
    """Renders nested [label, children]."""
    out = [shape[0]]

    def go(kids, pad):
        for i, (label, sub) in enumerate(kids):
            last = i == len(kids) - 1
            out.append(pad + ("└─" if last else "├─") + ("┬ " if sub else "─ ") + label)
            go(sub, pad + ("  " if last else "│ "))

    go(shape[1], "")
    return "\n".join(out)


def same_tree(ctx, who, text, want):
    ctx.ev("drawn:" + who.split(" ")[0])
    if want is None:
        ctx.ev("empty")
        ctx.check(text == "/ \\", f"{who}, empty, is drawn as {text!r}")
        return
    got = decode_binary(ctx, who, text)
    if got != want:
        raise Violation(f"{who}: the drawing\n{text}\nshows {short(got, 500)}, it really is "
                        f"{short(want, 500)}")


class SearchDrawings(Scenario):
    """Search trees and heaps after every operation of a history."""

    name = "search_drawings"
    required = tuple("drawn:" + k for k in list(SEARCH) + list(HEAPS)) + \
        ("nodes_decoded", "priority_shown", "empty")

    def gen(self, r):
        kind = BY_NAME[r.choice(list(SEARCH) + list(HEAPS))]
        nxt = kind.values(r)
        sizes, n = [0, 1, 3, 9, 20], r.choice([3, 8, 20])
        if r.random() < .04:
            nxt, sizes, n = lambda: r.randint(-500, 500), [40, 70, 130, 270], 4
        return {"kind": kind.name, "start": [nxt() for _ in range(r.choice(sizes))]}, \
            [(r.choice(kind.ops), nxt(), frac(r), r.randrange(1 << 20)) for _ in range(n)]

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        name = kind.name
        c = ctx.do("build", kind.build, cfg["start"])
        for o, v, f, salt in [("none", 0, 0, 0)] + ops:
            if o != "none":
                ctx.do(o, kind.apply, c, o, v, f, salt)
            text = ctx.do("repr", repr, c)
            if name in HEAPS:
                xs = [str(x) for x in c.to_list()]

                def full(i):
                    return [xs[i], full(2 * i + 1), full(2 * i + 2)] if i < len(xs) else None

                same_tree(ctx, f"{name} of {short(xs)}", text, full(0))
            else:
                who = f"{name} of {short(c.to_list())}"
                Snap(c._root, name)  # refuses loops
                if name == "RedBlackTree":
                    same_tree(ctx, who, text, linked(c._root, lambda n: "{}|{}".format(
                        n.get_data(), "R" if n.get_color() is Color.RED else "B")))
                else:
                    same_tree(ctx, who, text, linked(c._root, lambda n: str(n.get_data())))
                if name == "Treap":
                    was, Treap.SHOW_PRIORITY = Treap.SHOW_PRIORITY, True
                    try:
                        shown = repr(c)
                    finally:
                        Treap.SHOW_PRIORITY = was
                    same_tree(ctx, who, shown, linked(
                        c._root, lambda n: f"{n.get_data()}|P:{n.get_priority()}"))
                    ctx.ev("priority_shown")
                    ctx.equal("the drawing after showing priorities", repr(c), text)
            ctx.equal("str() and repr()", str(c), text)
            ctx.state(name, text)


def plain(shape, r):
    """Labels which can be told from the lines around them."""
    if shape is None:
        return None
    shape[0] = r.choice([str(r.randrange(1000)), r.randrange(-50, 50), r.randrange(10) / 2,
                         "x" * r.choice([1, 2, 3, 8, 19]), True, "é⟶", "-", "R", (5,), (), [7], {},
                         b"x", 2j])
    plain(shape[1], r)
    plain(shape[2], r)
    return shape


class ShapeDrawings(Scenario):
    """Hand-linked binary trees of all shapes, and general trees."""

    name = "shape_drawings"
    required = ("drawn:BinaryTree", "nodes_decoded", "drawn:Tree", "mirrored")

    def gen(self, r):
        g = strewn(gen_general(r), r) if r.random() < .95 else None
        n = r.choice([70, 130, 200]) if r.random() < .03 else None
        return {"shape": plain(gen_shape(r, n), r), "general": g}, []

    def run(self, ctx, cfg, ops):
        shape = cfg["shape"]
        c = ctx.do("build", build_shape, shape)

        def labels(s):
            return None if s is None else [str(s[0]), labels(s[1]), labels(s[2])]

        def flipped(s):
            return None if s is None else [s[0], flipped(s[2]), flipped(s[1])]

        text = ctx.do("repr", repr, c)
        same_tree(ctx, f"BinaryTree {short(shape)}", text, labels(shape))
        ctx.equal("str() and repr()", str(c), text)
        ctx.do("invert", c.invert)
        same_tree(ctx, f"BinaryTree {short(shape)}, inverted", repr(c), flipped(labels(shape)))
        ctx.ev("mirrored")
        ctx.state(text)
        g = cfg["general"]
        t = Tree()
        if g is None:
            same_drawing(ctx, "Tree", repr(t), "--")
            return

        def node(s):
            n = TreeNode(s[0])
            for k in s[1]:
                n.set_child(node(k))
            return n

        def texts(s):
            return [str(stored(s[0])), [texts(k) for k in s[1]]]

        t._root = node(g)
        same_drawing(ctx, "Tree", ctx.do("repr", repr, t), draw_general(texts(g)))


class TrieDrawings(Scenario):
    """Tries after every operation; suffix tries of all sorts of words."""

    name = "trie_drawings"
    required = ("drawn:Trie", "drawn:RadixTrie", "drawn:SuffixTrie", "marked", "empty")

    def gen(self, r):
        kind = BY_NAME[r.choice(["Trie", "RadixTrie"])]
        nxt = kind.values(r)
        big = r.random() < .03
        return {"kind": kind.name, "start": [nxt() for _ in range(r.choice([60, 150]) * big)],
                "text": suffix_word(r, r.choice([14, 14, 14, 40])).translate(
                    {10: "n", ord("⟶"): "t"})}, \
            [(r.choice(kind.ops), nxt(), frac(r), r.randrange(1 << 20))
             for _ in range(4 if big else r.choice([3, 8, 20]))]

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        c = ctx.do("build", kind.build, cfg["start"])
        for o, v, f, salt in [("none", "", 0, 0)] + ops:
            if o != "none":
                ctx.do(o, kind.apply, c, o, v, f, salt)
            text = ctx.do("repr", repr, c)
            if c.is_empty():
                ctx.ev("empty")
                same_drawing(ctx, f"{kind.name} (empty)", text, "--")
            else:
                shape = self.shape(ctx, c._root)
                words = set(self.spelled(shape[1], ""))
                ctx.check(words == set(c.auto_complete()),
                          f"{kind.name}: its nodes spell {short(sorted(words))}, it completes "
                          f"{short(sorted(c.auto_complete()))}")
                same_drawing(ctx, f"{kind.name} of {short(sorted(c.auto_complete()))}", text,
                             draw_general(shape))
            ctx.state(kind.name, text)
        s = ctx.do("SuffixTrie", SuffixTrie, cfg["text"])
        text = ctx.do("repr", repr, s)
        self.suffixes(ctx, s, cfg["text"], text)
        ctx.state(text)

    ROW = re.compile(r"((?:│ |  )*)([├└])─([┬─]) (.*)")

    @classmethod
    def suffixes(cls, ctx, s, w, text):
        """From the drawing alone: its leaves spell every suffix, each once."""
        who = f"SuffixTrie of {w!r}"
        lines = text.split("\n")
        root = [lines[0], []]
        path = [root]
        bfs = []
        for line in lines[1:]:
            m = cls.ROW.fullmatch(line)
            ctx.check(m is not None and len(m.group(1)) // 2 < len(path),
                      f"{who}: the line {line!r} of its drawing fits nowhere")
            d = len(m.group(1)) // 2
            node = [m.group(4), []]
            path[d][1].append(node)
            path[d + 1:] = [node]
        same_drawing(ctx, who, text, draw_general(root))
        cur = [root]
        while cur:
            cur = [k for n in cur for k in n[1]]
            bfs += [n[0].partition(" ⟶ ")[0] for n in cur]
        ctx.equal(f"{who}: the labels drawn", [str(x) for x in s.to_list()], bfs)
        leaves = {}

        def go(n, prefix):
            for label, sub in n[1]:
                if sub:
                    go([label, sub], prefix + label)
                else:
                    spelled, _, i = label.partition(" ⟶ ")
                    ctx.check(i.isdigit() and int(i) not in leaves,
                              f"{who}: leaf {label!r} is drawn")
                    leaves[int(i)] = prefix + spelled

        go(root, "")
        want = {i: w[i:] + "$" for i in range(len(w) + 1)}
        ctx.check(leaves == want, f"{who}: its leaves spell {short(leaves)}, expected "
                                  f"{short(want)}")

    @classmethod
    def shape(cls, ctx, node):
        label = str(node.get_data())
        if getattr(node, "_is_word", False):
            ctx.ev("marked")
            label += " ✓"
        return [label, [cls.shape(ctx, k) for k in node.get_children()]]

    @classmethod
    def spelled(cls, kids, prefix):
        for label, sub in kids:
            if label.endswith(" ✓"):
                label = label[:-2]
                yield prefix + label
            yield from cls.spelled(sub, prefix + label)
