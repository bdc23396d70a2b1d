"""Workloads and monitors for the tries."""
from . import runtime  # noqa: F401  (sets sys.path)
from .engine import Scenario
from .runtime import Violation, short
from .values import at, frac

from extra.trees.trie import Trie
from extra.trees.radix_trie import RadixTrie
from extra.trees.suffix_trie import SuffixTrie

TRIES = {"Trie": Trie, "RadixTrie": RadixTrie}
ALPHABETS = ["ab", "ab", "abc", "a", "a b", "}{|~", "0123", "aé🙂", "xyz\n", "$a⟶ ",
             "abcdefghijklmnopqrstuvwxyz", "AaBb", "RO T", "a\0b\x01", "e\u0301éê",
             "\\n\"'", "İiıI", "a\t\r\x85\u2028", "ßsſS", "a\u200b\ufeff", "a\U0001f468\u200d"]
ODD = [5, 2.5, True, [], ["a"], ("a",), b"a", {}, object()]


def word_pool(r):
    abc = r.choice(ALPHABETS)
    longest = r.choice([2, 4, 4, 8, 8, 30, 70])
    base = ["".join(r.choice(abc) for _ in range(r.randint(1, longest)))
            for _ in range(r.choice([2, 4, 8]))]

    def nxt():
        x = r.random()
        if x < 0.45:  # related words: prefixes, extensions, forks
            w = r.choice(base)
            y = r.random()
            if y < 0.35:
                w = w[:r.randint(1, len(w))]
            elif y < 0.7:
                w = w + "".join(r.choice(abc) for _ in range(r.randint(1, 3)))
            else:
                k = r.randrange(len(w))
                w = w[:k] + r.choice(abc) + w[k + 1:]
        elif x < 0.6:
            w = r.choice(base)
        else:
            w = "".join(r.choice(abc) for _ in range(r.randint(1, longest)))
        if len(base) < 40:
            base.append(w)
        return w

    return nxt


def blank(w):
    return not w.strip()


class TrieHistory(Scenario):
    """monitors: "set" (words, prefixes, completions) or "nodes" (structure)."""

    def __init__(self, name, monitors):
        self.name = name
        self.monitors = monitors
        if "set" in monitors:
            self.required = tuple(f"{k}:{e}" for k in TRIES for e in
                                  ("new", "again", "hit", "absent", "found", "missing",
                                   "prefix", "no_prefix", "complete", "blank", "odd"))
        else:
            self.required = tuple(f"{k}:{e}" for k in TRIES for e in ("nodes", "hit")) + \
                ("compressed", "pruned")

    def gen(self, r):
        nxt = word_pool(r)
        w = r.choice([(6, 3, 2, 2, 2, 0, 1), (8, 1, 1, 1, 1, 0, 0), (4, 7, 1, 1, 1, 0, 1),
                      (5, 4, 2, 2, 2, 1, 1), (8, 0, 1, 2, 2, 0, 0)])
        ops = [(o, nxt(), frac(r), frac(r), r.randrange(1 << 20)) for o in
               r.choices(["insert", "remove", "in", "prefix", "complete", "clear", "odd"], w,
                         k=r.choice([4, 10, 25, 60]))]
        sizes = [0, 0, 2, 6, 15]
        if r.random() < .03:
            sizes, ops = [70, 150, 300], ops[:5]
            abc = r.choice(["ab", "abcd", "abcdefghijklmnopqrstuvwxyzé"])
            nxt = lambda: "".join(r.choice(abc) for _ in range(r.choice([2, 5, 9])))
        return {"kind": r.choice(list(TRIES)),
                "start": [nxt() for _ in range(r.choice(sizes))]}, ops

    def run(self, ctx, cfg, ops):
        kind = cfg["kind"]
        c = ctx.do(f"{kind}()", TRIES[kind])
        judge = "set" in self.monitors
        M = set()
        removed = [False]
        for w in cfg["start"]:
            if not blank(w):
                ctx.do("insert", c.insert, w)
                M.add(w)
        self.look(ctx, kind, c, M, removed[0], judge, 0)
        for o, w, f, g, salt in ops:
            ws = sorted(M)
            if o == "insert":
                if blank(w):
                    ctx.rejects("insert(blank)", ValueError, c.insert, w)
                    ctx.ev(kind + ":blank")
                else:
                    ctx.do(o, c.insert, w)
                    ctx.ev(f"{kind}:{'again' if w in M else 'new'}")
                    M.add(w)
            elif o == "remove":
                t = self.pick(ws, w, f, g, salt)
                if t == "":
                    continue
                ctx.do(o, c.remove, t)
                ctx.ev(f"{kind}:{'hit' if t in M else 'absent'}")
                if judge:
                    ctx.check(bool(ctx.warned()) is (t not in M),
                              f"{kind}: removing {t!r} from {short(ws, 300)} gave "
                              f"{ctx.warned()} warnings")
                if t in M:
                    removed[0] = True
                M.discard(t)
            elif o == "in":
                t = self.pick(ws, w, f, g, salt)
                got = ctx.do(o, c.__contains__, t)
                ctx.ev(f"{kind}:{'found' if t in M else 'missing'}")
                if judge:
                    ctx.equal(f"`{t!r} in` {kind} {short(ws, 300)}", got, t in M)
            elif o == "prefix":
                t = self.pick(ws, w, f, g, salt)
                got = ctx.do(o, c.has_prefix, t)
                want = t == "" or any(x.startswith(t) for x in ws)
                ctx.ev(f"{kind}:{'prefix' if want else 'no_prefix'}")
                if judge:
                    ctx.equal(f"{kind}.has_prefix({t!r}) of {short(ws, 300)}", got, want)
            elif o == "complete":
                t = self.pick(ws, w, f, g, salt)
                self.complete(ctx, kind, c, M, t, judge, salt)
            elif o == "clear":
                ctx.do(o, c.clear)
                M = set()
                removed[0] = False
            else:
                t = ODD[salt % len(ODD)]
                ctx.ev(kind + ":odd")
                ctx.equal(f"`{short(t)} in` {kind}", ctx.do("in(odd)", c.__contains__, t), False)
                ctx.equal(f"has_prefix({short(t)}) of {kind}",
                          ctx.do("prefix(odd)", c.has_prefix, t), False)
                ctx.rejects("insert(odd)", TypeError, c.insert, t)
                ctx.rejects("insert(None)", ValueError, c.insert, None)
                ctx.rejects("insert('')", ValueError, c.insert, "")
                ctx.do("remove(odd)", c.remove, t)
                if judge:
                    ctx.check(ctx.warned(), f"{kind}: removing {short(t)} gave no warning")
                ctx.do("remove('')", c.remove, "")
            self.look(ctx, kind, c, M, removed[0], judge, salt)
        if judge:  # removing every word leaves nothing
            for w in sorted(M):
                ctx.do("remove", c.remove, w)
            ctx.equal(f"{kind}: completions after removing every word", c.auto_complete(), [])
            ctx.equal(f"{kind}: is_empty() after removing every word", c.is_empty(), True)

    @staticmethod
    def pick(ws, w, f, g, salt):
        if ws and salt % 8:
            x = ws[at(f, len(ws))]
            return (x, x, x[:at(g, len(x) + 1)], x + w[:1], x[:at(g, len(x))] + w,
                    x[:-1], x[1:])[salt // 8 % 7]
        return w

    @staticmethod
    def complete(ctx, kind, c, M, t, judge, salt):
        if t == "" and salt & 1:
            got = ctx.do("complete()", c.auto_complete)
        else:
            got = ctx.do("complete", c.auto_complete, t)
        ctx.ev(kind + ":complete")
        if judge:
            want = sorted(x for x in M if x.startswith(t))
            ctx.check(type(got) is list and sorted(got) == want,
                      f"{kind}.auto_complete({t!r}) of {short(sorted(M), 300)} gives "
                      f"{short(got)}, expected {short(want)}")

    def look(self, ctx, kind, c, M, removed, judge, salt):
        if judge:
            got = ctx.do("words", c.auto_complete, "")
            if sorted(got) != sorted(M):
                raise Violation(f"{kind} holds the words {short(sorted(got), 400)}, expected "
                                f"{short(sorted(M), 400)}")
            ctx.equal(f"{kind}: is_empty() with {len(M)} words", c.is_empty(), not M)
            if salt % 4 == 1:
                for w in M:
                    ctx.check(w in c, f"{kind}: {w!r} isn't found in {short(sorted(M), 300)}")
                    for k in range(len(w)):
                        p = w[:k]
                        ctx.check((p in c) is (p in M), f"{kind}: `{p!r} in` "
                                                        f"{short(sorted(M), 300)}")
                        ctx.check(c.has_prefix(p) is True, f"{kind}: has_prefix({p!r}) with "
                                                           f"{w!r} stored")
            ctx.state(kind, tuple(sorted(M)[:8]), len(M))
        else:
            check_trie_nodes(ctx, kind, c, removed)


def check_trie_nodes(ctx, kind, c, removed):
    """Walks the real nodes (only labels, links and marks are judged)."""
    root = c._root
    ctx.ev(kind + ":nodes")
    ctx.check(root is not None, f"{kind}: no root")
    levels, cur, seen, n, leaves = [], [(root, "")], set(), 0, 0
    while cur:
        nxt = []
        for node, text in cur:
            ctx.check(id(node) not in seen, f"{kind}: {short(node)} is reachable twice")
            seen.add(id(node))
            n += 1
            kids = node.get_children()
            label = node.get_data()
            firsts = [k.get_data()[:1] for k in kids]
            ctx.check(len(set(firsts)) == len(firsts),
                      lambda: f"{kind}: children of {short(node)} start with {firsts}")
            for k in kids:
                ctx.check(k.get_parent() is node,
                          lambda: f"{kind}: parent of {short(k)} is {short(k.get_parent())}, "
                                  f"it hangs below {short(node)}")
                ctx.check(k.get_data() != "" and node.get_child(k.get_data()[0]) is k,
                          lambda: f"{kind}: {short(k)} isn't found below {short(node)} by its "
                                  f"first character")
            ctx.check(node.is_leaf() is (not kids), f"{kind}: is_leaf() of {short(node)}")
            leaves += not kids
            nxt.extend((k, text + k.get_data()) for k in kids)
            if node is root:
                continue
            if kind == "Trie":
                ctx.check(len(label) == 1, lambda: f"Trie: a node holds {label!r}")
            if not kids:
                ctx.check(text in c, lambda: f"{kind}: the leaf {label!r} ends no word")
                ctx.ev("pruned")
            if kind == "RadixTrie" and not removed:
                ctx.check(text in c or len(kids) >= 2,
                          lambda: f"RadixTrie: {label!r} is no word and doesn't branch")
                ctx.ev("compressed")
        levels.append([x.get_data() for x, _ in cur])
        cur = nxt
    ctx.check(len(c) == n, f"{kind}: len() says {len(c)}, there are {n} nodes")
    flat = [x for l in levels[1:] for x in l]
    ctx.equal(f"{kind}.to_list()", ctx.do("to_list", c.to_list), flat)
    ctx.equal(f"iterating {kind}", ctx.do("iter", list, c), flat)
    ctx.equal(f"{kind}.get_nodes_per_level()",
              ctx.do("get_nodes_per_level", c.get_nodes_per_level), levels[1:])
    ctx.equal(f"{kind}.get_height()", ctx.do("get_height", c.get_height), len(levels) - 1)
    ctx.equal(f"{kind}.get_depth()", ctx.do("get_depth", c.get_depth), 0)
    ctx.equal(f"{kind}.count_leaf_nodes()", ctx.do("count_leaf_nodes", c.count_leaf_nodes),
              leaves if n > 1 else 0)
    ctx.equal(f"{kind}.is_empty() with {n} nodes", c.is_empty(), n == 1)
    ctx.state(kind, repr(levels)[:300])


# -------------------------------------------------------------- suffix tries --
SUFFIX_ALPHABETS = ["ab", "ab", "a", "abc", "abn", "01", "aé🙂", "}{|", "acgt",
                    "abcdefghijklmnopqrstuvwxyz", "AaBb", "a b", "a ⟶", "!# ", "x\n",
                    "0 ⟶1", "a\0\x01", "e\u0301é", "\\n\"", "İiıI", "a\t\r\x85", "ßsſS"]


def suffix_labels(w):
    """The edge labels of the suffix tree of w$, each suffix ending in a leaf,
    and its height."""
    out, height = [], [0]

    def go(starts, depth, level=1):
        height[0] = max(height[0], level)
        groups = {}
        for i in starts:
            groups.setdefault((w + "$")[i + depth], []).append(i)
        for group in groups.values():
            if len(group) == 1:
                out.append((w + "$")[group[0] + depth:])
                continue
            k = depth + 1
            while len({(w + "$")[i + k] for i in group}) == 1:
                k += 1
            out.append(w[group[0] + depth:group[0] + k])
            go(group, k, level + 1)

    go(range(len(w) + 1), 0)
    return sorted(out), height[0]


def suffix_word(r, longest=60):
    abc = r.choice(SUFFIX_ALPHABETS)
    n = r.choice([1, 1, 2, 3, 4, 5, 7, 10, 15, 25, longest])
    style = r.choice(["random", "random", "period", "fib", "palin", "uniq"])
    if style == "period":
        p = "".join(r.choice(abc) for _ in range(r.randint(1, 4)))
        w = (p * n)[:n]
    elif style == "fib":
        a, b = abc[0], abc[0] + abc[-1]
        while len(b) < n:
            a, b = b, b + a
        w = b[:n]
    elif style == "palin":
        h = "".join(r.choice(abc) for _ in range(max(1, n // 2)))
        w = h + h[::-1]
    elif style == "uniq":
        w = "abcdefghijklmnopqrstuvwxyz"[:min(n, 26)]
    else:
        w = "".join(r.choice(abc) for _ in range(n))
    return w or "a"


def occurrences(w, p):
    return sum(w.startswith(p, i) for i in range(len(w) - len(p) + 1)) if p else 0


class SuffixSearch(Scenario):
    required = ("substr:yes", "substr:no", "count:0", "count:1", "count:many", "array",
                "odd", "suffix_leaves")
    name = "suffix"

    def gen(self, r):
        w = suffix_word(r, r.choice([40, 80, 150] if r.random() < .98 else [200, 280]))
        abc = w + "aé ⟶"
        ops = []
        for _ in range(r.choice([4, 10, 25])):
            i, k = r.randrange(len(w)), r.choice([0, 1, 1, 2, 3, 5, 99])
            p = w[i:i + k]
            x = r.random()
            if x < 0.25:
                p = p + r.choice(abc)
            elif x < 0.4:
                p = "".join(r.choice(abc) for _ in range(r.randint(1, 5)))
            elif x < 0.45:
                p = w + p
            ops.append((p, r.randrange(64)))
        return {"word": w, "dollar": r.choice([None, None, None, 0, len(w), len(w) // 2])}, ops

    def run(self, ctx, cfg, ops):
        w = cfg["word"]
        given = w
        if cfg["dollar"] is not None:
            given = w[:cfg["dollar"]] + "$" + w[cfg["dollar"]:]
        c = ctx.do("SuffixTrie", SuffixTrie, given)
        n = len(w)
        for p, salt in ops:
            if "$" in p:
                continue
            want = p in w
            ctx.ev("substr:yes" if want else "substr:no")
            ctx.equal(f"has_substring({p!r}) of {w!r}", ctx.do("has_substring",
                                                               c.has_substring, p), want)
            k = occurrences(w, p)
            ctx.ev("count:" + ("many" if k > 1 else str(k)))
            ctx.equal(f"occurrences of {p!r} in {w!r}",
                      ctx.do("count", c.count_pattern_occurrences, p), k)
            if salt % 8 == 0:
                t = ODD[salt // 8 % len(ODD)]
                ctx.ev("odd")
                ctx.equal(f"has_substring({short(t)})", ctx.do("has_substring(odd)",
                                                               c.has_substring, t), False)
                ctx.equal(f"occurrences of {short(t)}",
                          ctx.do("count(odd)", c.count_pattern_occurrences, t), 0)
        ctx.ev("array")
        want = sorted(range(n), key=lambda i: w[i:])
        got = ctx.do("array", c.to_suffix_array)
        if all(x > "$" for x in w):
            want.insert(0, n)
        else:  # whether the empty suffix, drawn as "$", goes before a blank isn't said
            ctx.equal(f"places of {n} in the suffix array of {w!r}", got.count(n), 1)
            got = [i for i in got if i != n]
        ctx.equal(f"suffix array of {w!r}", got, want)
        ctx.ev("suffix_leaves")
        ctx.equal(f"leaves of the suffix trie of {w!r}",
                  ctx.do("count_leaf_nodes", c.count_leaf_nodes), n + 1)
        labels, height = suffix_labels(w)
        ctx.equal(f"number of nodes of the suffix trie of {w!r}", len(c), len(labels) + 1)
        ctx.equal(f"sorted labels of the suffix trie of {w!r}",
                  sorted(ctx.do("to_list", c.to_list)), labels)
        ctx.equal(f"sorted iteration of the suffix trie of {w!r}",
                  sorted(ctx.do("iter", list, c)), labels)
        if n <= 26:
            for s in {w[i:j] for i in range(n) for j in range(i + 1, n + 1)}:
                ctx.check(c.has_substring(s), f"{s!r} isn't found in {w!r}")
        ctx.equal(f"height of the suffix trie of {w!r}", ctx.do("get_height", c.get_height),
                  height)
        ctx.equal(f"depth of the suffix trie of {w!r}", ctx.do("get_depth", c.get_depth), 0)
        ctx.rejects("SuffixTrie('')", ValueError, SuffixTrie, "")
        ctx.rejects("SuffixTrie(None)", ValueError, SuffixTrie, None)
        ctx.rejects("SuffixTrie(odd)", TypeError, SuffixTrie, ODD[n % len(ODD)])
        ctx.state(w)


def lcp(a, b):
    k = 0
    while k < len(a) and k < len(b) and a[k] == b[k]:
        k += 1
    return a[:k]


class SuffixRepeats(Scenario):
    required = ("repeat", "no_repeat", "several", "lca", "lca:deep", "lca_bad", "lca_last")
    name = "repeats"

    def gen(self, r):
        w = suffix_word(r, r.choice([30, 60, 120]))
        return {"word": w, "dollar": r.random() < .1}, \
            [(r.randrange(len(w) + 1), r.randrange(len(w) + 1), r.randrange(32))
             for _ in range(r.choice([5, 15]))]

    def run(self, ctx, cfg, ops):
        w = cfg["word"]
        n = len(w)
        c = ctx.do("SuffixTrie", SuffixTrie, w + "$" if cfg["dollar"] else w)
        want, k = [""], n - 1
        while k > 0:
            seen, twice = set(), set()
            for i in range(n - k + 1):
                s = w[i:i + k]
                (twice if s in seen else seen).add(s)
            if twice:
                want = sorted(twice)
                break
            k -= 1
        ctx.ev("no_repeat" if want == [""] else "repeat")
        if len(want) > 1:
            ctx.ev("several")
        for m in ("get_longest_common_substring", "get_longest_repeated_substring"):
            got = ctx.do(m, getattr(c, m))
            ctx.check(type(got) is list and sorted(got) == want,
                      f"{m}() of {w!r} gives {short(got)}, expected {short(want)}")
        for i, j, salt in ops:
            if i == j:
                others = [lcp(w[i:], w[x:]) for x in range(n + 1) if x != i]
                e = max(others, key=len, default="")
            else:
                e = lcp(w[i:], w[j:])
            got = ctx.do("lca", c.get_lowest_common_ancestor, i, j)
            ctx.ev("lca:deep" if len(e) > 1 else "lca")
            if n in (i, j):
                ctx.ev("lca_last")
            ctx.equal(f"lowest common ancestor of leaves {i} and {j} of {w!r}", got, e)
            ctx.equal(f"... of {j} and {i}", ctx.do("lca", c.get_lowest_common_ancestor, j, i),
                      e)
            if salt < 8:
                ctx.ev("lca_bad")
                a, exc = [(n + 1, ValueError), (-1, ValueError), ("0", TypeError),
                          (1.0, TypeError), (None, TypeError), (n + 99, ValueError),
                          (-n - 1, ValueError), ([], TypeError)][salt]
                ctx.rejects("lca(bad)", exc, c.get_lowest_common_ancestor, a, j)
                ctx.rejects("lca(bad)", exc, c.get_lowest_common_ancestor, j, a)
        ctx.state(w)
