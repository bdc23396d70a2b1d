"""One description per container class: how to make, change, empty and observe
it through its public interface.  The cross-cutting monitors are driven by it."""
from . import runtime  # noqa: F401
from .runtime import short
from .values import Thing, at, num_pool, obj_pool

from extra.interface import Extra
from extra.lists.linked_list import LinkedList, Node
from extra.lists.doubly_linked_list import DoublyLinkedList, DoublyNode
from extra.lists.circular_linked_list import CircularLinkedList
from extra.lists.stack import Stack
from extra.lists.queue import Queue
from extra.lists.deque import Deque
from extra.lists.priority_queue import PriorityQueue
from extra.lists.skip_list import SkipList
from extra.trees.bst import BST
from extra.trees.avl import AVL
from extra.trees.red_black_tree import RedBlackTree
from extra.trees.splay_tree import SplayTree
from extra.trees.treap import Treap
from extra.trees.min_heap import MinHeap
from extra.trees.max_heap import MaxHeap
from extra.trees.trie import Trie
from extra.trees.radix_trie import RadixTrie
from .tries import word_pool, blank

INF = float("inf")


def key(v):
    """A comparable stand-in telling apart everything a user can tell apart."""
    if isinstance(v, Extra):
        return observe(v)
    if type(v) in (list, tuple):
        return (type(v).__name__,) + tuple(key(x) for x in v)
    return type(v).__name__, repr(v)


def drawing(c):
    t = kind_of(c).cls
    if t in (PriorityQueue, Treap):
        was, t.SHOW_PRIORITY = t.SHOW_PRIORITY, True
        try:
            return repr(c)
        finally:
            t.SHOW_PRIORITY = was
    return repr(c)


def kind_of(c):
    return next(KIND_OF[t] for t in type(c).__mro__ if t in KIND_OF)


def observe(c, chance=True):
    """Everything the public interface says about an instance right now
    (without what depends on random choices, if `chance` is off)."""
    k = kind_of(c)
    out = [("type", type(c).__name__), ("len", len(c)), ("is_empty", c.is_empty())]
    if chance or not isinstance(c, SkipList):
        out.append(("drawing", drawing(c)))
    if k.iterable:
        out.append(("iteration", key(list(c))))
        out.append(("to_list", key(c.to_list())))
    for name in k.facts:
        f = getattr(c, name)
        if not chance and isinstance(c, SkipList) and name == "get_height":
            continue
        try:
            out.append((name, key(f())))
        except (IndexError, ValueError) as e:
            out.append((name, type(e).__name__))
    return out


def difference(a, b):
    for (n, x), (m, y) in zip(a, b):
        if n != m or x != y:
            return f"{n}: {short(x, 300)} against {short(y, 300)}"
    return "different observations"


class Kind:
    iterable = True
    facts = ()
    pool = "obj"
    settled = False  # on: all the priorities come from the workload, none by chance

    def __init__(self, cls):
        self.cls = cls
        self.name = cls.__name__

    def make(self, cap=None):
        return self.cls()

    def build(self, vals, cap=None):
        c = self.make(cap)
        for i, v in enumerate(vals):
            self.add(c, v, i)
        return c

    def values(self, r):
        if self.pool == "obj":
            return obj_pool(r)[1]
        if self.pool == "num":
            return num_pool(r)[1]
        nxt = word_pool(r)

        def word():
            w = nxt()
            while blank(w):
                w = nxt() + "a"
            return w

        return word


EXTRAS = []


def any_extra(salt):
    """Something out of this package, of any of its classes, empty or not: none of
    it can be put inside a collection."""
    if not EXTRAS:
        from extra.trees.binary_tree import BinaryTree, BinaryTreeNode
        from extra.trees.suffix_trie import SuffixTrie
        from extra.trees.tree import Tree, TreeNode
        from extra.trees.trie import TrieNode
        EXTRAS.extend([Extra, Tree, BinaryTree, lambda: SuffixTrie("ab"), lambda: Node(1),
                       lambda: DoublyNode(1), lambda: TreeNode(1), lambda: BinaryTreeNode(1),
                       lambda: TrieNode("a")])
        for k in KINDS:
            EXTRAS.append(k.make)
            EXTRAS.append(lambda k=k: k.build(["a" if k.pool == "word" else 1]))
    return EXTRAS[salt % len(EXTRAS)]()


class ListKind(Kind):
    ops = ("add_front", "add_end", "insert", "set", "del", "remove_front", "remove_end",
           "remove", "remove_first", "extend", "rotl", "rotr")
    drains = ("front", "end", "del", "value")

    def add(self, c, v, i=0):
        c.add_end(v)

    def apply(self, c, o, v, f, salt):
        n = len(c)
        if o in ("add_front", "add_end"):
            getattr(c, o)(v)
        elif o == "insert":
            c.insert(at(f, n + 1), v)
        elif o == "set":
            if n:
                c[at(f, n)] = v
        elif o == "del":
            if n:
                del c[at(f, n)]
        elif o in ("remove_front", "remove_end"):
            getattr(c, o)()
        elif o == "remove":
            c.remove(v)
        elif o == "remove_first":
            c.remove(v, all=False)
        elif o == "extend":
            c.extend(self.cls([v, salt % 3]))
        elif o == "rotl":
            c.rotate_left(salt % 9)
        else:
            c.rotate_right(salt % 9)

    def drain(self, c, how, salt):
        if how == "front":
            c.remove_front()
        elif how == "end":
            c.remove_end()
        elif how == "del":
            del c[salt % len(c)]
        else:
            v = c[salt % len(c)]
            # text with line breaks is kept escaped, so it's removed by position
            c.remove(v, all=bool(salt & 64))

    def reads(self, c, v, f, salt):
        n = len(c)
        yield "in", lambda: v in c
        yield "count", lambda: c.count(v)
        yield "copy", lambda: key(c.copy())
        yield "reverse", lambda: key(c.reverse())
        yield "rotate", lambda: key(c.rotate_left(salt % 9, inplace=False))
        yield "rotate_right", lambda: key(c.rotate_right(salt % 9, inplace=False))
        yield "split", lambda: key(c.split(at(f, n + 1)))
        yield "compare", lambda: (c == self.cls(c), c != self.cls(c), c <= c, c >= c)
        if n:
            yield "getitem", lambda: key(c[at(f, n)])
            if self.name != "CircularLinkedList":
                yield "getitem(-)", lambda: key(c[at(f, n) - n])
                yield "slice", lambda: key(c[at(f, n):n:1 + salt % 3])
                yield "slice(-)", lambda: key(c[::-1 - salt % 3])
        yield "extend other", lambda: self.cls([v]).extend(c)
        yield "construct", lambda: key(self.cls(c))

    def bad(self, c, salt):
        n = len(c)
        x = self.cls([1])
        circ = self.name == "CircularLinkedList"
        V, T, I = ValueError, TypeError, IndexError
        k = at((salt % 97) / 97, n) if n else 0
        yield "add_front(None)", V, lambda: c.add_front(None)
        yield "add_end(None)", V, lambda: c.add_end(None)
        yield "insert(None)", V, lambda: c.insert(k, None)
        yield "add_front(container)", T, lambda: c.add_front(any_extra(salt))
        yield "add_end(container)", T, lambda: c.add_end(any_extra(salt))
        yield "insert(container)", T, lambda: c.insert(k, any_extra(salt))
        yield "insert(-1)", I, lambda: c.insert(-1, 5)
        yield "insert('0')", T, lambda: c.insert("0", 5)
        yield "insert(1.0)", T, lambda: c.insert(1.0, 5)
        yield "insert(True)", T, lambda: c.insert(True, 5)
        yield "insert(slice)", I, lambda: c.insert(slice(0, 1), 5)
        yield "remove(None)", V, lambda: c.remove(None)
        yield "remove(all=1)", T, lambda: c.remove(1, all=1)
        yield "extend(list)", T, lambda: c.extend([1, 2])
        yield "extend(None)", T, lambda: c.extend(None)
        yield "rotate_left(-1)", V, lambda: c.rotate_left(-1)
        yield "rotate_right(-1)", V, lambda: c.rotate_right(-1)
        yield "rotate_left('1')", T, lambda: c.rotate_left("1")
        yield "rotate_right(1.5)", T, lambda: c.rotate_right(1.5)
        yield "rotate_left(True)", T, lambda: c.rotate_left(True)
        yield "rotate_left(1, inplace=1)", T, lambda: c.rotate_left(1, inplace=1)
        yield "rotate_left(2, inplace='no')", T, lambda: c.rotate_left(2, inplace="no")
        if self.name == "DoublyLinkedList":  # of the others it isn't said
            yield "rotate_right(1, inplace=1)", T, lambda: c.rotate_right(1, inplace=1)
            yield "rotate_right(2, inplace='')", T, lambda: c.rotate_right(2, inplace="")
        yield "remove(all='all')", T, lambda: c.remove(c[0] if n else 1, all="all")
        yield "remove(all=None)", T, lambda: c.remove(c[0] if n else 1, all=None)
        yield "split(-1)", I, lambda: c.split(-1)
        yield "split('1')", T, lambda: c.split("1")
        yield "c['0']", T, lambda: c["0"]
        yield "c[1.0]", T, lambda: c[1.0]
        yield "c[True]", T, lambda: c[True]
        yield "split(1.0)", T, lambda: c.split(1.0)
        yield "split(False)", T, lambda: c.split(False)
        yield "c[0.0] = 1", T, lambda: c.__setitem__(0.0, 1)
        yield "c[False] = 1", T, lambda: c.__setitem__(False, 1)
        yield "del c[0.0]", T, lambda: c.__delitem__(0.0)
        yield "del c[False]", T, lambda: c.__delitem__(False)
        yield "c['0'] = 1", T, lambda: c.__setitem__("0", 1)
        yield "c[-1] = 1", I, lambda: c.__setitem__(-1, 1)
        yield "c[0:1] = 1", I, lambda: c.__setitem__(slice(0, 1), 1)
        yield "del c['0']", T, lambda: c.__delitem__("0")
        yield "del c[-1]", I, lambda: c.__delitem__(-1)
        yield "del c[0:1]", I, lambda: c.__delitem__(slice(0, 1))
        if n:
            yield "c[k] = None", V, lambda: c.__setitem__(k, None)
            yield "c[k] = container", T, lambda: c.__setitem__(k, x)
        if circ:
            yield "c[-1]", I, lambda: c[-1]
            yield "c[0:1]", I, lambda: c[0:1]
            if not n:
                yield "c[0] of empty", I, lambda: c[0]
                yield "c[0] = 1 of empty", I, lambda: c.__setitem__(0, 1)
        else:
            yield "insert(n+1)", I, lambda: c.insert(n + 1, 5)
            yield "split(n+1)", I, lambda: c.split(n + 1)
            yield "c[n]", I, lambda: c[n]
            yield "c[-n-1]", I, lambda: c[-n - 1]
            yield "c[n] = 1", I, lambda: c.__setitem__(n, 1)
            yield "c[n+1] = 1", I, lambda: c.__setitem__(n + 1, 1)
            yield "del c[n]", I, lambda: c.__delitem__(n)
            yield "del c[n+5]", I, lambda: c.__delitem__(n + 5)
        other = DoublyLinkedList if self.name != "DoublyLinkedList" else CircularLinkedList
        if self.name != "LinkedList":
            yield "extend(other kind)", T, lambda: c.extend(other([1]))
            yield "extend(LinkedList)", T, lambda: c.extend(LinkedList([1]))
        yield "ctor(5)", T, lambda: self.cls(5)
        yield "ctor([1, None])", V, lambda: self.cls([1, None])
        yield "ctor([1, container])", T, lambda: self.cls([1, any_extra(salt)])


class StackKind(Kind):
    iterable = False
    facts = ("is_full", "peek")
    ops = ("push", "push", "push", "pop")
    drains = ("pop",)

    def make(self, cap=None):
        return self.cls() if cap is None else self.cls(cap)

    def add(self, c, v, i=0):
        if not c.is_full():
            c.push(v)

    def apply(self, c, o, v, f, salt):
        if o == "push":
            return self.add(c, v)
        return c.pop()

    def drain(self, c, how, salt):
        c.pop()

    def reads(self, c, v, f, salt):
        if len(c):
            yield "peek", lambda: key(c.peek())
        yield "is_full", c.is_full

    def bad(self, c, salt):
        V, T = ValueError, TypeError
        if c.is_full():
            yield "push into full", OverflowError, lambda: c.push(5)
            yield "push(None) into full", (V, OverflowError), lambda: c.push(None)
        else:
            yield "push(None)", V, lambda: c.push(None)
            yield "push(container)", T, lambda: c.push(any_extra(salt))
            yield "push(list)", T, lambda: c.push(LinkedList([1]))
        if not len(c):
            yield "peek of empty", IndexError, c.peek
        yield "Stack('3')", T, lambda: self.cls("3")
        yield "Stack(-1)", V, lambda: self.cls(-1)
        yield "Stack(True)", T, lambda: self.cls(True)
        yield "Stack(-0.1)", V, lambda: self.cls(-.1)
        yield "Stack(None)", T, lambda: self.cls(None)


class QueueKind(Kind):
    iterable = False
    facts = ("is_full", "top")
    ops = ("enqueue", "enqueue", "enqueue", "dequeue")
    drains = ("dequeue",)

    def make(self, cap=None):
        return self.cls() if cap is None else self.cls(cap)

    def add(self, c, v, i=0):
        c.enqueue(v)

    def apply(self, c, o, v, f, salt):
        if o == "enqueue":
            return c.enqueue(v)
        return c.dequeue()

    def drain(self, c, how, salt):
        c.dequeue()

    def reads(self, c, v, f, salt):
        if len(c):
            yield "top", lambda: key(c.top())
        yield "is_full", c.is_full

    def bad(self, c, salt):
        V, T = ValueError, TypeError
        yield "enqueue(None)", V, lambda: c.enqueue(None)
        yield "enqueue(container)", T, lambda: c.enqueue(any_extra(salt))
        yield "enqueue(queue)", T, lambda: c.enqueue(self.cls())
        if not len(c):
            yield "top of empty", IndexError, c.top
        yield "ctor('3')", T, lambda: self.cls("3")
        yield "ctor(-1)", V, lambda: self.cls(-1)
        yield "ctor(None)", T, lambda: self.cls(None)
        yield "ctor(True)", T, lambda: self.cls(True)


class DequeKind(QueueKind):
    facts = ("is_full", "get_left", "get_right")
    ops = ("append_left", "append_right", "pop_left", "pop_right")
    drains = ("left", "right", "both")

    def add(self, c, v, i=0):
        (c.append_left if i % 3 else c.append_right)(v)

    def apply(self, c, o, v, f, salt):
        if o.startswith("append"):
            return getattr(c, o)(v)
        return getattr(c, o)()

    def drain(self, c, how, salt):
        if how == "left" or how == "both" and salt & 1:
            c.pop_left()
        else:
            c.pop_right()

    def reads(self, c, v, f, salt):
        if len(c):
            yield "get_left", lambda: key(c.get_left())
            yield "get_right", lambda: key(c.get_right())
        yield "is_full", c.is_full

    def bad(self, c, salt):
        V, T = ValueError, TypeError
        yield "append_left(None)", V, lambda: c.append_left(None)
        yield "append_right(None)", V, lambda: c.append_right(None)
        yield "append_left(container)", T, lambda: c.append_left(any_extra(salt))
        yield "append_right(container)", T, lambda: c.append_right(LinkedList())
        if not len(c):
            yield "get_left of empty", IndexError, c.get_left
            yield "get_right of empty", IndexError, c.get_right
        yield "ctor('3')", T, lambda: self.cls("3")
        yield "ctor(-1)", V, lambda: self.cls(-1)
        yield "ctor(False)", T, lambda: self.cls(False)


class PriorityKind(QueueKind):
    ops = ("enqueue", "enqueue", "enqueue", "enqueue", "dequeue", "lowest")
    drains = ("highest", "lowest", "both")

    def add(self, c, v, i=0):
        c.enqueue(v, (i * 7) % 5)

    def apply(self, c, o, v, f, salt):
        if o == "enqueue":
            p = (None, salt % 5, -(salt % 7), salt / 8)[salt % 4]
            if self.settled and p is None:
                p = 3
            return c.enqueue(v, p) if salt & 8 or p is not None else c.enqueue(v)
        return c.dequeue(lowest_priority=o == "lowest")

    def drain(self, c, how, salt):
        c.dequeue(how == "lowest" or how == "both" and bool(salt & 1))

    def bad(self, c, salt):
        yield from super().bad(c, salt)
        T = TypeError
        yield "enqueue(1, 'high')", T, lambda: c.enqueue(1, "high")
        yield "enqueue(1, [])", T, lambda: c.enqueue(1, [])
        yield "enqueue(1, True)", T, lambda: c.enqueue(1, True)
        yield "enqueue(None, 1)", ValueError, lambda: c.enqueue(None, 1)


class SkipKind(Kind):
    pool = "num"
    facts = ("get_height",)
    ops = ("insert", "insert", "insert", "remove", "del")
    drains = ("remove", "del")

    def add(self, c, v, i=0):
        c.insert(v)

    def apply(self, c, o, v, f, salt):
        if o == "insert":
            c.insert(v)
        elif o == "remove":
            c.remove(v)
        elif len(c):
            del c[at(f, len(c))]

    def drain(self, c, how, salt):
        i = salt % len(c)
        if how == "del":
            del c[i]
        else:
            c.remove(c[i])

    def reads(self, c, v, f, salt):
        yield "in", lambda: v in c
        yield "in(odd)", lambda: "x" in c
        if len(c):
            yield "getitem", lambda: key(c[at(f, len(c))])

    def bad(self, c, salt):
        n = len(c)
        V, T, I = ValueError, TypeError, IndexError
        yield "insert(None)", V, lambda: c.insert(None)
        yield "insert('1')", T, lambda: c.insert("1")
        yield "insert(True)", T, lambda: c.insert(True)
        yield "insert([])", T, lambda: c.insert([])
        yield "insert(container)", T, lambda: c.insert(any_extra(salt))
        yield "c[n]", I, lambda: c[n]
        yield "c[-1]", I, lambda: c[-1]
        yield "c['0']", T, lambda: c["0"]
        yield "c[0:1]", I, lambda: c[0:1]
        yield "c[0.0]", T, lambda: c[0.0]
        yield "c[True]", T, lambda: c[True]
        yield "c[None]", T, lambda: c[None]
        yield "del c[0.0]", T, lambda: c.__delitem__(0.0)
        yield "del c[False]", T, lambda: c.__delitem__(False)
        yield "del c[0:1]", I, lambda: c.__delitem__(slice(0, 1))
        yield "del c[n]", I, lambda: c.__delitem__(n)
        yield "del c[-1]", I, lambda: c.__delitem__(-1)
        yield "del c['0']", T, lambda: c.__delitem__("0")
        yield "ctor(5)", T, lambda: self.cls(5)
        yield "ctor([1, 'x'])", T, lambda: self.cls([1, "x"])
        yield "ctor([1, None])", V, lambda: self.cls([1, None])


SHAPE_FACTS = ("get_height", "get_depth", "count_leaf_nodes", "is_balanced", "is_perfect",
               "is_strict", "get_nodes_per_level", "preorder_traverse", "postorder_traverse",
               "inorder_traverse", "breadth_first_traverse", "depth_first_traverse")


class SearchKind(Kind):
    pool = "num"
    facts = ("get_min", "get_max") + SHAPE_FACTS
    ops = ("insert", "insert", "insert", "remove", "remove_one")
    drains = ("remove", "min", "max", "root")

    def __init__(self, cls):
        super().__init__(cls)
        if cls is RedBlackTree:
            self.facts += ("get_black_height",)
        if cls is SplayTree:
            self.ops += ("in",)

    def add(self, c, v, i=0):
        if self.name == "Treap" and (i % 2 or self.settled):
            c.insert(v, (i * 13) % 11)
        else:
            c.insert(v)

    def apply(self, c, o, v, f, salt):
        if o == "insert":
            if self.name == "Treap" and (salt & 1 or self.settled):
                return c.insert(v, (salt % 50, salt % 3, -(salt % 7), salt // 2 % 64 / 8,
                                    1e9 + salt)[salt // 2 % 5])
            return c.insert(v)
        if o == "remove":
            return c.remove(v)
        vals = c.to_list()
        t = vals[at(f, len(vals))] if vals else v
        if o == "remove_one":
            return c.remove(t)
        return (t if salt & 1 else v) in c

    def drain(self, c, how, salt):
        if how == "min":
            c.remove(c.get_min())
        elif how == "max":
            c.remove(c.get_max())
        else:
            vals = c.to_list()
            c.remove(vals[0 if how == "root" else salt % len(vals)])

    def reads(self, c, v, f, salt):
        if self.name != "SplayTree":
            yield "in", lambda: v in c
        yield "in(odd)", lambda: "x" in c
        yield "traverse", lambda: key(c.traverse("preorder"))
        yield "traverse", lambda: key(c.traverse("breadth-first"))
        yield "left view", lambda: key(c.get_leftside_view())
        yield "right view", lambda: key(c.get_rightside_view())

    def bad(self, c, salt):
        V, T, I = ValueError, TypeError, IndexError
        yield "insert(None)", V, lambda: c.insert(None)
        yield "insert('1')", T, lambda: c.insert("1")
        yield "insert(True)", T, lambda: c.insert(True)
        yield "insert([])", T, lambda: c.insert([])
        yield "insert(container)", T, lambda: c.insert(any_extra(salt))
        yield "insert(tree)", T, lambda: c.insert(self.cls())
        if self.name == "Treap":
            yield "insert(1, 'p')", T, lambda: c.insert(1, "p")
            yield "insert(1, [])", T, lambda: c.insert(1, [])
            yield "insert('1', 5)", T, lambda: c.insert("1", 5)
            yield "insert(None, 5)", V, lambda: c.insert(None, 5)
        if not len(c):
            yield "get_min of empty", I, c.get_min
            yield "get_max of empty", I, c.get_max
        yield "traverse(5)", T, lambda: c.traverse(5)
        yield "traverse('x')", V, lambda: c.traverse("x")
        yield "ctor(5)", T, lambda: self.cls(5)
        yield "ctor([1, 'x'])", T, lambda: self.cls([1, "x"])
        yield "ctor([1, None])", V, lambda: self.cls([1, None])


class HeapKind(Kind):
    pool = "num"
    facts = ("get_min", "get_max")
    ops = ("insert", "insert", "insert", "remove", "remove_one", "remove_min", "remove_max")
    drains = ("min", "max", "remove")

    def add(self, c, v, i=0):
        c.insert(v)

    def apply(self, c, o, v, f, salt):
        if o in ("insert", "remove"):
            getattr(c, o)(v)
        elif o == "remove_one":
            vals = c.to_list()
            c.remove(vals[at(f, len(vals))] if vals else v)
        else:
            getattr(c, o)()

    def drain(self, c, how, salt):
        if how == "remove":
            vals = c.to_list()
            c.remove(vals[salt % len(vals)])
        else:
            (c.remove_min if how == "min" else c.remove_max)()

    def reads(self, c, v, f, salt):
        yield "in", lambda: v in c
        yield "in(odd)", lambda: "x" in c

    def bad(self, c, salt):
        V, T, I = ValueError, TypeError, IndexError
        yield "insert(None)", V, lambda: c.insert(None)
        yield "insert('1')", T, lambda: c.insert("1")
        yield "insert(True)", T, lambda: c.insert(True)
        yield "insert(container)", T, lambda: c.insert(any_extra(salt))
        yield "insert(heap)", T, lambda: c.insert(self.cls())
        if not len(c):
            yield "get_min of empty", I, c.get_min
            yield "get_max of empty", I, c.get_max
        yield "heapify(5)", T, lambda: self.cls.heapify(5)
        yield "heapify([1, 'x'])", T, lambda: self.cls.heapify([1, "x"])
        yield "heapify([1, None])", V, lambda: self.cls.heapify([1, None])


class TrieKind(Kind):
    pool = "word"
    facts = ("auto_complete", "get_height", "get_depth", "count_leaf_nodes",
             "get_nodes_per_level")
    ops = ("insert", "insert", "insert", "remove", "remove_one")
    drains = ("remove", "first", "last")

    def add(self, c, v, i=0):
        c.insert(v)

    def apply(self, c, o, v, f, salt):
        if o in ("insert", "remove"):
            getattr(c, o)(v)
        else:
            ws = sorted(c.auto_complete())
            c.remove(ws[at(f, len(ws))] if ws else v)

    def drain(self, c, how, salt):
        ws = sorted(c.auto_complete())
        c.remove(ws[{"remove": salt % len(ws), "first": 0, "last": -1}[how]])

    def reads(self, c, v, f, salt):
        yield "in", lambda: v in c
        yield "in(odd)", lambda: 5 in c
        yield "has_prefix", lambda: c.has_prefix(v[:at(f, len(v) + 1)])
        yield "has_prefix(odd)", lambda: c.has_prefix(5)
        yield "auto_complete", lambda: key(c.auto_complete(v[:at(f, len(v) + 1)]))

    def bad(self, c, salt):
        V, T = ValueError, TypeError
        yield "insert(None)", V, lambda: c.insert(None)
        yield "insert(5)", T, lambda: c.insert(5)
        yield "insert([])", T, lambda: c.insert(["a"])
        yield "insert('')", V, lambda: c.insert("")
        yield "insert('  ')", V, lambda: c.insert("  ")
        yield "insert(container)", T, lambda: c.insert(any_extra(salt))
        yield "auto_complete(5)", T, lambda: c.auto_complete(5)
        yield "auto_complete(None)", V, lambda: c.auto_complete(None)


KINDS = [ListKind(LinkedList), ListKind(DoublyLinkedList), ListKind(CircularLinkedList),
         StackKind(Stack), QueueKind(Queue), DequeKind(Deque), PriorityKind(PriorityQueue),
         SkipKind(SkipList)] + \
    [SearchKind(t) for t in (BST, AVL, RedBlackTree, SplayTree, Treap)] + \
    [HeapKind(MinHeap), HeapKind(MaxHeap), TrieKind(Trie), TrieKind(RadixTrie)]
KIND_OF = {k.cls: k for k in KINDS}
BY_NAME = {k.name: k for k in KINDS}
BOUNDED = {"Stack", "Queue", "Deque", "PriorityQueue"}
