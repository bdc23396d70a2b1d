"""Reproductions of the recorded findings (known_findings.json).

Each gives "violation" when the real code still fails in the recorded way."""
import sys

from . import runtime  # noqa: F401  (sets sys.path)


def _overflows(fn):
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    runtime.COUNTER.limit = float("inf")
    try:
        fn()
    except RecursionError:
        return "violation"
    except Exception:  # something else is wrong: not this finding, the workloads judge it
        return "ok"
    finally:
        sys.setrecursionlimit(limit)
    return "ok"


def deep_bst(finding):
    from extra.trees.bst import BST
    from extra.trees.splay_tree import SplayTree

    def use(cls):
        def run():
            t = cls(range(1500))
            assert len(t) == 1500 and 0 in t and t.inorder_traverse() == list(range(1500))
        return run

    return "violation" if "violation" in (_overflows(use(BST)), _overflows(use(SplayTree))) else "ok"


def long_word(finding):
    from extra.trees.trie import Trie
    t = Trie()
    t.insert("ab" * 600)
    return _overflows(lambda: (t.auto_complete(), t.get_height()))


def long_text(finding):
    from extra.trees.suffix_trie import SuffixTrie
    return _overflows(lambda: SuffixTrie("a" * 1200).get_height())
