"""Which workloads decide which property, and how many cases of each are run."""
from .bounded import (PriorityHistory, QueueHistory, SeededPriorities, SkipHistory,
                      StackHistory, Queue, Deque)
from .costs import Constant, Growth, Linear, LinearTrees, Logarithmic, LongWords, Native
from .cross import (Constructors, Emptied, Fidelity, Independence, Queries, Rejections,
                    Sizes, UserFaults, Warned)
from .drawings import (ListDrawings, QueueDrawings, SearchDrawings, ShapeDrawings,
                       SkipDrawings, TrieDrawings)
from .elsewhere import Elsewhere
from .findings import deep_bst, long_text, long_word
from .memory import Dropped, Footprint, LetGo, Numbers, Trees
from .nodes import Nodes
from .plain import PlainTrees
from .scale import HEAPS, SEQUENCES, TRIES, Scale
from .seqs import Compare, Derived, SeqHistory
from .spec import SPEC
from .trees import (SEARCH, GeneralTrees, HeapHistory, ParseTrees, PathTrees, SearchShapes,
                    SeededTreaps, ShapeQueries, TreeHistory)
from .threads import Apart, Together
from .tries import SuffixRepeats, SuffixSearch, TrieHistory

A = list(SEARCH)
FEWER = (600, 1100, 2100, 4100)
RB, AVL, SPLAY, TREAP = ["RedBlackTree"], ["AVL"], ["SplayTree"], ["Treap"]

SCENARIOS = {
    "L01": [(SeqHistory("history"), 3000), (SeqHistory("long", size=12), 100),
            (Scale(SEQUENCES, sizes=FEWER), 4)],
    "L02": [(Derived(), 3000)],
    "L03": [(SeqHistory("links", monitors=("links",)), 3000),
            (Scale(SEQUENCES, "structure", FEWER), 4)],
    "L04": [(Compare(), 3000)],
    "L05": [(Independence(), 2000), (PlainTrees("independence"), 1500)],
    "S01": [(StackHistory(), 3000), (StackHistory("tall", True), 16),
            (Scale(["Stack"]), 4), (Scale(["Stack"], sizes=(70100,), name="towering"), 1)],
    "Q01": [(QueueHistory("queue", Queue), 3000),
            (QueueHistory("long", Queue, True), 16),
            (Scale(["Queue"]), 4), (Scale(["Queue"], sizes=(70100,), name="towering"), 1)],
    "Q02": [(QueueHistory("deque", Deque), 3000),
            (QueueHistory("long", Deque, True), 16),
            (Scale(["Deque"]), 8), (Scale(["Deque"], sizes=(70100,), name="towering"), 1)],
    "Q03": [(PriorityHistory(), 4000), (PriorityHistory("crowd", True), 24),
            (SeededPriorities(), 300),
            (Scale(["PriorityQueue"], sizes=FEWER[:3]), 4)],
    "K01": [(SkipHistory("skip"), 1500), (SkipHistory("large", big=True), 24),
            (Scale(["SkipList"], sizes=FEWER), 12)],
    "K02": [(SkipHistory("levels", ("levels",)), 1500),
            (SkipHistory("large", ("levels",), True), 24),
            (Scale(["SkipList"], "structure", FEWER), 8)],
    "T01": [(TreeHistory("set", A, ("set",)), 2000),
            (TreeHistory("setbig", A, ("set",), True), 32),
            (Scale(A), 32)],
    "T02": [(TreeHistory("links", A, ("links",)), 1500),
            (TreeHistory("linksbig", A, ("links",), True), 32),
            (Scale(A, "structure"), 20)],
    "T03": [(TreeHistory("avl", AVL, ("avl",)), 1500),
            (TreeHistory("avlbig", AVL, ("avl",), True), 32),
            (Scale(AVL, "structure"), 8)],
    "T04": [(TreeHistory("rb", RB, ("rb",)), 1500),
            (TreeHistory("rbbig", RB, ("rb",), True), 32),
            (Scale(RB, "structure"), 8)],
    "T05": [(TreeHistory("treap", TREAP, ("treap",)), 1500),
            (TreeHistory("treapbig", TREAP, ("treap",), True), 24), (SeededTreaps(), 600),
            (Scale(TREAP, "structure"), 8)],
    "T06": [(TreeHistory("splay", SPLAY, ("splay",)), 1500),
            (TreeHistory("splaybig", SPLAY, ("splay",), True), 32)],
    "T07": [(ShapeQueries(), 2000), (SearchShapes(), 1500)],
    "T08": [(ParseTrees(), 6000), (ShapeQueries(), 600)],
    "T09": [(GeneralTrees(), 4000), (PathTrees(), 400)],
    "H01": [(HeapHistory("heap"), 1500), (HeapHistory("large", big=True), 32),
            (Scale(HEAPS), 16), (Scale(HEAPS, sizes=(70100,), name="towering"), 2)],
    "H02": [(HeapHistory("order", ("order",)), 1200),
            (HeapHistory("large", ("order",), True), 32),
            (Scale(HEAPS, "structure"), 12)],
    "R01": [(TrieHistory("words", ("set",)), 1500),
            (Scale(TRIES, sizes=(300, 1200)), 24)],
    "R02": [(TrieHistory("nodes", ("nodes",)), 1200)],
    "X01": [(SuffixSearch(), 4000)],
    "X02": [(SuffixRepeats(), 4000)],
    "E01": [(Rejections(), 1200), (UserFaults(), 1000), (Warned(), 800), (PlainTrees("rejections"), 1000)],
    "E02": [(Emptied(), 1600), (PlainTrees("emptied"), 1000)],
    "E03": [(Sizes(), 3000), (PlainTrees("sizes"), 1500)],
    "E04": [(Queries(), 1200), (PlainTrees("queries"), 1000)],
    "E05": [(ListDrawings(), 1600), (QueueDrawings(), 1600), (SkipDrawings(), 600)],
    "E06": [(SearchDrawings(), 1200), (ShapeDrawings(), 1600), (TrieDrawings(), 800)],
    "E07": [(Fidelity(), 4000)],
    "E08": [(Constructors(), 4000)],
    "C01": [(Constant(), 160), (Logarithmic(), 80), (Linear(), 120), (LinearTrees(), 80),
            (Growth(), 120), (LongWords(), 60), (Native(), 8)],
    "N01": [(Nodes(), 6000)],
    "M01": [(LetGo(), 4000), (Numbers(), 3000), (Trees(), 600),
            (Footprint(), 160), (Dropped(), 120)],
    "D01": [(Elsewhere(), 1500)],
    "P01": [(Apart(), 700), (Together(), 700)],
}
# how many times as many cases are run: in the quick tier; eight times that thoroughly
QUICK = {"L01": 6, "L02": 6, "L03": 7, "L04": 5, "S01": 16, "Q01": 6, "Q02": 6, "Q03": 5,
         "K01": 2, "K02": 3, "T01": 3, "T02": 4, "T03": 6, "T04": 6, "T05": 8, "T06": 6,
         "T07": 8, "T08": 8, "T09": 18, "H01": 4, "H02": 6, "R01": 2, "R02": 3, "X01": 12,
         "X02": 20, "E01": 4, "E02": 4, "E03": 8, "E05": 8, "E06": 4, "E07": 18, "N01": 12,
         "C01": 1, "L05": 2, "E08": 3, "M01": 2, "P01": 3, "D01": 2}
FINDINGS = {
    "T01": {"recursion-depth": deep_bst},
    "R01": {"recursion-depth": long_word},
    "X01": {"recursion-depth": long_text},
}

PROPERTIES = {
    pid: {
        "scenarios": scns,
        "quick": QUICK.get(pid, 3),
        "rule": SPEC[pid]["rule"],
        "assumptions": SPEC[pid]["assumptions"],
        "files": sorted(f.removeprefix("extra/") for f in SPEC[pid]["files"]),
        "thorough": QUICK.get(pid, 3) * 8,
        "findings": FINDINGS.get(pid, {}),
    }
    for pid, scns in SCENARIOS.items()
}
