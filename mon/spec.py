"""What each property says, where it is anchored and how it is decided.

`tools/make_docs.py` writes properties.jsonl and MANIFEST.json out of this, the
checks take their rule and assumptions from it, so the three can't drift."""

SPEC = {}

LL = "extra/lists/linked_list.py"
DL = "extra/lists/doubly_linked_list.py"
CL = "extra/lists/circular_linked_list.py"
ST = "extra/lists/stack.py"
QU = "extra/lists/queue.py"
DQ = "extra/lists/deque.py"
PQ = "extra/lists/priority_queue.py"
SK = "extra/lists/skip_list.py"
TR = "extra/trees/tree.py"
BT = "extra/trees/binary_tree.py"
BS = "extra/trees/bst.py"
AV = "extra/trees/avl.py"
RB = "extra/trees/red_black_tree.py"
SP = "extra/trees/splay_tree.py"
TP = "extra/trees/treap.py"
HE = "extra/trees/_heap.py"
MI = "extra/trees/min_heap.py"
MA = "extra/trees/max_heap.py"
TI = "extra/trees/trie.py"
RT = "extra/trees/radix_trie.py"
SX = "extra/trees/suffix_trie.py"
IF = "extra/interface.py"

DEPTH = ("Workloads keep every structure shallower than the interpreter's recursion limit; "
         "deeper ones are the recorded recursion-depth finding.")
NAN = "Values that aren't equal to themselves (NaN) are left out: no order or membership is defined for them."


def P(pid, title, statement, over, text, why, files, mechanism, rule, technique, note,
      state=(), observe=(), assumptions=()):
    SPEC[pid] = {
        "title": title, "statement": statement, "over": over, "text": text, "why": why,
        "files": files, "mechanism": mechanism, "rule": rule, "technique": technique,
        "note": note, "state": list(state), "observe": list(observe),
        "assumptions": list(assumptions),
    }


# ------------------------------------------------------------------- lists --
P("L01", "A list holds exactly the sequence its operations spell out",
  "After any history of insertions, assignments, extensions and deletions at either end, at any "
  "position or by value, a singly, doubly or circular linked list iterates, indexes, counts, "
  "converts and reports membership exactly as the sequence those operations describe. Operations "
  "return what they document and touch no element they weren't asked to.",
  ["histories", "inputs"],
  "Every history of mutations of every one of the three list kinds, over values of mixed types, "
  "with every legal index (the ends included).",
  "The tests run a few short scripts per method from freshly built lists; the law quantifies over "
  "unbounded histories, where the head, tail and length bookkeeping of one operation is the "
  "precondition of the next.",
  [LL, DL, CL],
  [("_insert / _insert_node / _remove_idx / _remove_node", LL),
   ("_insert_node / _remove_node with two-way links", DL),
   ("_insert_node / _remove_node around the ring; remove(all=...)", CL),
   ("extend, remove(value, all), __setitem__", LL)],
  "Seeded histories of up to some 60 list operations; after each the whole observable content is "
  "compared, value by value and by identity, with a Python list that went through the same history.",
  "runtime monitoring: lock-step model oracle over random operation histories",
  "Every operation of the explored histories is judged against an independent list model; nothing "
  "is claimed about histories that weren't run.",
  observe=["iteration", "indexing", "len", "in", "count", "to_list", "return values and exceptions"],
  assumptions=[NAN])

P("L02", "Slices, splits, rotations, reversals and copies say what sequences say",
  "Slicing, splitting at a position, rotating by any distance, reversing and copying give the "
  "elements a plain sequence would give in that place and order. The result is a list of the same "
  "kind and in sound shape, and in-place forms change only the list they are called on; a circular "
  "list takes any position modulo its length and refuses slices.",
  ["inputs", "histories"],
  "Every list of the three kinds with every slice (bounds and steps of either sign, missing or out "
  "of range), every split position and every rotation distance, also after earlier mutations.",
  "The space of start/stop/step, distance and length combinations is unbounded and the tests hold "
  "a handful of them; what matters are the corners (empty, one element, multiples of the length, "
  "negative steps).",
  [LL, DL, CL],
  [("__getitem__ on slices", LL), ("_split", LL), ("_rotate, __calibrate_rotation_distance", LL),
   ("reverse, copy", LL), ("reverse, rotate_*, split", DL), ("split, reverse, rotate_*", CL)],
  "Random lists and arguments; each derived list is compared with the same derivation on a Python "
  "list and its links are walked, and the source list is compared with what it has to be.",
  "runtime monitoring: differential oracle on derived lists plus a link walker",
  "Sampled lists of up to some 40 elements and sampled arguments, all corner cases forced.",
  observe=["returned lists", "the source list afterwards"], assumptions=[NAN])

P("L03", "The links of a list are sound at every moment between operations",
  "Following the links from the first node visits exactly as many nodes as the list reports and "
  "ends at its last node; nothing dangles after it. A doubly linked list reads the same backwards "
  "through its previous links, and a circular list closes on its first node.",
  ["histories"],
  "Every reachable state of the three list kinds: after every operation of every history, failed "
  "operations included.",
  "The tests compare printed contents, which don't show a stale tail, a wrong previous link or a "
  "ring that closes in the wrong place until some later operation trips over it.",
  [LL, DL, CL],
  [("_insert_node / _remove_node keep head, tail and length", LL),
   ("_insert_node / _remove_node keep both directions", DL),
   ("_insert_node / _remove_node keep the ring closed", CL), ("clear, split, reverse", LL)],
  "After each operation of the histories a walker follows the links forwards (and backwards) with "
  "a step bound and compares node count, ends, ring closure and the data with the model.",
  "runtime monitoring: structural invariant walker hooked after every operation",
  "Complete walk after every operation of the explored histories.",
  state=[("head, tail, length", "the two end nodes and the count", LL)],
  observe=["next/previous links of every node", "len"])

P("L04", "List comparison is position by position and its six operators agree",
  "Two lists are equal exactly when they have equal elements at the same positions and the same "
  "length. One is <= another exactly when it is no longer and none of its elements exceeds the one at "
  "its position there, < when besides they aren't equal, and > and >= mirror these; != is the opposite "
  "of ==. Comparing changes neither operand.",
  ["inputs"],
  "Every pair of lists of one kind, with mutually comparable elements for the four orderings; "
  "prefixes and equal lists included.",
  "The tests compare a few fixed pairs; consistency between the six operators is a relation "
  "between all pairs.",
  [LL, DL, CL],
  [("_compare and the six operators", LL), ("the six operators", DL), ("the six operators", CL)],
  "Random pairs built to share prefixes; all six operators in both directions are compared with "
  "the definition evaluated on the plain elements, and the operands are compared before and after.",
  "runtime monitoring: differential oracle on all six operators",
  "Sampled pairs; each judged completely.",
  assumptions=["Lists of different kinds or with incomparable elements are only checked for "
               "leaving the operands alone.", NAN])

P("L05", "A derived or copied collection shares no state with its source",
  "A collection built from, copied from, sliced or split off, or handed out by another one keeps "
  "its own state: no later change to either shows in the other. Lists handed to the caller are the "
  "caller's own, and iterables given by the caller are neither kept nor consumed beyond reading.",
  ["histories"],
  "Every collection kind, every way of deriving one collection or plain list from another, and "
  "every later history on either side.",
  "Aliasing shows only when two objects are mutated in turn after the derivation; the tests look at "
  "the derived object once.",
  [LL, DL, CL, HE, BT, TR, TI, QU, SK],
  [("constructor from an iterable, copy, extend, split, slices", LL), ("copy, extend", CL),
   ("to_list, heapify", HE), ("to_list, get_nodes_per_level", BT), ("get_children", TR)],
  "Two related objects are mutated in turn under separate oracles, and returned lists are vandalised "
  "by the harness before the source is compared with its state before. Plain trees, made at once from "
  "nested lists or nodes, get the same treatment; sources hold up to 130 elements.",
  "runtime monitoring: twin-object aliasing monitor over interleaved histories",
  "All collection kinds and derivations are exercised in every run; histories are sampled.",
  observe=["the other object's whole observable state after each change"],
  assumptions=["Mutable user values are shared by design; only the containers must be separate."])

# --------------------------------------------- stacks, queues, skip lists --
P("S01", "A stack gives back its values last in, first out, within its capacity",
  "Whatever is pushed and popped, the top is the most recent value still inside, sizes and "
  "fullness follow the history, and pop returns what it removes. A full stack refuses a push with an "
  "error; popping an empty one only warns and peeking into it is an error, each without change.",
  ["histories", "configurations"],
  "Every history of pushes, pops, peeks and clears, on every capacity including zero-adjacent and "
  "unbounded ones.",
  "Order and capacity are laws of whole histories; the tests push a few values and pop them.",
  [ST, LL],
  [("push / pop / peek / is_full / clear", ST), ("add_front / remove_front", LL)],
  "Random histories on random capacities in lock step with a bounded list model.",
  "runtime monitoring: lock-step model oracle over random histories",
  "Every operation of the explored histories is judged.",
  observe=["returned values", "warnings and exceptions", "len, is_full, is_empty"])

P("Q01", "A queue gives back its values first in, first out, within its capacity",
  "Whatever is enqueued and dequeued, the top is the oldest value still inside, and dequeue returns "
  "it. A full queue makes room by dropping its oldest value with a warning and never exceeds its "
  "capacity; dequeuing from an empty one only warns and asking for its top is an error.",
  ["histories", "configurations"],
  "Every history of enqueues, dequeues, looks and clears on every capacity, one and unbounded "
  "included.",
  "Eviction order depends on the whole history; the tests fill one small queue.",
  [QU, DL], [("_enqueue, enqueue, dequeue, top, clear", QU)],
  "Random histories on random capacities in lock step with a bounded FIFO model.",
  "runtime monitoring: lock-step model oracle over random histories",
  "Every operation of the explored histories is judged.",
  observe=["returned values", "warnings and exceptions", "len, is_full, is_empty"])

P("Q02", "A deque keeps both its ends in order, within its capacity",
  "Values come out of either end in the order the two ends imply. A full deque drops the value at "
  "the opposite end with a warning and never exceeds its capacity; popping from an empty one only "
  "warns and looking at its ends is an error.",
  ["histories", "configurations"],
  "Every interleaving of the two ends' operations on every capacity.",
  "Interleavings of four operations with eviction grow exponentially; the tests fix one.",
  [DQ, QU, DL],
  [("append_left/append_right/pop_left/pop_right", DQ), ("_enqueue", QU)],
  "Random histories on random capacities in lock step with a bounded two-ended model.",
  "runtime monitoring: lock-step model oracle over random histories",
  "Every operation of the explored histories is judged.",
  observe=["returned values", "warnings and exceptions", "len, is_full, is_empty"])

P("Q03", "A priority queue serves by priority, within its capacity",
  "Dequeue removes and returns a value whose priority is the highest (or, on request, the lowest) of "
  "all still waiting; the top is the oldest arrival still waiting. A full queue drops its oldest "
  "arrival with a warning and keeps every other value with its priority, and a fixed seed gives the "
  "same random priorities every time.",
  ["histories", "configurations"],
  "Every history of enqueues with given or drawn priorities (ties, negatives, repeats), dequeues "
  "from both ends of the order, evictions and clears.",
  "Which value is next depends on every priority ever enqueued and dequeued; cached extremes go "
  "stale only after particular histories.",
  [PQ, QU],
  [("enqueue, dequeue(lowest_priority), top", PQ),
   ("_update_min_priority, _update_max_priority", PQ), ("eviction", QU)],
  "Random histories with many ties in lock step with a model that keeps (priority, arrival) pairs; "
  "seeded twins are compared.",
  "runtime monitoring: lock-step model oracle over random histories, seeded twin runs",
  "Every operation of the explored histories is judged.",
  state=[("minimum and maximum priority", "cached extremes of what is waiting", PQ)],
  observe=["returned values", "len", "the drawn priorities"])

P("K01", "A skip list is a sorted set of the numbers put in",
  "Whatever is inserted and removed and however the coins fall, a skip list iterates over exactly "
  "the distinct numbers inside, ascending, and answers membership and indexing accordingly. A removal of an absent "
  "number does nothing.",
  ["histories", "inputs"],
  "Every history of insertions, removals and lookups, over integers, floats and "
  "infinities, under every sequence of coin flips.",
  "The levels are random, so a test run sees one drawing of the coins; wrong promotions or "
  "removals only show for some.",
  [SK],
  [("search_sorted, _search, _is_found", SK), ("insert, _promote, _add_extra_level", SK),
   ("remove, __delitem__, _remove_level", SK)],
  "Random histories under many coin sequences in lock step with a sorted list model.",
  "runtime monitoring: lock-step model oracle over random histories and coin sequences",
  "Every operation of the explored histories is judged.",
  observe=["iteration", "in", "indexing", "len", "warnings"], assumptions=[NAN])

P("K02", "Skip list levels are sorted towers over one base level",
  "Every level is sorted, starts at the sentinel, holds only values of the level below and stands "
  "on the same value there; no level is left empty above the base and the reported height is the "
  "number of levels.",
  ["histories"],
  "Every reachable state under every history and coin sequence.",
  "The express levels don't show in contents: a dangling upper node only misleads a later search.",
  [SK],
  [("_promote, _add_extra_level", SK), ("remove, _remove_level, clear", SK)],
  "After each operation a walker visits every level and every down link.",
  "runtime monitoring: structural invariant walker hooked after every operation",
  "Complete walk after every operation of the explored histories.",
  state=[("levels", "one linked list a level, bottom first", SK)],
  observe=["level contents", "down links", "height"])

# ------------------------------------------------------------------- trees --
SEARCHF = [BS, AV, RB, SP, TP]
P("T01", "Every search tree is a sorted set of the numbers put in",
  "After any history of insertions and removals a binary search, AVL, red-black, splay or treap "
  "tree holds exactly the distinct numbers inside: size, membership, minimum, maximum and inorder "
  "order all agree. Duplicates and absent removals only warn.",
  ["histories", "inputs"],
  "Every history on all five kinds, over integers, floats, infinities and extreme "
  "magnitudes, in every order of arrival.",
  "Each kind rebalances differently for each shape; the tests remove a few values from a few "
  "shapes.",
  SEARCHF,
  [("_search, _insert_value, _remove, _find_replacement, _transplant", BS),
   ("_rebalance", AV), ("__recolor, __handle_double_black", RB), ("__splaying", SP),
   ("rotations by priority", TP)],
  "Random histories (ascending, descending, zigzag, uniform, few distinct values) in lock step "
  "with a sorted set model on all five kinds.",
  "runtime monitoring: lock-step model oracle over random histories",
  "Every operation of the explored histories is judged.",
  observe=["in, len, get_min, get_max, inorder traversal", "warnings and exceptions"],
  assumptions=[DEPTH, NAN])

P("T02", "Search trees keep their order and their family links",
  "In every search tree each value is above all values on its left and below all on its right, and "
  "each node's parent, sibling, uncle and grandparent are the ones its position implies. The root "
  "has no parent, and no node is reachable twice.",
  ["histories"],
  "Every reachable state of all five kinds.",
  "Parent links aren't visible in contents; a stale one breaks a later rotation or removal.",
  SEARCHF,
  [("set_left, set_right, set_parent", BS), ("_attach, _rotate_*", BS), ("_transplant", BS),
   ("get_uncle, get_sibling, get_grand_parent", BS)],
  "After each operation a walker visits each node, checks bounds, links and relatives, and "
  "compares the inorder walk with the model.",
  "runtime monitoring: structural invariant walker hooked after every operation",
  "Complete walk after every operation of the explored histories.",
  state=[("parent link", "the node above", BS)],
  observe=["left, right, parent links", "relatives"], assumptions=[DEPTH])

P("T03", "An AVL tree is height-balanced with true heights after every operation",
  "At every node the heights of the two sides differ by at most one and the stored height is the "
  "true one. The tree therefore never grows beyond the AVL height bound for its size.",
  ["histories"],
  "Every history of insertions and removals, adversarial orders and large trees included.",
  "Unbalanced ancestors after a removal need deep, specific shapes the tests don't build.",
  [AV, BS],
  [("_rebalance, _get_unbalanced_node", AV), ("set_left/set_right/set_height", AV),
   ("_remove", AV)],
  "After each operation every node's height is recomputed and compared, on small dense and on "
  "large histories.",
  "runtime monitoring: structural invariant walker hooked after every operation",
  "Complete walk after every operation of the explored histories.",
  state=[("node height", "cached height of the subtree", AV)], observe=["heights", "shape"])

P("T04", "A red-black tree keeps its colour laws after every operation",
  "The root is black, no red node has a red child and every path down passes the same number of "
  "black nodes, which is the black height the tree reports. The tree therefore stays within twice "
  "the logarithm of its size.",
  ["histories"],
  "Every history of insertions and removals, adversarial orders and large trees included.",
  "The removal cases need particular colour patterns around the removed node; most are out of the "
  "tests' reach.",
  [RB, BS],
  [("__recolor, __recolor_case3", RB), ("__handle_double_black, remove", RB), ("swap", RB),
   ("get_black_height", RB)],
  "After each operation the colour laws, black heights and colour types are recomputed over the "
  "whole tree, on small dense and on large histories.",
  "runtime monitoring: structural invariant walker hooked after every operation",
  "Complete walk after every operation of the explored histories.",
  state=[("node colour", "red or black", RB)], observe=["colours", "black height", "shape"])

P("T05", "A treap is ordered by value and heap-ordered by priority",
  "Every node's priority is at least its children's while values keep the search order, and given "
  "priorities are kept with their values. A fixed seed gives the same treap every time.",
  ["histories", "configurations"],
  "Every history with given (tied, negative, extreme) or drawn priorities, and every seed.",
  "Priorities are random in the tests; violations after removal need specific priority patterns.",
  [TP, BS],
  [("insert with priority, rotations", TP), ("remove: rotate down", TP),
   ("seeded generator", TP)],
  "After each operation values, priorities and given priorities are compared over the whole tree; "
  "twins with one seed are compared node by node.",
  "runtime monitoring: structural invariant walker and seeded twin runs",
  "Complete walk after every operation of the explored histories.",
  state=[("node priority", "heap key", TP)], observe=["priorities", "shape"], assumptions=[DEPTH])

P("T06", "A splay tree brings what was touched to its root",
  "After an insertion or a successful lookup the touched value is at the root, and after a missed "
  "lookup or missed removal the last value the search met is; removing a value leaves one of the "
  "values met on the way at the root. Each access restructures the path enough to "
  "keep the amortised logarithmic bound of splaying.",
  ["histories"],
  "Every history of lookups, insertions and removals, sequential and skewed ones included.",
  "Splaying is a law about every access path (all zig/zag combinations) and about amortised cost, "
  "which no single answer shows.",
  [SP, BS],
  [("__splaying and the zig/zag cases", SP), ("__contains__, insert, remove", SP)],
  "After each access the root is compared with the value touched, and the access lemma (depth plus "
  "change of potential against three times the rank difference) is evaluated on the real nodes.",
  "runtime monitoring: post-access root monitor and access-lemma potential monitor",
  "Every access of the explored histories is judged, against the exact bound of the access lemma.",
  observe=["root value", "shape before and after"], assumptions=[DEPTH])

P("T07", "Shape questions and traversals of a tree are answered truthfully",
  "Height, leaf count, size, the values per level and every traversal are those of the tree's actual "
  "shape, for plain binary trees and all search trees. A tree is reported balanced exactly when the "
  "heights of the root's two sides differ by at most one, perfect when every level is full, and "
  "strict when no node has a single child; unknown traversal names are refused.",
  ["inputs", "programs"],
  "Every binary tree shape, from empty and chains to perfect trees, values repeated or not.",
  "The number of shapes is Catalan; the tests hold a few and most queries' wrong answers need a "
  "shape where two sides differ deep down.",
  [BT, TR, BS, AV, RB, SP, TP],
  [("get_height, get_depth, count_leaf_nodes", TR), ("is_balanced, is_perfect, is_strict", BT),
   ("the four traversals, traverse", BT), ("get_nodes_per_level", TR)],
  "Random shapes, all small shapes included, chains, and trees of up to hundreds of nodes that are "
  "perfect but for one node; each answer is compared with one computed from an independent walk.",
  "runtime monitoring: differential oracle on random shapes",
  "Sampled shapes; each query judged completely.",
  observe=["query answers"], assumptions=[DEPTH])

P("T08", "Parsing, inverting and the side views of binary trees",
  "A nested list or tuple parses into exactly the tree it spells, and ones with an empty or overlong "
  "part are refused. Inverting "
  "mirrors the tree, twice gives it back, and the side views are the first and last value of each "
  "level.",
  ["inputs"],
  "Every nested list, well-formed or not, and every tree shape.",
  "Nested inputs are unbounded; the tests parse a few.",
  [BT],
  [("parse, __create_subtree", BT), ("invert, _invert_subtree", BT),
   ("get_leftside_view, get_rightside_view", BT)],
  "Random nested lists, well-formed and corrupted at a random place, up to hundreds of nodes and "
  "near-perfect ones included, compared with an independent parser's tree.",
  "runtime monitoring: differential oracle on random nested inputs",
  "Sampled inputs, each judged completely.", observe=["shape and values", "refusals"])

P("T09", "A general tree reports what was hung into it",
  "Iteration, size, membership, height, depth, leaves and levels of a general tree are those of "
  "the children given to its nodes, in level order. A tree read from a path mirrors the directory "
  "or file there, names sorted, and a path that doesn't exist is refused.",
  ["inputs"],
  "Every n-ary shape and every directory layout.",
  "The tests build a couple of trees and read one fixed directory.",
  [TR],
  [("iteration, _search, _get_height, _get_depth, _count_leaf_nodes", TR),
   ("from_path, __form_tree_from_path", TR), ("set_child, set_children", TR)],
  "Random n-ary trees (up to hundreds of nodes, one to 140 children each) and random scratch "
  "directories, with links in them, compared with an independent description.",
  "runtime monitoring: differential oracle on random trees and directories",
  "Sampled shapes, each judged completely.",
  observe=["query answers"],
  assumptions=[DEPTH, "Directories are plain scratch ones: no loops of links, no races with other programs."])

P("H01", "A heap holds the multiset put in and knows its minimum and maximum",
  "After any history a min- or max-heap holds exactly the numbers inserted less those removed, "
  "duplicates counted. Minimum, maximum, membership and size are those of that multiset, and "
  "removing an extreme removes one copy of it.",
  ["histories", "inputs"],
  "Every history of insertions, removals of any value and of either extreme, on heapified or "
  "grown heaps.",
  "Which inner position a value sits at depends on the history; the tests remove from a few fixed "
  "heaps.",
  [HE, MI, MA],
  [("insert, __rebalance, remove", HE), ("heapify", HE), ("get_min/get_max/remove_min/remove_max", MI),
   ("get_min/get_max/remove_min/remove_max", MA)],
  "Random histories with many duplicates in lock step with a multiset model.",
  "runtime monitoring: lock-step model oracle over random histories",
  "Every operation of the explored histories is judged.",
  observe=["contents", "get_min, get_max, in, len", "warnings and exceptions"], assumptions=[NAN])

P("H02", "Heap order holds at every position after every operation",
  "In a min-heap no value is below its parent's and in a max-heap none is above, and the shown "
  "tree is the complete tree over the stored order.",
  ["histories"],
  "Every reachable state of both heap kinds.",
  "A removal from the middle may have to move its replacement up or down; only particular "
  "histories need the less usual way.",
  [HE, MI, MA],
  [("__rebalance, remove, insert", HE), ("_transform", HE), ("heapify", HE)],
  "After each operation every parent/child pair is compared.",
  "runtime monitoring: structural invariant walker hooked after every operation",
  "Complete walk after every operation of the explored histories.", observe=["stored order"])

# ------------------------------------------------------------------- tries --
P("R01", "A trie is a set of words with truthful prefix answers",
  "After any history of insertions and removals a trie or radix trie contains exactly the words "
  "inside. Prefix questions and completions are those of that set; inserting twice changes nothing, "
  "removing an absent word only warns, and blank words are refused.",
  ["histories", "inputs"],
  "Every history over words of any characters that share, extend and split one another.",
  "Radix edges split and merge according to the words already inside; the tests use a few words.",
  [TI, RT],
  [("insert, remove, _follow_path, _get_candidates", TI),
   ("get_lcp, _insert, remove, auto_complete, has_prefix", RT)],
  "Random histories over prefix-sharing vocabularies (several alphabets, Unicode, braces, spaces, control characters, case twins) "
  "in lock step with a word set.",
  "runtime monitoring: lock-step model oracle over random histories",
  "Every operation of the explored histories is judged.",
  observe=["in, has_prefix, auto_complete, len", "warnings and exceptions"], assumptions=[DEPTH])

P("R02", "Trie nodes spell exactly the words inside, with nothing left over",
  "Every node lies on the way to some word, edges leaving a node start differently, and the words "
  "spelled to marked nodes are those inside. A radix trie that only grew has no unmarked node with a "
  "single child, and parent links, sizes, heights, levels and leaf counts fit.",
  ["histories"],
  "Every reachable state of both trie kinds.",
  "Left-over nodes don't show in membership answers but in sizes, drawings and later prefixes.",
  [TI, RT],
  [("remove prunes upwards", TI), ("_insert splits edges", RT), ("set_child", TI)],
  "After each operation a walker visits every node, judges labels, links, marks and compression, and "
  "compares the reported sizes, levels, heights and leaves with what it met.",
  "runtime monitoring: structural invariant walker hooked after every operation",
  "Complete walk after every operation of the explored histories.",
  state=[("word mark", "whether a word ends at the node", TI)],
  observe=["children, parent links, marks"], assumptions=[DEPTH])

P("X01", "A suffix trie answers substring questions as the text itself would",
  "For every pattern, containment and number of occurrences (overlapping ones counted) are those in "
  "the text, and the suffix array lists its suffixes in sorted order. Its nodes are exactly those of "
  "the text's suffix tree: labels, number, leaves, height.",
  ["inputs"],
  "Every text and every pattern, repetitive and Unicode ones included.",
  "The tests use a couple of words; counts go wrong on overlaps and on patterns ending inside an "
  "edge.",
  [SX, RT],
  [("constructor", SX), ("has_substring, count_pattern_occurrences", SX), ("to_suffix_array", SX)],
  "Random texts over small alphabets (also Fibonacci words, runs, Unicode) and patterns taken from "
  "and near them, compared with naive scans.",
  "runtime monitoring: differential oracle against naive scans",
  "Sampled texts of up to some 150 characters, each with many patterns.",
  observe=["answers"], assumptions=[DEPTH])

P("X02", "Longest repeats, common substrings and ancestors are the text's own",
  "The longest repeated substrings given are exactly the longest ones occurring at least twice "
  "(overlaps allowed), or the empty one if there are none. The lowest common ancestor of two "
  "different suffixes is their longest common prefix, in either order, and positions outside the "
  "text are refused.",
  ["inputs"],
  "Every text and every pair of positions.",
  "Several candidates tie and the deepest may hang at any level; the tests ask a few texts.",
  [SX],
  [("get_longest_repeated_substring, get_longest_common_substring", SX),
   ("get_lowest_common_ancestor, _get_ancestors_data", SX)],
  "Random texts compared with naive maxima over all substrings and prefixes.",
  "runtime monitoring: differential oracle against naive scans",
  "Sampled texts of up to some 120 characters, each with many position pairs.",
  observe=["answers", "refusals"], assumptions=[DEPTH])

# ----------------------------------------------------------- cross-cutting --
ALL = [LL, DL, CL, ST, QU, DQ, PQ, SK, TR, BT, BS, AV, RB, SP, TP, HE, MI, MA, TI, RT, SX, IF]
P("E01", "A refused or failing operation leaves no trace",
  "Every operation given an argument it can't take raises the documented kind of error and leaves "
  "the collection's observable state as it was, now and in every later operation; so does one whose "
  "warning the user's settings turn into an error. If "
  "a stored value's own comparison or a given iterator raises midway, the collection stays sound and "
  "loses nothing it wasn't asked to remove.",
  ["fault_sequences", "inputs"],
  "Every kind of collection in any reachable state, every operation with every class of wrong "
  "argument, every warning made an error, and a fault raised from any call into user code.",
  "The tests check that errors are raised, never what is left behind; a user value raising at its "
  "k-th comparison isn't tried at all.",
  ALL,
  [("_validate_item", IF), ("_validate_index", LL), ("_validate_index, _validate_item", SK),
   ("_validate_item", BS), ("_validate_item", HE), ("_validate_item", TI),
   ("__validate_priority", PQ), ("__validate_priority", TP)],
  "Hostile arguments against random states of every kind and faults injected at the k-th call into "
  "user code; the whole observable state is compared before and after, and then a common history is "
  "run on the instance and on a twin that never saw the fault. States range from empty to 260 "
  "elements, plain trees made at once included. Operations whose warning is an error are compared "
  "with a twin on which they were never called.",
  "runtime monitoring with fault injection: before/after state oracle and twin runs",
  "All kinds are exercised in every run; states, arguments and fault points are sampled.",
  observe=["exception type", "whole observable state", "later behaviour"],
  assumptions=["Reading an iterable given to extend may stop half-way; only what documents "
               "atomicity is held to it."])

P("E02", "An emptied collection is as good as a new one",
  "Clearing or draining a collection leaves it in the state of a freshly made one: empty in every "
  "answer, and indistinguishable from a new one in any later history.",
  ["histories"],
  "Every kind, every history that ends up empty, every way of emptying, and every history after.",
  "Stale ends, cached extremes or capacities show only in what happens after emptying.",
  ALL,
  [("clear", LL), ("clear", QU), ("clear", PQ), ("clear", SK), ("clear", BT), ("clear", HE),
   ("clear", TI)],
  "Random histories, emptied by clear or by draining, then one history run on the instance and on a "
  "fresh twin, all answers compared. Collections hold up to 260 elements before; plain trees are "
  "included.",
  "runtime monitoring: twin-run equivalence after emptying",
  "All kinds are exercised in every run; histories are sampled.",
  observe=["all answers of both twins"])

P("E03", "Sizes count what is inside, at every step",
  "The size of every collection is the number of elements it gives out, changes by exactly what an "
  "operation added or removed, and emptiness is a size of zero.",
  ["histories"],
  "Every kind, every history, no-op operations included (duplicates, absent removals, evictions).",
  "Counters kept apart from the contents drift only under particular no-ops and evictions.",
  ALL,
  [("length bookkeeping", LL), ("length bookkeeping", QU), ("length bookkeeping", SK),
   ("length bookkeeping", BS), ("length bookkeeping", TP), ("length bookkeeping", TI)],
  "After each operation the reported size is compared with the elements counted through iteration "
  "and with the size before.",
  "runtime monitoring: conservation monitor over random histories",
  "Every operation of the explored histories is judged.", observe=["len, is_empty", "iteration"])

P("E04", "Asking changes nothing",
  "Lookups, comparisons, traversals, drawings, iteration (also several at once or abandoned "
  "half-way) and size questions leave every collection's observable state as it was, and asked "
  "again give the same answer. Only a splay tree may rearrange itself, keeping its contents.",
  ["histories"],
  "Every kind in any reachable state, every query in any order and number.",
  "The tests never look at the state after a query.",
  ALL,
  [("__iter__", LL), ("__contains__", SK), ("traversals", BT), ("__contains__ splays", SP),
   ("top, dequeue", PQ), ("_transform", HE)],
  "All queries in random order on random states, the whole observable state compared before and "
  "after; interleaved and abandoned iterators compared with the contents.",
  "runtime monitoring: before/after state oracle around queries",
  "All kinds and queries are exercised in every run; states are sampled.",
  observe=["whole observable state", "repeated answers"])

P("E05", "List, queue and skip list drawings show exactly what is inside",
  "The drawing of every list, stack, queue, deque, priority queue and skip list shows all its "
  "elements, each as it prints, in order and with the connectors of its kind, and is well aligned. "
  "An empty one is drawn as the documented empty form.",
  ["inputs", "histories"],
  "Every content, with values of any printed width (long, short, wide, with line breaks excluded).",
  "The drawings' alignment depends on all the printed widths; the tests compare a few.",
  [LL, DL, CL, ST, QU, DQ, PQ, SK],
  [("_print_node, _print_linked_list", LL), ("_print_node", DL), ("__repr__", CL),
   ("__repr__", ST), ("_print_queue", QU), ("__repr__", PQ),
   ("__print_level, __print_node, __print_top_border", SK)],
  "Random contents; each drawing is compared with an independent rendering of the model, and the "
  "skip list's is decoded level by level.",
  "runtime monitoring: differential rendering oracle",
  "Sampled contents, each drawing judged completely.", observe=["repr, str"],
  assumptions=["Values whose printed form spans several lines are left out."])

P("E06", "Tree drawings show exactly the tree",
  "The drawing of every tree, heap and trie can be read back into the very tree it was drawn from: "
  "each node, its label and whose child it is, on which side. Drawing neither fails nor misplaces "
  "anything, whatever the shape and label widths.",
  ["inputs", "histories"],
  "Every shape with labels of any width.",
  "Branch columns depend on the widths of all subtrees; the tests compare a few drawings.",
  [BT, TR, TI, SX, HE, RB, TP, AV],
  [("_print_subtree", BT), ("__print_subtree", TR), ("__repr__", TI), ("__repr__", SX),
   ("_represent", RB), ("_represent", TP), ("__repr__", HE)],
  "Random trees; each drawing is decoded by an independent reader and compared with the nodes' "
  "actual links and labels.",
  "runtime monitoring: decoding oracle over drawings",
  "Sampled shapes, each drawing judged completely.", observe=["repr, str"],
  assumptions=[DEPTH, "Labels hold no drawing characters or line breaks."])

P("E07", "Collections give back the very values they were given",
  "What comes out of a collection is the object that went in, of the same type, not a converted or "
  "copied one, in its proper place among equal ones. Only line breaks inside text are stored escaped.",
  ["inputs"],
  "Every kind and every value it accepts (big integers, booleans, floats, infinities, equal objects "
  "of different type, objects with their own equality).",
  "The tests use small equal literals, for which conversion or mixing up of equal objects is "
  "invisible.",
  ALL,
  [("Node data", LL), ("BinaryTreeNode data", BT), ("heap storage", HE), ("trie words", TI)],
  "Distinguishable but equal values through every way in and out, compared by identity or exact "
  "type.",
  "runtime monitoring: identity-tracking oracle",
  "All kinds and entrances are exercised in every run.", observe=["returned objects"])

P("E08", "Building from an iterable equals inserting one by one",
  "A collection made from an iterable of any kind (list, generator, one-shot iterator, another "
  "collection) has the contents of an empty one given the same elements in order. The iterable is "
  "read once and in order, an empty one gives an empty collection, and refused elements are refused "
  "the same way.",
  ["inputs", "programs"],
  "Every constructor and factory with every class of iterable and content.",
  "The tests build from literal lists; one-shot iterators, generators and other collections take "
  "other paths.",
  ALL,
  [("constructor", LL), ("constructor", CL), ("constructor", SK), ("constructors", BS),
   ("heapify", HE), ("constructor", TP)],
  "The same elements through the constructor (as each class of iterable) and one by one; contents "
  "compared, and the iterable's own record of how it was read.",
  "runtime monitoring: twin-construction oracle with recording iterables",
  "All constructors and iterable classes are exercised in every run; contents are sampled.",
  observe=["contents", "how often the iterable was read"],
  assumptions=["Heaps, skip lists and treaps are compared by contents: their layout may depend on "
               "how they were built."])

P("C01", "Operations cost what their kind promises",
  "Working at the front of any list, at both ends of a doubly linked list and at the ends of stacks, "
  "queues and deques costs the same whatever the size, as do size questions and clearing. Balanced "
  "and randomised trees, skip lists and heap insertions take logarithmic work (worst case or on "
  "average), tries work in proportion to the word, and whole-collection operations in proportion to "
  "the size.",
  ["histories", "configurations"],
  "Every size and every history, adversarial orders included.",
  "A slow path gives right answers: no assertion on results can see it.",
  [LL, DL, CL, ST, QU, DQ, SK, TR, BT, AV, RB, SP, TP, HE, TI, RT, SX],
  [("tail reference", LL), ("both ends", DL), ("ring ends", CL), ("rebalancing", AV),
   ("rebalancing", RB), ("splaying", SP), ("priorities", TP), ("__rebalance", HE),
   ("coin promotion", SK)],
  "The interpreter's own events count the steps inside the library; costs at growing sizes are "
  "compared with bounds that have generous constants; everything a kind offers that goes over all of "
  "it, making and emptying it included, is measured on n and 8n elements, and what tries do with one "
  "word on n and 8n letters. What lists do natively (stacks, heaps), where "
  "no event shows it, is judged by processor time, the quickest of 25 goes, while they grow from 200 "
  "elements to a million.",
  "runtime monitoring: interpreter-event step counting against growth bounds",
  "Growth is judged between measured sizes; constants are generous, so only changes of order are "
  "reported.",
  observe=["steps (calls, resumptions, jumps) inside the library"])

P("N01", "Nodes keep what they are told and refuse what doesn't belong",
  "Every kind of node gives back the data and neighbours set on it, keeps two-way links consistent "
  "where it promises them, swaps only what swapping promises, and refuses neighbours of a foreign "
  "kind without change.",
  ["histories", "inputs"],
  "Every kind of node, every sequence of settings, including unlinking and relinking.",
  "Nodes are hardly tested directly; consistency after relinking is a law of sequences.",
  [LL, DL, PQ, SK, TR, BT, BS, AV, RB, TP, HE, TI],
  [("Node.set_next/set_data", LL), ("DoublyNode.set_prev/set_next", DL), ("PriorityNode", PQ),
   ("SkipNode.set_down", SK), ("TreeNode.set_child/swap", TR), ("BinaryTreeNode.set_left/right", BT),
   ("BSTNode relatives", BS), ("AVLNode heights", AV), ("RedBlackNode.swap", RB), ("TreapNode", TP),
   ("TrieNode.set_child", TI)],
  "Random sequences of settings on random sets of nodes in lock step with a model of the links.",
  "runtime monitoring: lock-step model oracle over random node programs",
  "Every setting of the explored sequences is judged.",
  observe=["getters", "relatives", "refusals", "repr"])

P("M01", "What is taken out is let go",
  "A collection refers to the values it holds and to no others: whatever was removed, dequeued, "
  "popped, overwritten, pushed out by a full queue or cleared is let go of at once (or by the next "
  "garbage collection), and so is everything in a collection that is itself let go of. Derived "
  "collections keep only their own values. However long the history, an emptied collection takes no "
  "more memory than one that was never filled, apart from a fixed reserve.",
  ["histories"],
  "Every kind, every way of removing, every length of history.",
  "A reference left behind changes no answer: no assertion on results can see it, only the values' "
  "own end and the growth over thousands of changes can.",
  ALL,
  [("_remove_node", LL), ("_remove_node", DL), ("_remove_node", CL), ("pop", ST),
   ("_enqueue, dequeue", QU), ("append_right, pop_left", DQ), ("dequeue", PQ), ("remove", SK),
   ("clear", TR), ("_remove_node", BS), ("remove", AV), ("remove", RB), ("remove", SP),
   ("remove", TP), ("_heappop", HE), ("remove", TI), ("remove", RT)],
  "Weak references to every value ever put in are counted after every step against what the "
  "collection says it holds; traced allocations are compared before and after thousands of changes "
  "that end empty, growth counting only if it recurs three times in a row.",
  "runtime monitoring: weak-reference liveness oracle and allocation tracing",
  "Liveness is judged after every step of the explored histories, memory after each long one. The "
  "collections of numbers and words hold values that can't be referred to weakly, for them only the "
  "memory is judged.",
  observe=["ends of values", "traced memory"])

P("P01", "Instances don't get in each other's way, nor do readers of one instance",
  "Work on separate instances has the same results however its steps interleave (threads with an "
  "instance each, loops over one inside operations on another). Any number of threads may ask one "
  "instance at once, drawing, iterating, comparing, searching and deriving new collections, and each "
  "gets the answers it would get alone, as long as nobody changes it. (Membership of a splay tree "
  "moves its nodes and counts as a change.)",
  ["schedules", "histories"],
  "Every interleaving of the steps of the library's code, for every kind of collection.",
  "Scratch state kept on a class, a module or the instance gives right answers to every sequential "
  "test, and wrong ones only if two uses overlap in the middle.",
  ALL,
  [("_basic_node, _compare", LL), ("__iter__", LL), ("__iter__", CL), ("_print_queue", QU),
   ("SHOW_PRIORITY", PQ), ("__print_node", SK), ("traversals", BT), ("__print_subtree", TR),
   ("_insert, _remove", BS), ("insert", RB), ("splay", SP), ("heapify", HE), ("auto_complete", TI),
   ("auto_complete", RT), ("queries", SX)],
  "Threads pass a baton at lines or single bytecodes of the library in an order drawn from the seed; "
  "everything each of them got and saw is compared with what it gets alone.",
  "runtime monitoring: seeded schedule control over interpreter events, sequential-result oracle",
  "Sampled schedules at the granularity of lines and bytecodes, each repeatable from its seed; what "
  "depends on chance (heights of skip lists, random priorities) is left out or settled.",
  observe=["all results", "whole observable state"],
  assumptions=["Two threads changing one instance is nothing the library promises anything about.",
               "Class-wide switches (SHOW_PRIORITY) and the random source are settled beforehand."])

P("D01", "A history's outcome depends on nothing but the history",
  "The same operations on the same values, with the same seeds where chance plays a part, give the "
  "same answers, errors, warnings, order and drawings every time: in any interpreter (whatever its "
  "hash seed, assertions on or off), whatever collections were used before in the process, "
  "however often the history is repeated, and on an instance of a derived class which adds nothing. Only the order of a suffix trie's longest repeats, of "
  "which nothing is said, may differ.",
  ["histories", "configurations"],
  "Every history of every kind of collection, after every other history, in every interpreter.",
  "The tests run each script once, in one interpreter with one hash seed and assertions on, each on "
  "a fresh object.",
  ALL,
  [("slices, _compare", LL), ("set of indices of a slice", DL), ("default arguments, capacity", QU),
   ("seeds and random priorities", TP), ("seed", PQ), ("children in a dictionary", TI),
   ("auto_complete, children", RT), ("sets of nodes and suffixes", SX), ("class attributes", IF)],
  "Each history is played in fresh processes: one as usual, one with assertions off, another hash "
  "seed, locale, time zone and working directory and no garbage collection, one after other "
  "histories of the same and other kinds, one process that has seen thousands of them, and once on derived classes; the event "
  "logs (answer, kind of error, number of warnings, whole observable state after each step) have to "
  "agree.",
  "runtime monitoring: offline comparison of event logs recorded in differing interpreters",
  "Sampled histories, compared at every step. Heights of skip lists and unseeded priorities are "
  "left out.",
  observe=["all results, kinds of errors, warnings", "whole observable state after each step"],
  assumptions=["The order of a suffix trie's longest repeats isn't documented and left out."])


# ---------------------------------------------- what several have in common --
SCALE = ("Besides, instances are grown to thousands of elements and drained again, one operation "
         "at a time, and judged whole at every power of two and round number on the way{}.")
for _pid in ("L01", "L03", "Q03", "K01", "K02", "T01", "T02", "T03", "T04", "T05", "H02", "R01"):
    SPEC[_pid]["rule"] += " " + SCALE.format("")
for _pid in ("S01", "Q01", "Q02", "H01"):
    SPEC[_pid]["rule"] += " " + SCALE.format(" (up to 70000)")
for _pid in ("K01", "K02", "E05"):
    SPEC[_pid]["rule"] += (" In half of the cases the coins of skip lists lean to one side or fall "
                           "in runs, for towers and stretches a fair coin hardly ever makes.")
for _pid in ("L01", "L03"):
    SPEC[_pid]["rule"] += " Part of the histories are played on derived classes."
