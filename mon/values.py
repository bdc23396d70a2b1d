"""Value pools: what gets stored in the containers under test."""
import random


class Thing:
    """A plain user object (identity equality)."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Thing#{self.n}"


class Point:
    """A user object with value equality and an ordering."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Point) and self.x == other.x

    def __lt__(self, other):
        return self.x < other.x

    def __hash__(self):
        return hash(("P", self.x))

    def __repr__(self):
        return f"P({self.x})"


class Tag(str):
    """Text of a class of its own."""


class Count(int):
    """A number of a class of its own."""


class Row(tuple):
    pass


class Bag(dict):
    pass


class Yes:
    """Equal to everything, None included."""

    def __eq__(self, other):
        return True

    __hash__ = None

    def __repr__(self):
        return "Yes"


class Mute:
    """Won't be compared, nor asked whether it is true."""

    def __eq__(self, other):
        raise ArithmeticError("compared")

    def __bool__(self):
        raise ArithmeticError("asked")

    __hash__ = None

    def __repr__(self):
        return "Mute"


def _exotic(r):
    k = r.randrange(30)
    return [
        lambda: True, lambda: False, lambda: 0, lambda: 0.0, lambda: -1,
        lambda: 1.0, lambda: 2 ** 70, lambda: float("inf"), lambda: "",
        lambda: " ", lambda: "a\nb", lambda: "\n", lambda: "0",
        lambda: "None", lambda: "é⟶│", lambda: "x" * r.choice([1, 30, 90]),
        lambda: (), lambda: (1, (2, "b\n")), lambda: [], lambda: [None, 1],
        lambda: {}, lambda: {"k": None}, lambda: Thing(r.randrange(9)),
        lambda: Point(r.randrange(4)), lambda: b"x\n", lambda: 3 - 2j,
        lambda: Tag(r.choice(["", "t", "0"])), lambda: Count(r.randrange(3)),
        lambda: Row((1, "r")), lambda: Bag(k=1),
    ][k]()


M61 = 2 ** 61 - 1
#: different values which something about them (their hash, case, length, text,
#: beginning, magnitude) could make pass for one another
ALIKE = [[-1, -2, 0, 1], [0, M61, -M61, 2 * M61, "", 5], [7, 7 + M61, 7 - M61, -7, 7.5],
         ["a", "A", "á", "a\u0301", "\u00e1", "a ", " a", "ａ"], ["ß", "ss", "ẞ", "SS", "ſs"],
         ["x" * 70, "x" * 71, "x" * 69 + "y", "x" * 64], [1, "1", b"1", 1j, (1,), "1.0", [1]],
         [2 ** 53, 2 ** 53 + 1, float(2 ** 53), 2 ** 53 + 2], [0, 2 ** 32, 2 ** 64, -2 ** 63],
         [1e-13, 2e-13, 0, -1e-13, 5e-324]]


def obj_pool(r, kind=None):
    """A function giving values for the containers which accept anything."""
    kind = kind or r.choice(["few", "few", "ints", "exotic", "mixed", "eq", "strs", "uniq", "alike"])
    if kind == "few":
        k = r.choice([1, 2, 3, 5])
        return kind, lambda: r.randrange(k)
    if kind == "ints":
        return kind, lambda: r.randint(-1000, 1000)
    if kind == "exotic":
        return kind, lambda: _exotic(r)
    if kind == "eq":
        return kind, lambda: r.choice([0, 0.0, False, 1, 1.0, True, 2, 2.0, "1", "0"])
    if kind == "alike":
        few = r.choice(ALIKE)
        return kind, lambda: r.choice(few)
    if kind == "strs":
        abc = r.choice(["ab \n", "ab \n", "a\r\n\\", "a\0\x01", "a\t\x85\u2028\v", "e\u0301é\u200b", "{}%"])
        return kind, lambda: "".join(r.choice(abc) for _ in range(r.randrange(4)))
    if kind == "uniq":
        ctr = [0]

        def nxt():
            ctr[0] += 1
            return ctr[0]

        return kind, nxt
    return kind, lambda: r.choice([r.randrange(4), _exotic(r), str(r.randrange(3)), r.random()])


def stored(v):
    """How a value is kept: text keeps its line breaks in escaped form."""
    return v.replace("\n", "\\n") if type(v) is str else v


def num_pool(r, kind=None):
    """A function giving numbers for the containers which hold only numbers."""
    kind = kind or r.choice(
        ["dense", "dense", "dense", "wide", "float", "mix", "extreme", "tiny", "near", "alike"])
    if kind == "dense":
        k = r.choice([3, 6, 10, 16, 30, 64])
        return kind, lambda: r.randrange(k)
    if kind == "tiny":
        k = r.choice([1, 2, 3])
        return kind, lambda: r.randrange(k) - 1
    if kind == "wide":
        return kind, lambda: r.randint(-10 ** 6, 10 ** 6)
    if kind == "float":
        return kind, lambda: r.choice([r.uniform(-5, 5), r.randrange(-20, 20) / 4])
    if kind == "mix":
        return kind, lambda: r.choice([int, float])(r.randrange(-6, 12)) + r.choice([0, 0, 0.5])
    if kind == "alike":
        few = r.choice([[-1, -2, 0, 1, -3], [7, 7 + M61, 7 - M61, -7, 7.5, 2 * M61 + 7],
                        [0, M61, -M61, 2 * M61, 1], [0, 2 ** 32, 2 ** 64, -2 ** 63, 2 ** 31, -1]])
        return kind, lambda: r.choice(few)
    if kind == "near":
        base, step = r.choice([(1, 2 ** -52), (0.3, 2 ** -54), (1e-9, 1e-12), (0, 5e-324),
                               (2 ** 53, 1), (10 ** 400, 1), (1e6, 1e-9), (0, 1e-9)])
        return kind, lambda: base + r.randrange(8) * step
    pool = [0, -0.0, 2 ** 53, 2 ** 53 + 1, float(2 ** 53), -2 ** 53 - 1, 10 ** 30,
            1e30, -1e30, 1e-300, -1e-300, float("inf"), 5e-324, 1, -1, 1.5, 1e16, 7, 8, 9,
            float("-inf"), 1.7e308, -1.7e308, 1e301, 10 ** 400, -10 ** 400]
    return "extreme", lambda: r.choice(pool)


def priorities(r):
    """A function giving priorities: tied, drawn by the collection (None), far
    apart or hardly apart, of any magnitude."""
    return r.choice([
        lambda: None, lambda: r.randrange(3), lambda: r.randrange(10), lambda: r.randrange(101),
        lambda: r.choice([None, r.randrange(101)]), lambda: r.randint(-50, 150),
        lambda: r.uniform(-1, 1), lambda: r.uniform(-9, 9),
        lambda: r.choice([0, -1, 1.5, -2.5, 0.0, 1, 2 ** 60, float("inf"), float("-inf"), 200,
                          -0.5, 1e9]),
        lambda: r.choice([1, 1 + 2 ** -52, 1 + 1e-12, 1 - 1e-12, .1 + .2, .3, 5e-324, 0,
                          -5e-324, 1e-300]),
        lambda: r.choice([2 ** 53, 2 ** 53 + 1, float(2 ** 53), 2 ** 53 - 1, float(2 ** 53 + 2)]),
        lambda: r.choice([10 ** 400, 10 ** 400 + 1, -10 ** 400, 1e308, -1e308, 0.5, 3]),
        lambda: r.choice([-1, -2, 0, M61, -M61, M61 - 1])])


def frac(r):
    """A relative position, biased towards the two ends."""
    x = r.random()
    if x < 0.18:
        return 0.0
    if x < 0.36:
        return 0.999999999
    return r.random()


def at(f, n):
    """Turns a relative position into an index in range(n)."""
    return min(int(f * n), n - 1)


def rng(*key):
    return random.Random("/".join(map(str, key)))


# --------------------------------------------------------------------- chance --
class _Leaning(random.Random):
    """A source whose bits fall on one side more often than not, and in runs."""

    def __init__(self, seed, ones, runs):
        self.ones, self.runs, self.last = ones, runs, 0
        super().__init__(seed)

    def _bit(self):
        x = super().random()
        if x >= self.runs:
            self.last = int(super().random() < self.ones)
        return self.last

    def getrandbits(self, k):
        n = 0
        for _ in range(k):
            n = n << 1 | self._bit()
        return n

    def random(self):
        return (self._bit() + super().random()) / 2


class leaning:
    """While inside, the module-wide source of chance leans as `how` says (None:
    it doesn't)."""
    NAMES = ("random", "getrandbits", "choice", "choices", "randint", "randrange", "uniform",
             "sample", "shuffle")

    def __init__(self, how):
        self.how = how

    def __enter__(self):
        if self.how:
            src = _Leaning(*self.how)
            self.was = {n: getattr(random, n) for n in self.NAMES}
            for n in self.NAMES:
                setattr(random, n, getattr(src, n))

    def __exit__(self, *exc):
        if self.how:
            for n, v in self.was.items():
                setattr(random, n, v)


def lean(r, most=.95):
    """How chance leans in a case: usually not at all."""
    if r.random() < .5:
        return None
    ones = r.choice([.02, .1, .25, .5, .75, .9, .95])
    ones = min(max(ones, 1 - most), most)
    return [r.getrandbits(32), ones, r.choice([0, 0, .3, .7])]
