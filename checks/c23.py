"""C23: truth tables combine as boolean algebra prescribes."""
import struct
import hypothesis.strategies as st
from hv.run import Part, Violation

PROP = "C23"
TECHNIQUE = "stateful property-based testing (Hypothesis): random histories on truth tables, compared with lists of bits after every step; random formulas built as the slicer builds them, compared with their value at all assignments"
NOTE = "Random search; every table read is read at all assignments.  Tables of up to 10 variables (the maximum of the code)."
RULE = ("A case is either a history of up to 30 operations (set, spread, repeat, combine with one of the four operators, copy; with leftovers of earlier tables in the unused bits) on "
        "three tables of up to 10 variables, or a formula of up to 10 variables over the four operators, each node of which spreads one operand, repeats the other one and combines them.  "
        "Non-trivial: at least one spread or repeat of a non-constant table of two or more variables, or a formula over three or more variables.")
MAXV = 10
OPS = {3: lambda a, b: a | b, 0: lambda a, b: a & b, 2: lambda a, b: a & (1 - b), 1: lambda a, b: a ^ b}


@st.composite
def histories(draw):
    r = draw(st.randoms(use_true_random=False))
    n = draw(st.integers(1, 30))
    size = [None] * 3
    ops = []
    for _ in range(n):
        op = draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3, 3, 4]))
        x, y = draw(st.integers(0, 2)), draw(st.integers(0, 2))
        if op == 0 or size[x] is None and op != 4 or op == 4 and size[y] is None:
            have = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10]))
            kind = draw(st.sampled_from(["var", "rand", "rand", "rand"]))
            if kind == "var":
                v = draw(st.integers(0, max(have - 1, 0)))
                bits = [(i >> v) & 1 for i in range(1 << have)]
            else:
                bits = [r.getrandbits(1) for i in range(1 << have)]
            ops.append(["set", x, have, "%x" % int("".join(map(str, bits)), 2)])
            size[x] = have
        elif op in (1, 2):
            add = draw(st.integers(0, MAXV - size[x]))
            ops.append(["spread" if op == 1 else "repeat", x, size[x], add])
            size[x] += add
        elif op == 3:
            if size[y] is None:
                y = x
            have = min(size[x], size[y])
            # both tables are read as tables of the smaller size
            ops.append(["combine", x, y, have, draw(st.sampled_from(sorted(OPS)))])
            size[x] = have
        else:
            ops.append(["copy", x, y, size[y]])
            size[x] = size[y]
    return ops


def run_hist(case, ctx):
    num = struct.unpack("<5I", ctx.server("base").call(struct.pack("<B", 10)))
    # the operator numbers are those of the code: ADD CUT SUB XOR
    name = {3: 0, 0: 1, 2: 2, 1: 3}
    if num[4] != MAXV:
        raise Violation("the maximal number of variables is %d" % num[4])
    msg = struct.pack("<B", 9)
    want = []
    tabs = [None] * 3
    nt = 0
    for o in case:
        x = o[1]
        if o[0] == "set":
            have = o[2]
            bits = [int(c) for c in bin(int(o[3], 16))[2:].zfill(1 << have)]
            msg += struct.pack("<BBBII", 0, x, 0, have, 0) + bytes(bits)
            tabs[x] = bits
        elif o[0] == "spread":
            msg += struct.pack("<BBBII", 1, x, 0, o[2], o[3])
            nt += o[2] >= 2 and o[3] > 0 and len(set(tabs[x])) > 1
            tabs[x] = [b for b in tabs[x] for _ in range(1 << o[3])]
        elif o[0] == "repeat":
            msg += struct.pack("<BBBII", 2, x, 0, o[2], o[3])
            nt += o[2] >= 2 and o[3] > 0 and len(set(tabs[x])) > 1
            tabs[x] = tabs[x] * (1 << o[3])
        elif o[0] == "combine":
            msg += struct.pack("<BBBII", 3, x, o[2], o[3], num[name[o[4]]])
            n = 1 << o[3]
            tabs[x] = [OPS[o[4]](a, b) for a, b in zip(tabs[x][:n], tabs[o[2]][:n])]
        else:
            msg += struct.pack("<BBBII", 4, x, o[2], o[3], 0)
            tabs[x] = list(tabs[o[2]])
        want.append(tabs[x])
    ans = ctx.server(run_hist.exe).call(msg)
    p = 0
    for i, w in enumerate(want):
        got = list(ans[p:p + len(w)])
        p += len(w)
        if got != w:
            bad = next(k for k in range(len(w)) if got[k:k + 1] != w[k:k + 1])
            raise Violation("operation %d, %s: the table's value at assignment %d is %s, expected %d" % (i, case[i][:4], bad, got[bad:bad + 1], w[bad]))
    ctx.nt(nt > 0)
    ctx.label("ops-%d" % (len(case) // 10 * 10))


run_hist.exe = "base"


@st.composite
def formulas(draw):
    n = draw(st.integers(2, MAXV))
    r = draw(st.randoms(use_true_random=False))

    def build(k):
        if k == 1:
            return draw(st.sampled_from(["v", "v", "v", "v", "v", "n"]))
        a = draw(st.integers(1, k - 1))
        return [draw(st.sampled_from(sorted(OPS))), build(a), build(k - a)]
    del r
    return build(n)


def run_formula(case, ctx):
    """Builds the table of each subterm in one of the three registers."""
    num = struct.unpack("<5I", ctx.server("base").call(struct.pack("<B", 10)))
    name = {3: 0, 0: 1, 2: 2, 1: 3}
    dumps = []                         # sizes of the dumped tables

    def table(t):
        """messages producing the table of t: nested operands are rebuilt from their dumped bits"""
        if isinstance(t, str):
            return 1, [0, 1] if t == "v" else [1, 0]
        sa, a = table(t[1])
        sb, b = table(t[2])
        msg = struct.pack("<BBBII", 0, 0, 0, sa, 0) + bytes(a) + struct.pack("<BBBII", 0, 1, 0, sb, 0) + bytes(b)
        msg += struct.pack("<BBBII", 2, 0, 0, sa, sb) + struct.pack("<BBBII", 1, 1, 0, sb, sa)
        msg += struct.pack("<BBBII", 3, 0, 1, sa + sb, num[name[t[0]]])
        ans = ctx.server("base").call(struct.pack("<B", 9) + msg)
        return sa + sb, list(ans[-(1 << (sa + sb)):])

    def value(t, i):
        if isinstance(t, str):
            return (i & 1) ^ (t == "n"), 1
        a, sa = value(t[1], i)
        b, sb = value(t[2], i >> sa)
        return OPS[t[0]](a, b), sa + sb
    s, got = table(case)
    for i in range(1 << s):
        w = value(case, i)[0]
        if got[i] != w:
            raise Violation("the table's value at assignment %s is %d, expected %d" % (bin(i)[2:].zfill(s)[::-1], got[i], w))
    ctx.nt(s >= 3)
    ctx.label("variables-%d" % s)


def run_san(case, ctx):
    run_hist.exe = "base:san"
    try:
        run_hist(case, ctx)
    finally:
        run_hist.exe = "base"


PARTS = [Part("history", histories, run_hist, quick=8000, need=("base",)),
         Part("history-san", histories, run_san, quick=1500, need=("base:san", "base")),
         Part("formula", formulas, run_formula, quick=2500, need=("base",))]
