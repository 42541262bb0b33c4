"""C05: SCC pop-on decoding against a CEA-608 character-memory decoder."""
import itertools

from mc import scc608 as S
from mc.core import Mismatch, Space, prod, seqs
from pycaption import SCCReader
from pycaption.geometry import UnitEnum

ASSUMPTIONS = (
    "well-formed = every PAC is followed by a visible character in its row; one PAC (optionally with tab offset) per row and load, rows of a load sent top to bottom, every extended "
    "character preceded by its stand-in, no backspace over a row start or a mid-row code, extended characters and backspaces "
    "doubled only in streams whose control codes are doubled",
    "a mid-row code is a blank cell; it may merge with neighbouring blanks and be left out before . , ! ? (behaviour fixed by "
    "the test suite); blanks at the ends of a row are invisible",
    "glyphs whose transcription differs between copies of the standard are identified (¦ |, typewriter/curly apostrophe)",
)

ITAL, PLAIN = 14, 0


def single(kind):
    return False


def double(kind):
    return True


MODES = [single, double]


def by_bits(bits):
    """ctl pac mid spec doubled independently; extended characters and backspaces follow the control codes"""
    m = {"ctl": bits & 1, "ext": bits & 1, "bs": bits & 1, "pac": bits & 2, "mid": bits & 4, "spec": bits & 8}
    return lambda k: bool(m[k])


def load(tokens, how=0):
    """tokens of a whole pop-on load.  how: 0 ENM RCL | 1 RCL ENM | 2 RCL only"""
    pre = [[("w", S.ENM), ("w", S.RCL)], [("w", S.RCL), ("w", S.ENM)], [("w", S.RCL)]][how]
    return pre + list(tokens)


EOC = [("w", S.EOC)]
EDM = [("w", S.EDM)]


def place(row, col):
    return (10 + 80 * col / 32.0, 5 + 90 * (row - 1) / 15.0)


def origin(c):
    o = c.layout_info and c.layout_info.origin
    if not o or o.x.unit != UnitEnum.PERCENT or o.y.unit != UnitEnum.PERCENT:
        return None
    return (o.x.value, o.y.value)


def check(lines, ctx, times=None, offset=0, positions=True):
    """lines: [(frames, drop, words)] - compares the captions read with the reference decoder's cues.  times(start, end, cue
    index, cues) is C06's part."""
    doc = S.doc([(S.stamp(f, d), w) for f, d, w in lines])
    ctx.last_input = doc
    cues = S.decode(lines, offset)
    ctx.state(tuple((f, d, tuple(w)) for f, d, w in lines))
    ctx.step(sum(len(w) for _, _, w in lines))
    ctx.outcome(repr([s for _, _, s in cues]))
    caps = ctx.call(SCCReader().read, doc, offset=offset).get_captions("en-US")
    got = []
    for c in caps:
        ls, problem = S.flags(c)
        if problem:
            raise Mismatch(problem, doc, None, c.nodes)
        got.append((c, origin(c), ls))
    show = [(c.start, c.end, o, ["".join(x for x, _ in l) for l in ls]) for c, o, ls in got]
    k = 0
    for ci, (a, b, screen) in enumerate(cues):
        blocks = S.group(screen)
        mine = got[k:k + len(blocks)]
        k += len(blocks)
        if len(mine) < len(blocks):
            raise Mismatch("%d captions instead of %d or more" % (len(got), k), doc, screen, show)
        if any((c.start, c.end) != (mine[0][0].start, mine[0][0].end) for c, _, _ in mine):
            raise Mismatch("parts of one screen have different times", doc, screen, show)
        left = list(mine)
        for row, col, rows in blocks:
            want = place(row, col)
            why = "no caption at row %d column %d" % (row, col)
            for m in left:
                if positions and not (m[1] and abs(m[1][0] - want[0]) < 1e-6 and abs(m[1][1] - want[1]) < 1e-6):
                    continue
                if len(m[2]) != len(rows):
                    why = "%d lines instead of %d" % (len(m[2]), len(rows))
                    continue
                bad = [x for x in (S.match_line(cells, l) for cells, l in zip(rows, m[2])) if x]
                if bad:
                    why = bad[0]
                    continue
                left.remove(m)
                break
            else:
                raise Mismatch("screen %d, row %d: %s" % (ci, row, why), doc, (want, rows), show)
        if positions:
            for c, o, _ in mine:
                for n in c.nodes:
                    if n.type_ == n.TEXT and n.layout_info is not None and n.layout_info.origin != c.layout_info.origin:
                        raise Mismatch("a text of the caption is positioned elsewhere", doc, o, [(x, x.layout_info) for x in c.nodes])
        if times:
            times(ci, cues, mine, doc)
    if k != len(got):
        raise Mismatch("%d captions instead of %d" % (len(got), k), doc, [s for _, _, s in cues], show)
    return doc


def show_words(words):
    return [(300, False, words)]


def single_ok(tokens):
    """single transmission is unambiguous when a decoder sees the same screen as with everything doubled"""
    a = S.decode([(0, True, S.encode(tokens, single))])
    b = S.decode([(0, True, S.encode(tokens, double))])
    return [s for _, _, s in a] == [s for _, _, s in b]


# ---------------------------------------------------------------- 1 every cursor address and preamble attribute
def s_pac():
    def cases():
        return prod(15, 32, 4, 2)

    def run(d, ctx):
        r, a, to, m = d
        toks = load([("pac", r + 1, a, to), ("t", "A")]) + EOC
        check(show_words(S.encode(toks, MODES[m])), ctx)
    return Space("cursor-addresses", "15 rows x 32 preamble attributes x 4 tab offsets x single/doubled", cases, run)


def s_styles():
    def cases():
        return prod(15, 15, 32, [14, 15], 2)

    def run(d, ctx):
        r1, r2, a, i, m = d
        if r1 == r2 or r2 == r1 - 1:
            return
        toks = load([("pac", r1 + 1, 14 + i, 0), ("t", "A"), ("pac", r2 + 1, a, 0), ("t", "b")]) + EOC
        check(show_words(S.encode(toks, MODES[m])), ctx)
    return Space("preamble-styles", "every row in italics, then every other row with each of the 32 preamble attributes", cases, run)


def s_abort():
    """memory erased before it was displayed"""
    bodies = [[("pac", 14, 16, 0), ("t", "xy")], [("pac", 13, 14, 1), ("t", "x"), ("pac", 14, 16, 0), ("t", "z")],
              [("pac", 3, 16, 0), ("t", "x"), ("mid", 14), ("t", "z")], [("pac", 15, 20, 0), ("t", "x")]]

    def cases():
        return prod(bodies, len(LOADS), 3, 2)

    def run(d, ctx):
        enm = [("w", S.ENM)]
        toks = load(bodies[d[0]], d[2]) + enm + ([("w", S.RCL)] if d[2] else []) + LOADS[d[1]] + EOC
        check(show_words(S.encode(toks, MODES[d[3]])), ctx)
    return Space("abandoned-loads", "a load erased before it is displayed, then each load shape", cases, run)


# ---------------------------------------------------------------- 2 characters
BAS = [v for v in S.BASIC.values()]
BAS_V = [v for v in BAS if v != " "]


def s_basic():
    def cases():
        return prod(96, 96, 2)

    def run(d, ctx):
        x, y = BAS[d[0]], BAS[d[1]]
        toks = load([("pac", 15, 16, 0), ("t", ("z" + x + y + "z") if d[2] else x + y + "z")]) + EOC
        check(show_words(S.encode(toks, single)), ctx)
    return Space("basic-character-pairs", "all 96x96 pairs of basic characters, in both byte alignments", cases, run)


SPEC = list(S.SPECIAL.values())
EXT = list(S.EXT1.values()) + list(S.EXT2.values())


def s_special():
    ctxs = [("", ""), ("a", ""), ("ab", "c"), ("abc", "de"), ("", "xy"), ("a ", " b")]

    def cases():
        return prod(16, 16, len(ctxs), 2)

    def run(d, ctx):
        a, b = ctxs[d[2]]
        two = SPEC[d[0]] + SPEC[d[1]]
        if d[0] == d[1] and not d[3]:
            two = SPEC[d[0]] + "k" + SPEC[d[1]]
        toks = load([("pac", 3, 18, 1), ("t", "%s%s%s." % (a, two, b))]) + EOC
        check(show_words(S.encode(toks, MODES[d[3]])), ctx)
    return Space("special-character-pairs", "all 16x16 pairs of special characters in 6 contexts, single/doubled", cases, run)


def s_extended():
    before = ["", "q", "pq", "®", "é "]

    def cases():
        return prod(64, len(BAS_V), len(before), 2)

    def run(d, ctx):
        toks = load([("pac", 3, 18, 0), ("t", before[d[2]]), ("ext", BAS_V[d[1]], EXT[d[0]]), ("t", "u" if d[1] % 2 else "")]) + EOC
        check(show_words(S.encode(toks, MODES[d[3]])), ctx)
    return Space("extended-characters", "64 extended characters x 95 stand-ins x 5 preceding texts x single/doubled", cases, run)


def s_ext_ext():
    def cases():
        return prod(64, 64, 2)

    def run(d, ctx):
        toks = load([("pac", 3, 18, 0), ("ext", "o", EXT[d[0]]), ("ext", "n", EXT[d[1]]), ("t", "x")]) + EOC
        check(show_words(S.encode(toks, MODES[d[2]])), ctx)
    return Space("extended-pairs", "all 64x64 pairs of extended characters, single/doubled", cases, run)


# ---------------------------------------------------------------- 3 mid-row codes
def s_mid():
    bef = ["", "a", "ab", "ab "]
    aft = ["c", "cd", " c", ".", "!", "?", ",", ".c"]
    attrs = [0, 14, 15, 16, 18, 20, 22]
    n = [1, 2]

    def cases():
        return prod(attrs, bef, 16, aft, 17, 2)

    def run(d, ctx):
        a, b, m1, x, m2, dbl = d
        if m2 - 1 == m1 and not dbl:
            pass
        toks = [("pac", 7, attrs[a], 0), ("t", bef[b]), ("mid", m1), ("t", aft[x])]
        if m2:
            toks += [("mid", m2 - 1), ("t", "ef")]
        toks = load(toks) + EOC
        check(show_words(S.encode(toks, MODES[dbl])), ctx)
    return Space("mid-row-codes", "7 preambles x 4 texts x 16 mid-row codes x 8 texts x (none + 16 mid-row codes) x single/doubled",
                 cases, run)


def s_mid_chars():
    """every character next to a mid-row code"""
    visible = [("t", v) for v in BAS_V] + [("t", v) for v in SPEC] + [("ext", "o", v) for v in EXT]
    few = [("t", "a"), ("t", "ab"), ("t", "'"), ("t", SPEC[1]), ("ext", "n", EXT[0]), ("t", " ")]

    def cases():
        return prod(len(visible), len(few), 2, [14, 0, 1], [14, 16], 2)

    def run(d, ctx):
        v, f, first, m, a, dbl = d
        x, y = (visible[v], few[f]) if first else (few[f], visible[v])
        toks = load([("pac", 7, a, 0), x, ("mid", m), y, ("t", "ef")]) + EOC
        check(show_words(S.encode(toks, MODES[dbl])), ctx)
    return Space("mid-row-neighbours", "every basic, special and extended character before and after 3 mid-row codes with 6 texts on the other side, "
                 "plain/italic preamble, single/doubled", cases, run)


# ---------------------------------------------------------------- 4 two and three rows
def s_rows(tier):
    attrs = [16, 14, 20, 30] if tier == "quick" else [0, 14, 15, 16, 20, 22, 24, 28, 30]

    def cases():
        for r1 in range(1, 16):
            for r2 in range(1, 16):
                if r2 == r1 or r2 == r1 - 1:
                    continue
                for a1, a2, t1, t2, m in prod(attrs, attrs, 4, 4, 2):
                    yield (r1, r2, a1, a2, t1, t2, m)

    def run(d, ctx):
        r1, r2, a1, a2, t1, t2, m = d
        toks = load([("pac", r1, attrs[a1], t1), ("t", "A"), ("pac", r2, attrs[a2], t2), ("t", "b")]) + EOC
        check(show_words(S.encode(toks, MODES[m])), ctx)
    return Space("row-pairs", "every ordered pair of rows (not one directly above the row sent before it) x %d x %d preambles x 4 x 4 "
                 "tab offsets x single/doubled" % (len(attrs), len(attrs)), cases, run)


def s_rows3(tier):
    attrs = [16, 14, 22]
    rows = [(1, 2, 3), (1, 2, 4), (1, 3, 4), (1, 3, 5), (13, 14, 15), (12, 14, 15), (11, 13, 15), (1, 8, 15), (14, 1, 2), (15, 2, 3), (9, 10, 5)]

    def cases():
        return prod(rows, attrs, attrs, attrs, 3, 3, 3, 2, 2)

    def run(d, ctx):
        r = rows[d[0]]
        toks = []
        for i in range(3):
            toks += [("pac", r[i], attrs[d[1 + i]], d[4 + i]), ("t", "Ab"[:1 + d[8]])]
        check(show_words(S.encode(load(toks) + EOC, MODES[d[7]])), ctx)
    return Space("row-triples", "%d row triples x 3^3 preambles x 3^3 tab offsets x text parity x single/doubled" % len(rows), cases, run)


# ---------------------------------------------------------------- 5 token sequences inside one load
ALPHA = [("t", "A"), ("t", "bc"), ("t", " "), ("t", "."), ("t", "®"), ("ext", "e", "É"), ("mid", 14), ("mid", 0), ("bs",),
         ("row", 1, 16, 0), ("row", 1, 14, 1), ("row", 2, 20, 0), ("row", 2, 14, 2), ("row", 1, 22, 2)]


def well_formed(seq):
    """resolve 'row' tokens; None when the sequence is outside the domain"""
    out, row, n = [], 11, 0
    last = None
    vis = []
    for t in seq:
        if t[0] == "row":
            if not any(vis):
                return None
            vis = []
            row += t[1]
            if row > 15:
                return None
            out.append(("pac", row, t[2], t[3]))
            n = 0
        elif t[0] == "bs":
            if n < 1 or last in ("mid", "pac", "row"):
                return None
            out.append(t)
            n -= 1
            vis.pop()
        elif t[0] == "mid":
            if last == "mid":
                return None
            out.append(t)
            n += 1
            vis.append(False)
        else:
            out.append(t)
            new = [c != " " for c in t[1]] if t[0] == "t" else [True]
            n += len(new)
            vis += new
        last = t[0]
    return out if any(vis) else None


def s_tokens(tier):
    hi = 4 if tier == "quick" else 5

    def cases():
        for s in seqs(ALPHA, 1, hi):
            for a in (0, 1):
                yield (s, a)

    def run(d, ctx):
        toks = well_formed([ALPHA[i] for i in d[0]])
        if toks is None:
            ctx.count("outside_domain")
            return
        toks = load([("pac", 11, (16, 14)[d[1]], 0)] + toks) + EOC
        for m in MODES:
            if m is single and not single_ok(toks):
                ctx.count("single_transmission_ambiguous")
                continue
            w = S.encode(toks, m)
            if not S.decode(show_words(w)):
                ctx.count("blank_screen")
                continue
            # a visible sentinel load makes an otherwise blank result legal input; rows that end up blank are legal too
            check(show_words(w), ctx)
    return Space("token-sequences", "every sequence of 1..%d tokens (texts, special, extended, mid-row, backspace, next-row and "
                 "skip-row preambles) after a plain or italic preamble, single and doubled" % hi, cases, run)


# ---------------------------------------------------------------- 6 several loads: no state leaks from one screen to the next
LOADS = [
    [("pac", 15, 16, 0), ("t", "ab")],
    [("pac", 14, 16, 0), ("t", "cd")],
    [("pac", 14, 20, 1), ("t", "e"), ("pac", 15, 16, 0), ("t", "fg")],
    [("pac", 1, 14, 0), ("t", "hi")],
    [("pac", 15, 18, 2), ("t", "j"), ("mid", 14), ("t", "kl")],
    [("pac", 13, 16, 0), ("ext", "n", "Ñ" if False else "Ö"), ("t", "m"), ("bs",), ("t", "p")],
    [("pac", 2, 20, 0), ("t", "q"), ("pac", 5, 14, 3), ("t", "rs")],
    [("pac", 15, 14, 0), ("t", "®"), ("pac", 13, 16, 0), ("t", "u")],
    [("pac", 15, 20, 0), ("t", "v")],
    [("pac", 15, 16, 1), ("t", "w")],
]
# how one load is sent: 0 ENM RCL text EDM EOC | 1 RCL ENM text EOC | 2 RCL text EDM EOC | 3 text now, EDM EOC on the next line |
# 4 erased by a line of its own | 5 EDM EOC of this load share a line with the next load
STYLES = 6


def program(loads, dbl, gap=120, drop=False, start=300):
    """[(tokens, style)] -> lines [(frames, drop, words)]"""
    lines = []
    carry = []
    f = start
    each = dbl if isinstance(dbl, (list, tuple)) else [dbl] * len(loads)        # one way of doubling, or one per load
    for (toks, st), dbl in zip(loads, each):
        toks = list(toks)
        if st == 0:
            seq = [load(toks) + EDM + EOC]
        elif st == 1:
            seq = [load(toks, 1) + EOC]
        elif st == 2:
            seq = [load(toks, 2) + EDM + EOC]
        elif st == 3:
            seq = [load(toks), EDM + EOC]
        elif st == 4:
            seq = [load(toks) + EOC, EDM]
        else:
            seq = [load(toks), None]
        seq[0] = carry + seq[0]
        carry = []
        for s in seq:
            if s is None:
                carry = [("w", S.RCL)] + EDM + EOC
                continue
            lines.append((f, drop, S.encode(s, dbl)))
            f += gap
    if carry:
        lines.append((f, drop, S.encode(carry, dbl)))
    return lines


def unambiguous(lines_of):
    """same screens whether or not everything is doubled"""
    a, b = [[s for _, _, s in S.decode(lines_of(m))] for m in MODES]
    return a == b


def s_loads(tier):
    n = len(LOADS)

    def cases():
        for s in seqs(n, 2, 2):
            for st in prod(*[STYLES] * 2):
                for m in (0, 1):
                    yield (s, st, m)
        k = n if tier != "quick" else 7
        for s in seqs(k, 3, 3):
            for st in (prod(*[STYLES] * 3) if tier != "quick" else [(x,) * 3 for x in range(STYLES)]):
                for m in (0, 1):
                    yield (s, st, m)

    def run(d, ctx):
        ls = [(LOADS[i], st) for i, st in zip(d[0], d[1])]
        if not unambiguous(lambda m: program(ls, m)):
            ctx.count("outside_domain")
            return
        check(program(ls, MODES[d[2]]), ctx)
    return Space("load-sequences", "all sequences of 2 loads (10 shapes x 6 ways of transmission each) and of 3 loads, single and doubled",
                 cases, run)


def s_mixed(tier):
    def cases():
        return prod(len(LOADS), len(LOADS), STYLES, 16)

    def run(d, ctx):
        ls = [(LOADS[d[0]], d[2]), (LOADS[d[1]], d[2])]
        if not unambiguous(lambda m: program(ls, m)):
            ctx.count("outside_domain")
            return
        check(program(ls, by_bits(d[3])), ctx)
    return Space("mixed-doubling", "all pairs of loads x 6 ways x each of control/preamble/mid-row/special codes single or doubled",
                 cases, run)


def s_full_rows():
    """rows up to the full width, with a change of style at every place"""
    text = "the quick, brown fox. jumps over it again"

    def cases():
        for n in range(1, 33):
            for i in range(n + 1):
                for k, m in prod(5, 2):
                    yield (n, i, k, m)

    def run(d, ctx):
        n, i, k, m = d
        t = text[:n]
        mid = [[], [("mid", 14)], [("mid", 0)], [("mid", 14)], [("mid", 14)]][k]
        if mid and n == 32:
            t = t[:31]
        body = [("t", t[:i])] + mid + [("t", t[i:])]
        if k == 3 and i + 2 < len(t) < 31:
            body = [("t", t[:i]), ("mid", 14), ("t", t[i:i + 2]), ("mid", 0), ("t", t[i + 2:])]
        if k == 4:
            body += [("pac", 15, 16, 0), ("t", text[:33 - n])]
        body = [x for x in body if x != ("t", "")]
        toks = load([("pac", 14, [16, 14][k == 2], 0)] + body) + EOC
        if k in (1, 2, 3, 4) and not any(x[0] == "t" and x[1].strip() for x in body):
            return
        check(show_words(S.encode(toks, MODES[m])), ctx)
    return Space("full-rows", "rows of 1..32 columns with a change of style (none, on, off, on and off, on before another row) at every place x single/doubled", cases, run)


def s_row_sets(tier):
    """every set of rows sent from top to bottom"""
    def cases():
        for n in range(1, 5 if tier == "quick" else 7):
            for rows in itertools.combinations(range(1, 16), n):
                for v, m in prod(3, 2):
                    yield (rows, v, m)

    def run(d, ctx):
        rows, v, m = d
        toks = []
        for i, r in enumerate(rows):
            toks += [("pac", r, [16, 14, 20][(i * v + v) % 3], 0), ("t", "abcd"[i % 4] * (1 + (i + v) % 3))]
        check(show_words(S.encode(load(toks) + EOC, MODES[m])), ctx)
    return Space("row-sets", "every set of 1..%d of the 15 rows, sent from top to bottom, 3 patterns of preambles, single/doubled" % (4 if tier == "quick" else 6), cases, run)


def s_changing(tier):
    """the loads of one program are doubled or not independently of each other"""
    n = 7 if tier == "quick" else len(LOADS)

    def cases():
        for s in seqs(len(LOADS), 2, 2):
            for st in prod(STYLES, STYLES):
                for m in ((0, 1), (1, 0)):
                    yield (s, st, m)
        for s in seqs(n, 3, 3):
            for st in (0, 3, 5) if tier == "quick" else range(STYLES):
                for m in prod(2, 2, 2):
                    if 0 < sum(m) < 3:
                        yield (s, (st,) * 3, m)

    def run(d, ctx):
        ls = [(LOADS[i], st) for i, st in zip(d[0], d[1])]
        if not unambiguous(lambda m: program(ls, m)):
            ctx.count("outside_domain")
            return
        check(program(ls, [MODES[m] for m in d[2]]), ctx)
    return Space("changing-doubling", "all sequences of 2 loads x 6 ways each and of 3 loads in which some loads are sent doubled and others not", cases, run)


def long_loads(n, first, step, st):
    """way 2 leaves out the erase of the loading memory, which is only right when the screen before the last one was erased: way 0 instead"""
    ways = [0, 1, 0, 3, 4, 5]
    return [(LOADS[(first + step * i) % len(LOADS)], ways[(st + (i * i) // 3) % STYLES]) for i in range(n)]


def s_long():
    lens, steps = [5, 9, 17, 40], [1, 3, 7]

    def cases():
        return prod(lens, len(LOADS), steps, STYLES, 2)

    def run(d, ctx):
        ls = long_loads(lens[d[0]], d[1], steps[d[2]], d[3])
        if not unambiguous(lambda m: program(ls, m)):
            ctx.count("outside_domain")
            return
        check(program(ls, MODES[d[4]]), ctx)
    return Space("long-programs", "programs of 5, 9, 17 and 40 loads: 10 beginnings x 3 orders of the shapes x 5 ways x single/doubled", cases, run)


def spaces(tier):
    return [s_pac(), s_styles(), s_abort(), s_basic(), s_special(), s_extended(), s_ext_ext(), s_mid(), s_mid_chars(), s_rows(tier), s_rows3(tier), s_tokens(tier),
            s_loads(tier), s_mixed(tier), s_changing(tier), s_long(), s_full_rows(), s_row_sets(tier)]
