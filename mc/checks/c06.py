"""C06: SCC pop-on timing against exact frame arithmetic."""
from fractions import Fraction

from mc import scc608 as S
from mc.checks.c05 import EDM, EOC, LOADS, MODES, STYLES, check, load, long_loads, program, unambiguous
from mc.core import Mismatch, Space, prod, seqs
from pycaption import SCCReader
from pycaption.exceptions import CaptionReadTimingError

ASSUMPTIONS = (
    "well-formed programs as in C05; the lines of a stream do not overlap in transmission time and carry one kind of timecode",
    "a gap of exactly five frames may or may not be closed; a gap that is shorter than five frames only because times were floored "
    "at zero may or may not be closed; the 50 ms limit applies to the duration after gaps were closed",
    "times compared to 0.01 microsecond (readers compute in floating point)",
)

LIMIT = 50000
TOL = Fraction(1, 100)


def close(x, y):
    return abs(Fraction(x) - y) <= TOL


def expected(lines, offset):
    """[(start, [possible ends], screen)], floored ends list"""
    cues = S.decode(lines, offset)
    raw = S.decode(lines, -10 ** 6)
    drop = lines[0][1]
    five = S.instant(5, drop)
    out = []
    dead = []
    for i, (a, b, scr) in enumerate(cues):
        if b is None:
            ends = [a + 4000000]
        elif i + 1 < len(cues):
            nxt = cues[i + 1][0]
            rg = raw[i + 1][0] - raw[i][1]
            if rg < five:
                ends = [nxt]
            elif rg == five or nxt - b < five + 2:
                ends = [b, nxt]
            else:
                ends = [b]
        else:
            ends = [b]
        out.append((a, ends, scr))
        dead.append(b is not None and b < TOL)
    return out, dead


def run_timed(lines, ctx, offset=0):
    doc = S.doc([(S.stamp(f, d), w) for f, d, w in lines])
    exp, dead = expected(lines, offset)
    if not exp:
        ctx.count("blank_programs")
        return
    ctx.last_input = doc
    ctx.state((doc, offset))
    ctx.step(sum(len(w) for _, _, w in lines))
    ctx.outcome(repr([(a, b) for a, b, _ in exp]))
    shown = [[a + 0.0, [float(x) for x in b]] for a, b, _ in exp]
    cs, exc = ctx.call_exc(SCCReader().read, doc, offset=offset)

    def short(lo):
        return [i for i, (a, ends, _) in enumerate(exp) if lo(e - a < LIMIT + (1 if lo is any else -1) for e in ends)]
    if exc is not None:
        if isinstance(exc, CaptionReadTimingError) and short(any):
            ctx.count("rejected_short_cues")
            return
        raise Mismatch("unexpected %s: %s" % (type(exc).__name__, exc), doc, shown, None)
    caps = cs.get_captions("en-US")
    show = [(c.start, c.end, c.get_text()) for c in caps]
    must = [i for i in short(all) if not dead[i]]
    if must:
        raise Mismatch("a cue displayed for less than 0.05 s is returned", (doc, offset), shown, show)
    k = 0
    finding = None
    for i, (a, ends, scr) in enumerate(exp):
        n = len(S.group(scr))
        for c in caps[k:k + n]:
            if not close(c.start, a):
                raise Mismatch("caption %d starts at %r instead of %r" % (i, c.start, float(a)), (doc, offset), shown, show)
            if not any(close(c.end, e) for e in ends):
                taken_as_open = exp[i + 1][0] if i + 1 < len(exp) else a + 4000000
                if dead[i] and (close(c.end, taken_as_open) or c.end == a + 4000000):
                    finding = Mismatch("a caption that ends at or before the offset is shown until the next one", (doc, offset), shown,
                                       show, key="offset-past-end")
                    continue
                raise Mismatch("caption %d ends at %r instead of %r" % (i, c.end, [float(e) for e in ends]), (doc, offset), shown, show)
            if c.start > c.end:
                raise Mismatch("start > end", (doc, offset), shown, show)
        if len(caps) < k + n:
            raise Mismatch("%d captions instead of %d" % (len(caps), k + n), (doc, offset), shown, show)
        k += n
    if k != len(caps):
        raise Mismatch("%d captions instead of %d" % (len(caps), k), (doc, offset), shown, show)
    if any(x.start > y.start for x, y in zip(caps, caps[1:])):
        raise Mismatch("captions out of order", (doc, offset), shown, show)
    if finding:
        raise finding


# ---------------------------------------------------------------- programs with exact gaps between lines
STARTS = [300, 0, 1, 29, 30 * 60 - 1, 30 * 3600 - 2, 30 * 3600 * 10 + 59 * 1800 + 17, 30 * 86399 - 45, 30 * 75 + 8]
OFFSETS = [0, 1, -2, 10, 0.5, 12.3, 10.2]
GAPS = [0, 1, 2, 3, 4, 5, 6, 7, 30]


def tight(loads, dbl, gaps, drop, start):
    """as program(), but line i+1 starts gaps[i] frames after the transmission of line i ends"""
    lines = program(loads, dbl, drop=drop)
    out = []
    f = start
    for i, (_, d, w) in enumerate(lines):
        out.append((f, d, w))
        f += len(w) + gaps[i % len(gaps)]
    return out


SHAPES = [0, 3, 6, 9]


def s_grid(tier):
    shapes = SHAPES[:2] if tier == "quick" else SHAPES

    def cases():
        return prod(shapes, STYLES, STYLES, GAPS, 2, 2, STARTS if tier != "quick" else 4, OFFSETS if tier != "quick" else 4)

    def run(d, ctx):
        sh, s1, s2, g, m, drop, st, of = d
        loads = [(LOADS[shapes[sh]], s1), (LOADS[8], s2)]
        if not unambiguous(lambda mm: program(loads, mm)):
            ctx.count("outside_domain")
            return
        run_timed(tight(loads, MODES[m], [GAPS[g]], bool(drop), STARTS[st]), ctx, OFFSETS[of])
    return Space("line-gaps", "2 loads x 6x6 ways of transmission x 9 gaps x single/doubled x drop/non-drop x start times x offsets", cases, run)


def s_starts():
    def cases():
        return prod(LOADS, STYLES, 2, 2, STARTS, OFFSETS)

    def run(d, ctx):
        loads = [(LOADS[d[0]], d[1])]
        if not unambiguous(lambda mm: program(loads, mm)):
            ctx.count("outside_domain")
            return
        run_timed(tight(loads, MODES[d[2]], [40], bool(d[3]), STARTS[d[4]]), ctx, OFFSETS[d[5]])
    return Space("start-times", "10 loads x 6 ways x single/doubled x drop/non-drop x 9 line timecodes x 7 offsets", cases, run)


NUL = ("w", "8080")


def s_inline(tier):
    hi = 14 if tier == "quick" else 40
    offs = [0, 0.5, 10.9, 10.6] if tier == "quick" else OFFSETS + [10.9, 10.6, 10.55, 10.7]

    def cases():
        return prod(2, hi, hi, 2, 2, offs, 3)

    def run(d, ctx):
        shape, e, g, m, drop, of, sh = d
        one = load([("pac", 15, 16, 0), ("t", "ab")])
        two = [[("pac", 14, 16, 0), ("t", "c")], [("pac", 2, 16, 0), ("t", "c"), ("pac", 9, 20, 1), ("t", "d")],
               [("pac", 15, 14, 0), ("t", "e")]][sh]
        if shape == 0:      # one EOC, e idle words, EDM, load two, g idle words, EOC
            toks = one + EOC + [NUL] * e + EDM + [("w", S.RCL)] + two + [NUL] * g + EOC
        else:               # one EOC, load two, e idle words, EDM, g idle words, EOC
            toks = one + EOC + [("w", S.RCL)] + two + [NUL] * e + EDM + [NUL] * g + EOC
        dbl = MODES[m]
        run_timed([(300, bool(drop), S.encode(toks, dbl))], ctx, offs[of])
    return Space("inline-gaps", "display and gap lengths of every number of frames up to %d within one line x two orders of erase and load x "
                 "single/doubled x drop/non-drop x %d offsets x 3 second screens" % (hi, len(offs)), cases, run)


def s_limit():
    """the first cue is shown for little more or less than the limit, because its start is floored at zero"""
    eps = [-2, -1, -0.5, -0.25, 0, 0.25, 0.5, 1, 2]

    def cases():
        return prod(len(eps), 9, 2, 2, 3)

    def run(d, ctx):
        i, e, m, drop, follow = d
        toks = load([("pac", 15, 16, 0), ("t", "ab")]) + EDM + EOC + [NUL] * e + EDM
        lines = [(300, bool(drop), S.encode(toks, MODES[m]))]
        if follow:
            lines.append((300 + [0, 60, 1000][follow], bool(drop), S.encode(load([("pac", 14, 16, 0), ("t", "cd")], 1) + EOC, MODES[m])))
        end = S.decode(lines, 0)[0][1]
        off = (end - LIMIT - Fraction(eps[i])) / 1000000
        off = round(float(off), 9)
        run_timed(lines, ctx, off)
    return Space("flash-limit", "a cue whose start is floored at zero and that is cleared 50 ms + %s microseconds after it, after 0..8 frames x what follows x "
                 "single/doubled x timecode" % eps, cases, run)


def s_flash():
    """a displayed cue is cleared after e frames by an erase or an empty screen; nothing or a late cue follows"""
    def cases():
        return prod(12, 2, 3, 2, 2, [0, 10, 10.3])

    def run(d, ctx):
        e, how, follow, m, drop, of = d
        toks = load([("pac", 15, 16, 0), ("t", "ab")]) + EDM + EOC + [NUL] * e + (EDM if how == 0 else [("w", S.ENM), ("w", S.RCL)] + EOC)
        lines = [(300, bool(drop), S.encode(toks, MODES[m]))]
        if follow:
            lines.append((300 + [0, 60, 1000][follow], bool(drop), S.encode(load([("pac", 14, 16, 0), ("t", "cd")], 1) + EOC, MODES[m])))
        run_timed(lines, ctx, [0, 10, 10.3][of])
    return Space("flash-cues", "a cue cleared after 1..12 frames by an erase or an empty screen x what follows x single/doubled x timecode x "
                 "offset", cases, run)


def s_loads(tier):
    n = 7 if tier == "quick" else 10

    def cases():
        for s in seqs(n, 3, 3):
            for st in range(STYLES):
                for m, drop in prod(2, 2):
                    yield (s, (st, (st + 1) % STYLES, (st + 3) % STYLES), m, drop)
                    yield (s, (st, st, st), m, drop)
        if tier != "quick":
            for s in seqs(4, 4, 4):
                for st in prod(*[STYLES] * 4):
                    for m in range(2):
                        yield (s, st, m, 0)

    def run(d, ctx):
        loads = [(LOADS[i], st) for i, st in zip(d[0], d[1])]
        if not unambiguous(lambda mm: program(loads, mm)):
            ctx.count("outside_domain")
            return
        run_timed(tight(loads, MODES[d[2]], [3, 45, 0, 5], bool(d[3]), 7), ctx)
    return Space("load-sequences", "all sequences of 3 loads x ways of transmission x single/doubled x drop/non-drop", cases, run)


def s_long():
    lens, steps = [5, 9, 17, 40], [1, 3, 7]
    gaps = [[3, 45, 0, 5], [30], [0], [7, 1, 4, 90, 2]]

    def cases():
        return prod(lens, len(LOADS), steps, STYLES, 2, 2, len(gaps))

    def run(d, ctx):
        loads = long_loads(lens[d[0]], d[1], steps[d[2]], d[3])
        if not unambiguous(lambda mm: program(loads, mm)):
            ctx.count("outside_domain")
            return
        run_timed(tight(loads, MODES[d[4]], gaps[d[6]], bool(d[5]), 1795 + d[1]), ctx)
    return Space("long-programs", "programs of 5, 9, 17 and 40 loads: 10 beginnings x 3 orders of the shapes x 5 ways x single/doubled x timecode x 4 gap patterns",
                 cases, run)


def s_long_lines(tier):
    """everything in one line: the commands come more than a hundred frames after the line's timecode"""
    ns, idle = [1, 2, 3, 5, 9, 20], [0, 4, 20, 60, 95, 130]
    starts = [0, 29, 300, 1795, 30 * 3600 - 40]

    def cases():
        return prod(ns, idle, starts, 2, 2, 2, 3)

    def run(d, ctx):
        n, k, st, m, drop, tail, first = d
        toks = []
        for i in range(ns[n]):
            toks += load(list(LOADS[(first + 3 * i) % 10])) + [NUL] * idle[k] + EDM * (i % 3 == 2) + EOC
        lines = [(starts[st], bool(drop), S.encode(toks, MODES[m]))]
        if tail:
            lines.append((starts[st] + len(lines[0][2]) + 10, bool(drop), S.encode(EDM, MODES[m])))
        run_timed(lines, ctx, [0, 0.5][first == 2])
    return Space("long-lines", "1, 2, 3, 5, 9 or 20 loads in one line with 0..130 idle words before each display x 5 timecodes x single/doubled x timecode "
                 "kind x erased at the end or not", cases, run)


def s_empty_screen(tier):
    """screens without text among the loads: they end what is displayed"""
    k = 4 if tier == "quick" else 5
    lets = 5

    def cases():
        for s in seqs(lets, 2, k):
            for g, m, drop in prod(4, 2, 2):
                yield (s, g, m, drop)

    def run(d, ctx):
        gap = [1, 4, 6, 50][d[1]]
        f = 30
        lines = []
        for i in d[0]:
            toks = [load([("pac", 15, 16, 0), ("t", "ab")]) + EOC, load([("pac", 14, 16, 0), ("t", "c")]) + EDM + EOC,
                    [("w", S.RCL), ("w", S.ENM)] + EOC, EDM, load([("pac", 13, 16, 0), ("t", "d")], 1)][i]
            w = S.encode(toks, MODES[d[2]])
            lines.append((f, bool(d[3]), w))
            f += len(w) + gap
        if not lines or not S.decode(lines):
            return
        if d[0][0] == 3 or any(x == y == 3 for x, y in zip(d[0], d[0][1:])):
            return
        run_timed(lines, ctx)
    return Space("displays-and-erases", "all sequences of 2..%d lines out of: screen, screen with inline erase, empty screen, erase, screen "
                 "that is loaded but not displayed x 4 gaps x single/doubled x timecode" % k, cases, run)


def spaces(tier):
    return [s_grid(tier), s_starts(), s_inline(tier), s_flash(), s_limit(), s_loads(tier), s_long(), s_long_lines(tier), s_empty_screen(tier)]
