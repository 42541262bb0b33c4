"""C16: conservation and order of roll-up and paint-on text."""
from mc import scc608 as S
from mc.checks.c05 import BAS, BAS_V, EXT, MODES, SPEC
from mc.core import Mismatch, Space, prod, seqs
from pycaption import SCCReader

ASSUMPTIONS = (
    "well-formed = mode code (RU2/RU3/RU4 or RDC), for roll-up a carriage return before every row but possibly the first, a PAC per row, "
    "visible text in every row; an Erase Displayed Memory ends no caption (the property: captions end when the next begins)",
    "parts of one painted screen share start and end; the end of the last caption is only required to lie after its start",
    "simulate_roll_up off (on, it repeats rows by design); a mid-row code is a blank as in C05",
)


class Row:
    """shows what a row of tokens puts on screen, as cells"""

    def __new__(cls, tokens):
        d = S.Decoder()
        for w in S.encode([("w", S.RCL), ("pac", 15, 16, 0)] + list(tokens) + [("w", S.EOC)], MODES[1]):
            d.feed(w)
        sc = d.screen()
        return sc[0][2] if sc else []


def judge(lines, rows, ctx, screens=None):
    """rows: [cells] in transmission order"""
    doc = S.doc([(S.stamp(f, d), w) for f, d, w in lines])
    ctx.last_input = doc
    ctx.state(doc)
    ctx.step(sum(len(w) for _, _, w in lines))
    caps = ctx.call(SCCReader().read, doc).get_captions("en-US")
    show = [(c.start, c.end, c.get_text()) for c in caps]
    ctx.outcome(repr([t for _, _, t in show]))
    got = []
    for c in caps:
        ls, problem = S.flags(c)
        got += [l for l in ls if any(x.strip() for x, _ in l)]
    if len(got) != len(rows):
        raise Mismatch("%d lines of text instead of %d rows" % (len(got), len(rows)), doc, ["".join(x for x, _ in r) for r in rows], show)
    for i, (r, l) in enumerate(zip(rows, got)):
        why = S.match_line(r, l, italics=False)
        if why:
            raise Mismatch("row %d: %s" % (i, why), doc, ["".join(x for x, _ in r) for r in rows], show)
    for i, c in enumerate(caps):
        if not c.start < c.end:
            raise Mismatch("caption %d: start %r is not before end %r" % (i, c.start, c.end), doc, None, show)
        nxt = [d.start for d in caps[i + 1:] if d.start != c.start]
        if i + 1 < len(caps) and caps[i + 1].start < c.start:
            raise Mismatch("captions are not ordered by start", doc, None, show)
        if i + 1 < len(caps) and caps[i + 1].start == c.start:
            if caps[i + 1].end != c.end:
                raise Mismatch("captions %d and %d share their start but not their end" % (i, i + 1), doc, None, show)
        elif nxt and nxt[0] != c.end:
            raise Mismatch("caption %d ends at %r but the next one begins at %r" % (i, c.end, nxt[0]), doc, None, show)


TEXTS = [
    [("t", "AB")],
    [("t", "Abc")],
    [("t", "x y. z")],
    [("t", "®"), ("ext", "n", "Ö"), ("t", "é")],
    [("t", "de"), ("mid", 14), ("t", "fg")],
    [("t", "hi"), ("bs",), ("t", "j")],
    [("mid", 14), ("t", "k"), ("mid", 0), ("t", "!l")],
    [("t", "♪♪")],
]


def roll(rows, depth, style, dbl, drop, gap, base=15, start=300, indents=(16,)):
    """style 0: every line RU CR PAC | 1: RU once, then CR PAC | 2: RU once, first row without CR | 3: all rows in one line |
    4: text of every row sent in a second line"""
    lines, f = [], start
    cur = []
    for i, r in enumerate(rows):
        toks = []
        if style == 0 or i == 0:
            toks.append(("w", S.RU[depth]))
        if not (style == 2 and i == 0):
            toks.append(("w", S.CR))
        toks.append(("pac", base, indents[i % len(indents)], 0))
        if style == 3:
            cur += toks + list(r)
            continue
        for part in ([toks + list(r)] if style != 4 else [toks + [r[0]], list(r[1:])]):
            if not part:
                continue
            w = S.encode(part, dbl)
            lines.append((f, drop, w))
            f += len(w) + gap
    if cur:
        lines.append((f, drop, S.encode(cur, dbl)))
    return lines


def cells(r):
    return Row(r)


def ok_single(tokens):
    a, b = ([s for _, _, s in S.decode([(0, True, S.encode([("w", S.RCL), ("pac", 15, 16, 0)] + list(tokens) + [("w", S.EOC)], m))])]
            for m in MODES)
    return a == b


GAPS = [0, 1, 30]


def s_roll(tier):
    hi = 3 if tier == "quick" else 4

    def cases():
        for s in seqs(TEXTS, 1, hi):
            for depth, style, m, drop, g in prod(3, 5, 2, 2, GAPS):
                yield (s, depth, style, m, drop, g)

    def run(d, ctx):
        rows = [TEXTS[i] for i in d[0]]
        if not d[3] and not all(ok_single(r) for r in rows):
            ctx.count("single_transmission_ambiguous")
            return
        judge(roll(rows, d[1] + 2, d[2], MODES[d[3]], bool(d[4]), GAPS[d[5]]), [Row(r) for r in rows], ctx)
    return Space("roll-up-rows", "1..%d rows out of 8 texts x depth 2..4 x 5 ways of transmission x single/doubled x timecode x 3 gaps" % hi,
                 cases, run)


def s_roll_long(tier):
    lens = list(range(1, 9)) + ([12, 16, 17, 33, 64] if tier == "quick" else list(range(9, 70)))

    def cases():
        for x in prod(len(lens), 3, 5, 2, 2, GAPS, 8):
            if tier != "quick" or x[0] < 8 or (x[5] != 1 and x[6] in (0, 2, 4)):
                yield x

    def run(d, ctx):
        n, depth, style, m, drop, g, sh = d
        n = lens[n]
        rows = [[("t", "row %d of it" % i)] if (i + sh) % 3 else [("t", "r%d" % i), ("ext", "A", "Å"), ("t", "z")] for i in range(n)]
        if sh >= 4:
            rows = [[("t", "same")]] * n
        judge(roll(rows, depth + 2, style, MODES[m], bool(drop), GAPS[g], start=[300, 0, 29, 1795][sh % 4]), [Row(r) for r in rows], ctx)
    return Space("roll-up-long", "1..8 rows, and %s rows (distinct or identical texts) x depth x 5 ways x single/doubled x timecode x gaps x line times" % ("12, 16, 17, 33 and 64" if tier == "quick" else "9..69"), cases, run)


def s_roll_base():
    inds = [(16,), (16, 20), (14, 16), (30, 18, 16)]

    def cases():
        return prod(15, inds, 3, 4, 2, 2)

    def run(d, ctx):
        base, ind, depth, style, m, n = d
        rows = [TEXTS[0], TEXTS[1], [("t", "Q")], TEXTS[0]][:2 + 2 * n]
        judge(roll(rows, depth + 2, style, MODES[m], True, 4, base=base + 1, indents=inds[ind]), [Row(r) for r in rows], ctx)
    return Space("roll-up-addresses", "15 base rows x 4 indent patterns x depth x 4 ways x single/doubled x 2 or 4 rows", cases, run)


def s_base_moves():
    """the base row or depth changes between rows"""
    def cases():
        return prod(15, 15, 3, 3, 2)

    def run(d, ctx):
        a, b, d1, d2, m = d
        lines, f = [], 300
        for i, (r, dep) in enumerate(((a, d1), (b, d2), (b, d2))):
            w = S.encode([("w", S.RU[dep + 2]), ("w", S.CR), ("pac", r + 1, 16, 0), ("t", "row%d" % i)], MODES[m])
            lines.append((f, False, w))
            f += len(w) + 9
        judge(lines, [Row([("t", "row%d" % i)]) for i in range(3)], ctx)
    return Space("roll-up-moves", "15x15 changes of base row x 3x3 changes of depth x single/doubled", cases, run)


PSHAPES = [
    [(15, 16, 0)], [(14, 16, 0)], [(13, 16, 0), (14, 20, 0)], [(1, 14, 0), (2, 14, 1), (3, 16, 0)],
    [(2, 18, 2), (9, 16, 0)], [(15, 20, 1), (13, 16, 0)], [(12, 16, 3), (13, 16, 0), (15, 22, 0)],
]


def paint(screens, dbl, drop, gap, style, start=300):
    """style 0: one line per screen | 1: one line per row | 2: everything in one line"""
    lines, f, cur = [], start, []
    for shape, texts in screens:
        parts = [[("w", S.RDC)]]
        for (r, a, t), x in zip(shape, texts):
            parts.append([("pac", r, a, t)] + list(x))
        if style == 2:
            for p in parts:
                cur += p
            continue
        out = [[t for p in parts for t in p]] if style == 0 else [parts[0] + parts[1]] + parts[2:]
        for p in out:
            w = S.encode(p, dbl)
            lines.append((f, drop, w))
            f += len(w) + gap
    if cur:
        lines.append((f, drop, S.encode(cur, dbl)))
    return lines


def s_paint(tier):
    hi = 2 if tier == "quick" else 3

    def cases():
        for s in seqs(PSHAPES, 1, hi):
            for k, m, drop, g, style in prod(TEXTS, 2, 2, GAPS, 3):
                yield (s, k, m, drop, g, style)

    def run(d, ctx):
        s, k, m, drop, g, style = d
        screens, rows = [], []
        for i in s:
            ts = [TEXTS[(k + j + len(rows)) % len(TEXTS)] for j in range(len(PSHAPES[i]))]
            screens.append((PSHAPES[i], ts))
            rows += ts
        if not m and not all(ok_single(r) for r in rows):
            ctx.count("single_transmission_ambiguous")
            return
        judge(paint(screens, MODES[m], bool(drop), GAPS[g], style), [Row(r) for r in rows], ctx)
    return Space("paint-on-screens", "1..%d screens of 7 shapes x 8 text rotations x single/doubled x timecode x 3 gaps x 3 ways" % hi, cases, run)


def s_paint_rows(tier):
    def cases():
        return prod(15, 15, 2, 3, 2, 2)

    def run(d, ctx):
        a, b, m, style, two, at = d
        if a == b:
            return
        ts = [[("t", "up")], [("t", "dn.")]]
        sh = [(a + 1, (16, 14)[at], 0), (b + 1, 20, 1)]
        screens = [(sh, ts)]
        rows = list(ts)
        if two:
            screens.append((sh[:1], [[("t", "again")]]))
            rows.append([("t", "again")])
        judge(paint(screens, MODES[m], False, 3, style), [Row(r) for r in rows], ctx)
    return Space("paint-on-addresses", "15x15 row pairs x single/doubled x 3 ways x 1 or 2 screens x plain/italic", cases, run)


def s_switch(tier):
    """roll-up and paint-on blocks alternating"""
    hi = 4 if tier == "quick" else 5

    def cases():
        for s in seqs(5, 2, hi):
            for m, g in prod(2, 2):
                yield (s, m, g)

    def run(d, ctx):
        s, m, g = d
        lines, rows, f = [], [], 300
        for i, x in enumerate(s):
            t = [("t", "w%d" % i), ("t", " end.")]
            if x == 0:
                toks = [("w", S.RDC), ("pac", 15, 16, 0)] + t
                new = [t]
            elif x == 1:
                u = [("t", "v%d" % i)]
                toks = [("w", S.RDC), ("pac", 2, 16, 0)] + t + [("pac", 4, 14, 0)] + u
                new = [t, u]
            elif x == 2:
                toks = [("w", S.RU[2]), ("w", S.CR), ("pac", 15, 16, 0)] + t
                new = [t]
            elif x == 3:
                u = [("t", "v%d" % i)]
                toks = [("w", S.RU[3]), ("w", S.CR), ("pac", 14, 16, 0)] + t + [("w", S.CR), ("pac", 14, 16, 0)] + u
                new = [t, u]
            else:
                toks = [("w", S.RU[4]), ("pac", 15, 20, 1)] + t
                new = [t]
            w = S.encode(toks, MODES[m])
            lines.append((f, True, w))
            f += len(w) + [0, 25][g]
            rows += new
        judge(lines, [Row(r) for r in rows], ctx)
    return Space("mode-switches", "all sequences of 2..%d blocks out of 5 (paint-on one/two rows, roll-up depth 2/3/4) x single/doubled x gaps" % hi,
                 cases, run)


ALLCH = [("t", c) for c in BAS_V + SPEC if c.strip() and c != "\u00a0"] + [("ext", "e", c) for c in EXT]


def s_chars():
    def cases():
        return prod(ALLCH, 3, 3, 2)

    def run(d, ctx):
        c, mode, pre, m = d
        r = [("t", ["", "a", "ab"][pre])] * bool(pre) + [ALLCH[c], ("t", "q")]
        other = [("t", "nx")]
        if mode == 0:
            lines = paint([([(15, 16, 0)], [r]), ([(15, 16, 0)], [other])], MODES[m], True, 5, 0)
        else:
            lines = roll([r, other], 2 * mode, 0 if mode == 1 else 3, MODES[m], True, 5)
        judge(lines, [Row(r), Row(other)], ctx)
    return Space("characters", "every basic, special and extended character x paint-on/roll-up x byte alignment x single/doubled", cases, run)


def s_erases():
    """erase codes and fillers around the rows: nothing of the text may get lost"""
    ways = [(["e"], []), (["n"], []), (["n", "e"], []), ([], ["e"]), ([], ["E"]), (["e"], ["E"]), (["f"], ["f"]), ([], ["N", "E"]), (["E"], []), (["n", "E"], ["e"])]
    code = {"e": S.EDM, "n": S.ENM, "E": S.EDM, "N": S.ENM, "f": "8080"}

    def cases():
        return prod(len(ways), 7, [1, 2, 4], 2, 2, 3, 2)

    def run(d, ctx):
        w, kind, n, m, drop, g, only = d
        n = [1, 2, 4][n]
        before, after = ways[w]
        lines, rows, f = [], [], 300

        def send(toks, gap):
            nonlocal f
            ws = S.encode(toks, MODES[m])
            lines.append((f, bool(drop), ws))
            f += len(ws) + gap

        def codes(which, gap):
            """lower case: in the line of the row; upper case: in a line of its own"""
            inline = []
            for x in which:
                if x.isupper():
                    send([("w", code[x])], gap)
                else:
                    inline.append(("w", code[x]))
            return inline
        gap = [0, 1, 30][g]
        for i in range(n):
            t = [("t", "row %d," % i), ("t", " x")]
            here = not only or i == n - 1
            pre = codes(before, gap) if here else []
            if kind < 3:
                toks = [("w", S.RU[kind + 2]), ("w", S.CR), ("pac", 15, 16, 0)] + t
            elif kind == 3:
                toks = [("w", S.RU[3])] * (i == 0) + [("w", S.CR), ("pac", 14, 16, 0)] + t
            elif kind == 4:
                toks = [("w", S.RDC), ("pac", 15, 16, 0)] + t
            elif kind == 5:
                u = [("t", "second")]
                toks = [("w", S.RDC), ("pac", 3, 14, 0)] + t + [("pac", 5, 16, 1)] + u
                rows.append(t)
                t = u
            elif i % 2:
                toks = [("w", S.RDC), ("pac", 12, 16, 0)] + t
            else:
                toks = [("w", S.RU[2]), ("w", S.CR), ("pac", 15, 16, 0)] + t
            rows.append(t)
            post = [x for x in after if not x.isupper()]
            send(pre + toks + ([("w", code[x]) for x in post] if here else []), gap)
            if here:
                codes([x for x in after if x.isupper()], gap)
        judge(lines, [Row(r) for r in rows], ctx)
    return Space("erase-codes", "10 placements of erase codes and fillers (in the line of a row or on their own, before or after) x 7 kinds of roll-up and "
                 "paint-on rows x 1, 2 or 4 rows x single/doubled x timecode x 3 gaps", cases, run)


def spaces(tier):
    return [s_roll(tier), s_roll_long(tier), s_roll_base(), s_base_moves(), s_paint(tier), s_paint_rows(tier), s_switch(tier), s_chars(), s_erases()]
