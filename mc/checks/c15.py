"""C15: the 32-column limit of SCC lines, for every combination of lengths and shared start times."""
from mc import scc608 as S
from mc.build import node_text
from mc.checks.c05 import EDM, EOC, MODES, load
from mc.core import Mismatch, Space, prod, seqs
from pycaption import SCCReader
from pycaption.exceptions import CaptionLineLengthError, CaptionReadNoCaptions, CaptionReadTimingError

ASSUMPTIONS = (
    "a line is the text of one transmitted row without the blanks at its ends (a mid-row code between words counts as one blank)",
    "the message has to contain the text of every over-long line; it may contain more",
)

WORDS = "The quick brown fox jumps over the lazy dog again and again"
ALPHA = "abcdefghijklmnopqrstuvwxyz"


def row(n, tag):
    """n characters, no blanks at the ends, different for every tag"""
    t = (ALPHA[tag % 26].upper() + WORDS[tag % 7:].replace(" ", " " if n % 2 else "-") * 3)[:n]
    if t.endswith(" "):
        t = t[:-1] + "z"
    return t


def judge(lines, texts, ctx, offset=0, simulate=False):
    """lines [(frames, drop, words)], texts: every transmitted row"""
    doc = S.doc([(S.stamp(f, d), w) for f, d, w in lines])
    ctx.last_input = doc
    ctx.state((doc, offset, simulate))
    ctx.step(len(texts))
    long = [t for t in texts if len(t) > 32]
    ctx.outcome((tuple(map(len, texts)), offset))
    cs, exc = ctx.call_exc(SCCReader().read, doc, offset=offset, simulate_roll_up=simulate)
    if exc is not None:
        if not isinstance(exc, CaptionLineLengthError):
            if isinstance(exc, CaptionReadNoCaptions) and not any(texts):
                return
            if isinstance(exc, CaptionReadTimingError) and not long:
                return
            raise Mismatch("unexpected %s: %s" % (type(exc).__name__, exc), doc, long, None)
        if simulate:
            return
        if not long:
            raise Mismatch("line-length error although every line has at most 32 characters", doc, [len(t) for t in texts], str(exc))
        missing = [t for t in long if S.canon(t) not in S.canon(str(exc))]
        if missing:
            raise Mismatch("the error does not name %d over-long line(s)" % len(missing), doc, missing, str(exc))
        return
    got = [l for c in cs.get_captions("en-US") for l in node_text(c.nodes).split("\n")]
    over = [l for l in got if len(l) > 32]
    if over:
        raise Mismatch("a line of %d characters is returned" % len(over[0]), doc, long, over)
    if long:
        raise Mismatch("an over-long line was returned cut or lost", doc, long, got)


def rows_tokens(rows, texts, attrs=(16,), tabs=(0,)):
    out = []
    for i, (r, t) in enumerate(zip(rows, texts)):
        out.append(("pac", r, attrs[i % len(attrs)], tabs[i % len(tabs)]))
        out.append(("t", t))
    return out


def s_lengths():
    cols = [16, 14, 20, 30]

    def cases():
        return prod(41, 3, cols, 3, 2)

    def run(d, ctx):
        n, mode, c, split, m = d
        if n == 0:
            return
        t = row(n, 3)
        body = [("pac", 15, cols[c], 0), ("t", t)]
        if split and n > 4:
            k = n // 2
            a, b = t[:k].rstrip() or "a", t[k + 1:] or "b"
            a = a if not a.endswith(" ") else a[:-1] + "x"
            b = b.strip()
            if a[-1] == " " or not b or b[0] in ".,!?":
                return
            t = a + " " + b
            body = [("pac", 15, cols[c], 0), ("t", a), ("mid", 14 if split == 1 else 0), ("t", b)]
        if mode == 0:
            toks = load(body) + EOC
        elif mode == 1:
            toks = [("w", S.RDC)] + body
        else:
            toks = [("w", S.RU[2]), ("w", S.CR)] + body
        judge([(300, False, S.encode(toks, MODES[m])), (600, False, S.encode(EDM, MODES[m]))], [t], ctx)
    return Space("lengths", "rows of 1..40 characters x pop-on/paint-on/roll-up x 4 preambles x (none, italic, plain) mid-row code x "
                 "single/doubled", cases, run)


LENS = [32, 33, 1, 40, 31]
ARR = [(1, 3, 5, 7), (1, 2, 4, 5), (12, 13, 14, 15), (15, 13, 11, 9), (3, 1, 15, 8)]


def s_screens():
    """one pop-on or paint-on screen: all rows share the start time"""
    def cases():
        for n in (1, 2, 3, 4):
            for s in prod(*[LENS] * n):
                for a, mode, m in prod(ARR, 2, 2):
                    yield (s, a, mode, m)

    def run(d, ctx):
        ls, a, mode, m = d
        texts = [row(LENS[x], i) for i, x in enumerate(ls)]
        body = rows_tokens(ARR[a], texts)
        toks = load(body) + EOC if mode == 0 else [("w", S.RDC)] + body
        judge([(300, False, S.encode(toks, MODES[m]))], texts, ctx)
    return Space("one-screen", "1..4 rows x 5 lengths each x 5 row arrangements x pop-on/paint-on x single/doubled", cases, run)


def s_shared():
    """several screens whose start times collide because they are floored at zero, in every order; and the same without collision"""
    def cases():
        for n in (2, 3):
            for s in prod(*[prod_lens() for _ in range(n)]):
                for off, style in prod(3, 2):
                    yield (s, off, style)

    def prod_lens():
        return 7

    shapes = [(32,), (33,), (40,), (10, 33), (33, 10), (32, 12), (36, 34)]

    def run(d, ctx):
        s, off, style = d
        lines = []
        texts = []
        f = 30
        tag = 0
        for i in s:
            ts = [row(n, tag + j) for j, n in enumerate(shapes[i])]
            tag += 2
            texts += ts
            toks = load(rows_tokens((3, 9), ts)) + (EDM if style else []) + EOC
            lines.append((f, True, S.encode(toks, MODES[0])))
            f += 60
        lines.append((f + 600, True, S.encode(EDM, MODES[0])))
        judge(lines, texts, ctx, offset=[0, 3, 20][off])
    return Space("colliding-starts", "2..3 screens of 7 shapes in every order x 3 offsets (distinct / some / all start times floored to "
                 "zero) x erase style", cases, run)


def s_modes(tier):
    """screens of different modes one after the other, close together or far apart"""
    k = 2 if tier == "quick" else 3

    def cases():
        for n in range(2, k + 2):
            for s in seqs(9, n, n):
                for g in range(3):
                    yield (s, g)

    def run(d, ctx):
        s, g = d
        lines, texts = [], []
        f = 300
        for i, x in enumerate(s):
            mode, n = divmod(x, 3)
            n = [32, 33, 38][n]
            t = [row(n, 2 * i), row(20, 2 * i + 1)]
            texts += t
            if mode == 0:
                toks = load(rows_tokens((4, 5), t)) + EOC
            elif mode == 1:
                toks = [("w", S.RDC)] + rows_tokens((13, 15), t)
            else:
                toks = [("w", S.RU[2]), ("w", S.CR), ("pac", 15, 16, 0), ("t", t[0]), ("w", S.CR), ("pac", 15, 16, 0), ("t", t[1])]
            w = S.encode(toks, MODES[i % 2])
            lines.append((f, False, w))
            f += len(w) + [0, 30, 300][g]
        judge(lines, texts, ctx)
    return Space("mixed-modes", "2..%d pop-on, paint-on and roll-up blocks x 3 lengths x 3 gaps" % (k + 1), cases, run)


def s_roll():
    def cases():
        for n in (1, 2, 3, 4):
            for s in prod(*[LENS] * n):
                for depth, sim, style in prod(3, 2, 2):
                    yield (s, depth, sim, style)

    def run(d, ctx):
        ls, depth, sim, style = d
        texts = [row(LENS[x], i) for i, x in enumerate(ls)]
        lines, f = [], 300
        for i, t in enumerate(texts):
            toks = ([("w", S.RU[depth + 2])] if style or i == 0 else []) + [("w", S.CR), ("pac", 15, 16, 0), ("t", t)]
            w = S.encode(toks, MODES[1])
            lines.append((f, True, w))
            f += len(w) + 20
        judge(lines, texts, ctx, simulate=bool(sim))
    return Space("roll-up-rows", "1..4 rolled rows x 5 lengths each x depth 2..4 x simulate_roll_up x repeated mode code", cases, run)


# ---------------------------------------------------------------- lines that are not a plain run of letters
PIECES = [("t", " "), ("t", "  "), ("t", "   ."), ("t", "♪"), ("ext", "u", "ü"), ("ext", "AA", "Á"),
          ("bs",), ("mid", 14), ("mid", 0), ("w", "8080"), ("t", "\u00a0"), ("t", "-x, y")]


def line_bounds(toks):
    """cells the row's tokens write, in order; -> (text without the blanks at its ends, least and greatest length a line of it can have)"""
    cells = []
    for t in toks:
        if t[0] == "t":
            cells += list(t[1])
        elif t[0] == "ext":
            cells += list(t[1])
            cells[-1] = t[2]
        elif t[0] == "mid":
            cells.append(S.MIDCELL)
        elif t[0] == "bs":
            cells.pop()
    hi = len(cells)
    while cells and cells[0] in S.BLANK:
        cells.pop(0)
    while cells and cells[-1] in S.BLANK:
        cells.pop()
    # a mid-row code may merge with a neighbouring blank
    return cells, len([c for c in cells if c != S.MIDCELL]), hi


def squeeze(x):
    return "".join(S.canon(x).split())


def judge_bounds(lines, rows, ctx, offset=0):
    """rows: token lists of every transmitted row"""
    doc = S.doc([(S.stamp(f, d), w) for f, d, w in lines])
    ctx.last_input = doc
    ctx.state(doc)
    ctx.step(len(rows))
    b = [line_bounds(r) for r in rows]
    must = ["".join(c if c != S.MIDCELL else " " for c in cells) for cells, lo, hi in b if lo > 32]
    may = [hi for _, lo, hi in b if hi > 32]
    ctx.outcome((bool(must), bool(may)))
    cs, exc = ctx.call_exc(SCCReader().read, doc, offset=offset)
    if exc is not None:
        if not isinstance(exc, CaptionLineLengthError):
            raise Mismatch("unexpected %s: %s" % (type(exc).__name__, exc), doc, must, None)
        if not may:
            raise Mismatch("line-length error although every line has at most 32 characters", doc, [x[1:] for x in b], str(exc))
        missing = [t for t in must if squeeze(t) not in squeeze(str(exc))]
        if missing:
            raise Mismatch("the error does not name %d over-long line(s)" % len(missing), doc, missing, str(exc))
        return
    got = [l for c in cs.get_captions("en-US") for l in node_text(c.nodes).split("\n")]
    over = [l for l in got if len(l) > 32]
    if over:
        raise Mismatch("a line of %d characters is returned" % len(over[0]), doc, must, over)
    if must:
        raise Mismatch("an over-long line was returned cut or lost", doc, must, got)


def filler(n, tag):
    return (ALPHA * 3)[tag:tag + n]


def s_pieces(tier):
    """one or two pieces of other content at three places of a row, with letters around them up to a given number"""
    sizes = [29, 30, 31, 32, 33, 34, 36] if tier == "quick" else range(24, 40)

    def cases():
        n = len(PIECES)
        for a, b in [(a, b) for a in range(n) for b in range(-1, n)]:
            yield from ((a, b) + x for x in prod(3, len(sizes), 2, 2))

    def run(d, ctx):
        a, b, where, z, mode, m = d
        pcs = [PIECES[a]] + ([PIECES[b]] if b >= 0 else [])
        n = sizes[z]
        size = max(2, n - sum(len(p[1]) if p[0] in ("t", "ext") else 1 if p[0] == "mid" else 0 for p in pcs))
        cut = [1, size // 2, size - 1][where]
        row = [("t", filler(cut, 0)), pcs[0]]
        if len(pcs) > 1:
            row += [("t", "q"), pcs[1]]
        row.append(("t", filler(size - cut, 3)))
        # no backspace over a code; no punctuation directly behind one
        for x, y in zip(row, row[1:]):
            if y == ("bs",) and (x[0] in ("mid", "bs") or x == ("w", "8080")):
                return
        other = [("t", "ab")]
        rows = [row, other]
        body = [("pac", 14, 16, 0)] + row + [("pac", 15, 16, 0)] + other
        if mode == 0:
            toks = load(body) + EOC
        else:
            toks = [("w", S.RDC)] + body
        judge_bounds([(300, False, S.encode(toks, MODES[m])), (900, False, S.encode(EDM, MODES[m]))], rows, ctx)
    return Space("row-contents", "one or two of 12 pieces (blanks, runs of blanks, special, extended and stand-in characters, backspace, "
                 "mid-row codes, fillers, punctuation) at the start, middle or end of rows of %d lengths x pop-on/paint-on x "
                 "single/doubled" % len(sizes), cases, run)


def s_row_chars():
    """every character as the first, the last, both, or all of the characters of a row"""
    chars = [("t", c) for c in list(S.BASIC.values()) if c in S.CODE and c.strip()] + [("t", c) for c in S.SPECIAL.values() if c.strip()] + \
        [("ext", "e", c) for c in sorted(S.EXT_SET)]

    def run(d, ctx):
        k, where, n, mode, m = d
        c = chars[k]
        n += 31
        if where == 3:
            if c[0] != "t" or c[1] in S.SPECIAL.values():
                return
            row = [("t", c[1] * n)]
        else:
            row = [c] * (where != 1) + [("t", filler(n - 1 - (where == 2), 0))] + [c] * (where != 0)
        body = [("pac", 15, 16, 0)] + row
        toks = load(body) + EOC if mode == 0 else [("w", S.RU[3]), ("w", S.CR)] + body if mode == 1 else [("w", S.RDC)] + body
        judge_bounds([(300, True, S.encode(toks, MODES[m])), (900, True, S.encode(EDM, MODES[m]))], [row], ctx)
    return Space("row-characters", "every basic, special and extended character at the start, the end, both or all of rows of 31..34 characters x "
                 "pop-on/paint-on/roll-up x single/doubled", lambda: prod(len(chars), 4, 4, 3, 2), run)


def s_edges():
    """blanks at the ends of a row and indented rows"""
    def cases():
        return prod(6, 6, 9, [16, 18, 24, 30], 4, 2, 2)

    def run(d, ctx):
        lead, trail, n, col, to, mode, m = d
        row = [("t", " " * lead + filler(26 + n, 0) + " " * trail)]
        body = [("pac", 15, [16, 18, 24, 30][col], to)] + row
        toks = load(body) + EOC if mode == 0 else [("w", S.RU[2]), ("w", S.CR)] + body
        judge_bounds([(300, True, S.encode(toks, MODES[m])), (900, True, S.encode(EDM, MODES[m]))], [row], ctx)
    return Space("row-ends", "0..5 leading x 0..5 trailing blanks x 26..34 letters x 4 indents x 4 tab offsets x pop-on/roll-up x "
                 "single/doubled", cases, run)


def s_streams(tier):
    """any stream of codes and texts: only that no line of more than 32 characters comes back, and no error for streams too short"""
    ev = [[("t", "a" * 16)], [("t", "b" * 17)], [("pac", 15, 16, 0)], [("pac", 14, 16, 0)], [("w", S.RCL)], [("w", S.RDC)], [("w", S.RU[3])],
          [("w", S.CR)], [("w", S.EOC)], [("w", S.EDM)], [("mid", 14)], [("w", S.TO[2])], [("t", " ")], [("ext", "e", "Å")], [("bs",)]]
    k = 4 if tier == "quick" else 6

    def cases():
        for n in range(2, k + 1):
            for s in seqs(len(ev), n, n):
                for start in range(3):
                    yield (s, start)

    def run(d, ctx):
        s, start = d
        toks = [[], [("w", S.RCL), ("pac", 15, 16, 0)], [("w", S.RDC), ("pac", 15, 16, 0)]][start]
        for x in s:
            toks = toks + ev[x]
        w = S.encode(toks + EOC, MODES[1])
        doc = S.doc([(S.stamp(300, True), w), (S.stamp(900, True), S.encode(EDM, MODES[1]))])
        ctx.last_input = doc
        ctx.state(doc)
        ctx.step(len(s))
        total = sum(16 if x == 0 else 17 if x == 1 else 1 for x in s)
        cs, exc = ctx.call_exc(SCCReader().read, doc)
        ctx.outcome(type(exc).__name__)
        if isinstance(exc, CaptionLineLengthError):
            if total <= 32:
                raise Mismatch("line-length error although only %d characters were sent" % total, doc, None, str(exc))
        elif exc is None:
            over = [l for c in cs.get_captions("en-US") for l in node_text(c.nodes).split("\n") if len(l) > 32]
            if over:
                raise Mismatch("a line of %d characters is returned" % len(over[0]), doc, None, over)
    return Space("any-streams", "all sequences of 2..%d of 15 codes and texts of 16 and 17 characters x 3 beginnings" % k, cases, run)


def s_many():
    """n screens; every set of one or two of them, or all, or every other one is too long"""
    ns = list(range(1, 13)) + [16, 17, 33, 64, 65, 101]

    def cases():
        for n in ns:
            for off in (0, 3, 5000):
                for mode in (0, 1, 2):
                    yield (n, (), off, mode)
                    yield (n, tuple(range(n)), off, mode)
                    yield (n, tuple(range(0, n, 2)), off, mode)
                    few = range(n) if n <= 12 else [0, 1, n // 2, n - 2, n - 1]
                    for x in few:
                        yield (n, (x,), off, mode)
                        for y in few:
                            if y > x:
                                yield (n, (x, y), off, mode)

    def run(d, ctx):
        n, bad, off, mode = d
        lines, texts = [], []
        f = 30
        for i in range(n):
            t = row(33 + i % 3 if i in bad else 32 - i % 3, i)
            texts.append(t)
            body = rows_tokens(((15,), (3,), (15,))[mode], [t])
            if mode == 0:
                toks = load(body) + EDM + EOC
            elif mode == 1:
                toks = [("w", S.RDC)] + body
            else:
                toks = [("w", S.RU[2]), ("w", S.CR)] + body
            lines.append((f, True, S.encode(toks, MODES[0])))
            f += 60
        lines.append((f + 600, True, S.encode(EDM, MODES[0])))
        judge(lines, texts, ctx, offset=off)
    return Space("many-screens", "1..12, 16, 17, 33, 64, 65 and 101 screens or rolled rows of which none, all, every other one, or any one or two are too long x 3 offsets x "
                 "pop-on/paint-on/roll-up", cases, run)


def spaces(tier):
    return [s_lengths(), s_screens(), s_shared(), s_modes(tier), s_roll(), s_pieces(tier), s_edges(), s_row_chars(), s_streams(tier), s_many()]
