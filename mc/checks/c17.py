"""C17: structure of written SCC and its re-reading."""
import re
from fractions import Fraction

from mc import scc608 as S
from mc.build import cap, cset
from mc.core import Mismatch, Space, prod, seqs
from pycaption import SCCReader, SCCWriter

ASSUMPTIONS = (
    "feasible = the first cue starts no earlier than the transmission of its line takes, and every cue starts at least one code word per "
    "frame of its own line after the previous one starts; cues last 0.1 s or more; text between the two bounds on its number of rows (long words split or not split across a row that has begun) is not judged at 16 rows",
    "words longer than 32 characters may be split anywhere (their pieces concatenate to the word); all others arrive whole",
)

FRAME = Fraction(1001, 30000) * 1000000
LINE = re.compile(r"(\d\d+):([0-5]\d):([0-5]\d)([:;])([0-2]\d)\t((?:[0-9a-f]{4} )*[0-9a-f]{4}) ?")
CHARS = [v for v in S.BASIC.values()]
VIS = [c for c in CHARS if c != " "]


def parse(out):
    """written SCC -> [(frames, drop, words)], raising Mismatch on any structural error"""
    def bad(what):
        raise Mismatch(what, None, None, out)
    ls = out.split("\n")
    if ls[0] != S.HEADER:
        bad("no Scenarist header")
    res = []
    for l in ls[1:]:
        if l == "":
            continue
        m = LINE.fullmatch(l)
        if not m:
            bad("malformed line %r" % l)
        f = ((int(m[1]) * 60 + int(m[2])) * 60 + int(m[3])) * 30 + int(m[5])
        ws = m[6].split(" ")
        for w in ws:
            for b in (w[:2], w[2:]):
                if bin(int(b, 16)).count("1") % 2 == 0:
                    bad("byte %s of word %s has even parity" % (b, w))
        if res and f < res[-1][0]:
            bad("timecode goes back")
        res.append((f, m[4] == ";", ws))
    return res


def same_words(want, got):
    """None or what is wrong"""
    i = 0
    for w in want:
        if i >= len(got):
            return "word %r is missing" % w
        if len(w) <= 32:
            if got[i] != w:
                return "%r instead of the word %r" % (got[i], w)
            i += 1
        else:
            acc = ""
            while len(acc) < len(w) and i < len(got):
                acc += got[i]
                i += 1
            if acc != w:
                return "pieces %r of the word %r" % (acc, w)
    return None if i == len(got) else "surplus words %r" % (got[i:],)


def rows_needed(text):
    n = 0
    for line in text.split("\n"):
        col, k = 0, 1
        for w in line.split():
            while len(w) > 32:
                if col:
                    k += 1
                w, col = w[32:], 0
                k += 1
            if col and col + 1 + len(w) > 32:
                k += 1
                col = len(w)
            else:
                col += len(w) + (1 if col else 0)
        n += k + (1 if any(len(x) > 32 for x in line.split()) else 0)
    return n


def rows_at_least(text):
    """the fewest rows of 32 columns the lines fit in (long words start in the rest of a row)"""
    n = 0
    for line in text.split("\n"):
        col, k = 0, 1
        for w in line.split():
            if len(w) > 32:
                col = col + (1 if col else 0) + len(w)
                k, col = k + (col - 1) // 32, (col - 1) % 32 + 1
            elif col and col + 1 + len(w) > 32:
                k, col = k + 1, len(w)
            else:
                col += len(w) + (1 if col else 0)
        n += k
    return n


def too_tall(caps, ctx):
    """text that cannot be laid out in 15 rows: the listed finding"""
    ctx.count("needs_more_than_15_rows")
    try:
        judge(caps, ctx)
    except Mismatch as m:
        m.key = "more-than-15-rows"
        raise


def judge(caps, ctx, feasible=True):
    """caps: [(start, end, text or nodes)] feasible"""
    cs = cset({"en-US": [cap(a, b, t) for a, b, t in caps]})
    texts = []
    for a, b, t in caps:
        texts.append(t if isinstance(t, str) else "".join("\n" if x is None else x for x in t if x is None or isinstance(x, str)))
    ctx.last_input = caps[:3]
    out = ctx.call(SCCWriter().write, cs)
    inp = [(float(a), float(b), t) for a, b, t in caps]
    ctx.state(repr(inp))
    ctx.outcome(out)
    ctx.step(len(caps))
    try:
        lines = parse(out)
    except Mismatch as m:
        m.input = inp
        raise
    # addresses and columns as transmitted
    for f, drop, ws in lines:
        n = 0
        for w in ws:
            if S.is_two_byte(w):
                if w in S.PAC_OF:
                    n = S.PAC_OF[w][1]
                elif w not in S.CONTROL and w not in S.SPECIAL_OF and w not in S.EXT_OF:
                    raise Mismatch("word %s is no CEA-608 code" % w, inp, None, out)
                continue
            n += sum(1 for b in (w[:2], w[2:]) if int(b, 16) & 0x7F >= 0x20)
            if n > 32:
                raise Mismatch("a row reaches beyond column 32", inp, None, out)
    cues = S.decode(lines)
    if len(cues) != len(caps):
        raise Mismatch("a decoder shows %d screens instead of %d" % (len(cues), len(caps)), inp, cues, out)
    for (a, b, t), text, (sa, sb, screen) in zip(caps, texts, cues):
        got = []
        for r, c, cells in screen:
            if not 1 <= r <= 15:
                raise Mismatch("row %d" % r, inp, None, out)
            got += "".join(x for x, _ in cells).split()
        why = same_words(text.split(), got)
        if why:
            raise Mismatch("on the decoder's screen: " + why, inp, text, out)
        if abs(sa - a) > 3 * FRAME + 1:
            raise Mismatch("visible %.3f frames after its start" % float((sa - a) / FRAME), inp, float(a), out)
    cs2 = ctx.call(SCCReader().read, out)
    back = cs2.get_captions("en-US")
    if len(back) != len(caps):
        raise Mismatch("%d captions read back instead of %d" % (len(back), len(caps)), inp, out, [c.get_text() for c in back])
    for (a, b, t), text, c in zip(caps, texts, back):
        why = same_words(text.split(), c.get_text().split())
        if why:
            raise Mismatch("read back: " + why, inp, text, out)
        if abs(Fraction(c.start) - a) > 3 * FRAME + 1:
            raise Mismatch("read back with start %r" % c.start, inp, float(a), out)


def far(text, k=1):
    return [(10000000 * (i + 1), 10000000 * (i + 1) + 3000000, text) for i in range(k)]


def s_pairs():
    def cases():
        return prod(VIS, VIS)

    def run(d, ctx):
        x, y = VIS[d[0]], VIS[d[1]]
        judge(far("a" + x + y) + [(25000000, 26000000, x + y + " " + y + "\n" + y + x)], ctx)
    return Space("character-pairs", "all 95x95 pairs of basic characters in both byte alignments", cases, run)


def word(n, k=0, hyphen=0):
    s = "".join(VIS[(60 + k * 7 + i * 11) % 95] for i in range(n))
    if hyphen and n >= 3:
        s = s[: n // 2] + "-" + s[n // 2 + 1:]
    return s


def line_of(total, wl, hyphen=0, k=0):
    """exactly `total` characters: words of wl letters separated by single spaces, no space at the end"""
    out = ""
    i = 0
    while len(out) < total:
        if out:
            if total - len(out) == 1:
                out += "x"
                break
            out += " "
        out += word(min(wl, total - len(out)), k + i, hyphen)
        i += 1
    return out


def s_lines():
    def cases():
        return prod(range(1, 81), range(1, 41), 3)

    def run(d, ctx):
        t = line_of(d[0] + 1, d[1] + 1, d[2])
        if d[2] == 2:
            t = t.replace("a", "-").replace("e", "--")
            if len(t) > 8:
                t = t[:3] + "\u2014".replace("\u2014", "-") + t[4:]
        if rows_needed(t) > 15:
            return
        judge(far(t), ctx)
    return Space("line-lengths", "one line of 1..80 characters x word length 1..40 x (no hyphens, a hyphen in every word, many hyphens)", cases, run)


def s_multi(tier):
    lens = [1, 31, 32, 33, 65, 80] if tier == "quick" else [1, 2, 30, 31, 32, 33, 34, 63, 64, 65, 66, 79, 80]
    wls = [1, 5, 16, 40]

    def cases():
        for n in (2, 3, 4):
            for s in prod(*[lens] * n):
                for w in range(len(wls)):
                    yield (s, w)

    def run(d, ctx):
        t = "\n".join(line_of(lens[x], wls[(d[1] + i) % 4], i % 2, i) for i, x in enumerate(d[0]))
        if rows_at_least(t) > 15:
            return too_tall(far(t), ctx)
        if rows_needed(t) > 15:
            return
        judge(far(t), ctx)
    return Space("multi-line", "2..4 lines x %d lengths each x 4 word lengths" % len(lens), cases, run)


def s_rows():
    def cases():
        for n in (1, 2, 3, 4):
            for c in prod(*[5] * n):
                for v in (0, 1):
                    yield (c, v)

    def run(d, ctx):
        # the k-th kind of line takes k + 1 rows; <= 80 characters each
        kinds = [["ab cd", "w" * 17 + " " + "v" * 15], ["b" * 17 + " " + "c" * 17, "x" * 32 + " y"], [" ".join(["d" * 17] * 3), "e " + "f" * 31 + " g h"],
                 [" ".join(["g" * 17] * 4) + " hi", "i" * 17 + " " + "k" * 16 + " " + "l" * 16 + " " + "m" * 17], ["n " + "o" * 31 + " p " + "q" * 31 + " r", "s " + "t" * 32 + " u " + "v" * 32 + " w w"]]
        t = "\n".join(kinds[k][d[1]] for k in d[0])
        if rows_at_least(t) > 15:
            return too_tall(far(t), ctx)
        judge(far(t), ctx)
    return Space("rows", "1..4 lines that each take 1..5 rows (1..20 rows in all)", cases, run)


FRAG = [["ab"], ["ab", "cd"], ["ab ", "cd"], ["ab", None, "cd"], [(True, {"italics": True}), "ab", (False, {"italics": True}), "cd"],
        ["ab", None, None, "cd"], ["  ab  cd "], [" ", None, "ab"], ["ab", None, " ", None, "cd"], ["a" * 33], ["it's", " - ", "ok"],
        ["ab", (True, {"bold": True}), None, "-cd", (False, {"bold": True})], ["well-known " * 5], ["x" * 31 + " y-z"], ["é-ñ " * 12],
        ["a" * 32, None, "b" * 32, None, "c" * 32, None, "d" * 32], ["…".replace("…", "...") + " --- -- - a--b"]]


def s_nodes():
    def cases():
        return prod(FRAG, FRAG)

    def run(d, ctx):
        caps = [(5000000 + 5000000 * i, 8000000 + 5000000 * i, list(FRAG[x])) for i, x in enumerate(d)]
        judge(caps, ctx)
    return Space("node-shapes", "all pairs of 17 captions with split, styled, blank and hyphenated text", cases, run)


def words_in(text):
    """code words of the line the writer needs for a short one-row text"""
    return 8 + 2 + (len(text) + 1) // 2


def s_spacing(tier):
    extra = [Fraction(x) for x in (0, 1, 100, 16000, 33366, 33367, 33368, 66733, 66734, 100100, 100101, 133466, 133467, 150000, 200000, 500000, 3000000)]
    ends = [Fraction(x) for x in (100000, 133467, 200000)] + ["touch", "over", "clear-1", "clear", "clear+1", "clear+frame"]
    texts = ["a", "hello there", "b" * 32]
    phases = [0, 1, 11111, 33366, 33367] if tier == "quick" else [0, 1, 2, 500, 11111, 22244, 33365, 33366, 33367, 33368, 40000]

    def cases():
        return prod(texts, texts, extra, ends, phases, 2)

    def run(d, ctx):
        t1, t2 = texts[d[0]], texts[d[1]]
        s1 = Fraction(-(-words_in(t1) * FRAME // 1)) + phases[d[4]] + (0 if d[5] == 0 else 3600 * 10 ** 6 * 7)
        s2 = s1 + -(-words_in(t2) * FRAME // 1) + extra[d[2]]
        cs2 = s2 - words_in(t2) * FRAME
        e = ends[d[3]]
        end = {"touch": s2, "over": s2 + 400000, "clear-1": cs2 - 3 * FRAME - 1, "clear": cs2 - 3 * FRAME, "clear+1": cs2 - 3 * FRAME + 1,
               "clear+frame": cs2 - 2 * FRAME}.get(e) if isinstance(e, str) else s1 + e
        if end < s1 + 100000:
            ctx.count("too_short")
            return
        s1, s2, end = (int(x) if x.denominator == 1 else float(x) for x in (Fraction(s1), Fraction(s2), Fraction(end)))
        judge([(s1, end, t1), (s2, s2 + 1500000, t2)], ctx)
    return Space("spacing", "2 cues x 3x3 text lengths x 17 distances from just feasible on x 9 ends of the first cue x sub-frame phases x 2 "
                 "times of day", cases, run)


def s_clock(tier):
    n = 4000 if tier == "quick" else 60000

    def cases():
        return prod(n, 5)

    def run(d, ctx):
        k, j = d
        base = [0, 59 * 1800, 30 * 3600 - 2000, 30 * 3600 * 23, 30 * 3600 * 99][j]
        t = (base + k + 11) * FRAME
        for s in (t // 1, -(-t // 1), t // 1 + 17000):
            s = int(s)
            judge([(s, s + 700000, "ab")], ctx)
    return Space("start-clock", "starts at and around every frame boundary of 5 stretches of %d frames" % n, cases, run)


def s_many():
    lens = list(range(1, 13)) + [16, 17, 32, 33, 64, 100, 101, 257]

    def cases():
        return prod(len(lens), 4, 4)

    def run(d, ctx):
        n, ln, gap = lens[d[0]], d[1], d[2]
        caps = []
        t = 2000000 + 777
        for i in range(n):
            text = [line_of(5 + 6 * i % 60 + 1, 7, 0, i), "ab\ncd", "word%d" % i, line_of(32, 40, 0, i)][(ln + (i if ln == 0 else 0)) % 4]
            words = 8 + sum(2 + (len(r) + 1) // 2 for r in text.split("\n")) + 2 * (len(text) // 25)
            t += int(words * FRAME) + 1 + [0, 100000, 1000000, 5000000][gap]
            caps.append((t, t + [150000, 400000, 900000, 2000000][(gap + i) % 4], text))
        judge(caps, ctx)
    return Space("many-cues", "1..12, 16, 17, 32, 33, 64, 100, 101 and 257 cues x 4 text patterns x 4 spacings", cases, run)


def spaces(tier):
    return [s_pairs(), s_lines(), s_multi(tier), s_rows(), s_nodes(), s_spacing(tier), s_clock(tier), s_many()]
