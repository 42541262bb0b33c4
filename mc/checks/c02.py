"""C02: writing preserves every cue's start and end instant.  Outputs are read back by the independent parsers in mc.refs."""
import itertools
from fractions import Fraction

from mc import refs
from mc.core import Mismatch, Space, prod

ASSUMPTIONS = [
    "SRT and MicroDVD carry one language (pycaption joins several with a separator line that belongs to neither grammar)",
    "fractional times are those an SCC stream denotes (n/30 s, times 1001/1000 for non-drop timecode)",
    "with several languages in SAMI the starts within a language are non-decreasing",
]
US = 1000000
WN = ["srt", "vtt", "dfxp", "legacy", "single", "sami", "mdvd"]


def ms_of(t):
    """the admissible written milliseconds of instant t (one value for integers; floats may carry noise around a boundary)"""
    if isinstance(t, int):
        return (t // 1000,)
    f = Fraction(t)
    return tuple({int(f / 1000), int((f + Fraction(1, 2)) / 1000) if round(f) % 1000 == 0 else int(f / 1000)})


def frames_of(t):
    if isinstance(t, int):
        return (t * 25 // US,)
    f = Fraction(t)
    return tuple({int(f * 25 / US), int((f + Fraction(1, 100)) * 25 / US)})


def make(w, opts):
    from mc.build import WRITERS
    return WRITERS[w](**opts) if w not in ("srt", "mdvd", "legacy") else WRITERS[w]()


def build(langs, two_layouts=False):
    from mc import build as B
    d = {}
    for l, times in langs:
        d[l] = [B.cap(a, b, ["T%s%d" % (l, i)]) for i, (a, b) in enumerate(times)]
    return B.cset(d)


def expect_cues(doc, cues, times, lang, merge, ctx, unit):
    """cues: parsed, times: the captions; merge: consecutive equal (start, end) may be one cue"""
    k = 0
    i = 0
    while i < len(times):
        a, b = times[i]
        run = 1
        while merge and i + run < len(times) and times[i + run] == times[i]:
            run += 1
        if k >= len(cues):
            raise Mismatch("caption %d of %r has no cue" % (i, lang), [times, doc], times, cues)
        c = cues[k]
        fa, fb = (ms_of(a), ms_of(b)) if unit == "ms" else (frames_of(a), frames_of(b))
        sa, sb = (Fraction(c.start) / 1000, Fraction(c.end) / 1000) if unit == "ms" else (c.start, c.end)
        if sa not in fa or sb not in fb:
            raise Mismatch("caption %d of %r, %r..%r, is written as %s..%s" % (i, lang, a, b, sa, sb), [times[:30], doc[:3000]], (fa, fb), (sa, sb))
        words = c.text.split()
        want = ["T%s%d" % (lang, j) for j in range(i, i + run)]
        if words == want:
            i += run
            k += 1
        elif words == want[:1]:
            i += 1
            k += 1
        else:
            raise Mismatch("cue %d carries %r, expected %r" % (k, words, want), [times[:30], doc[:3000]])
    if k != len(cues):
        raise Mismatch("%d cues for %d captions of %r" % (len(cues), len(times), lang), [times[:30], doc[:3000]], times, cues)
    ctx.step(len(times))


def check(w, langs, ctx, opts=None, wargs=None):
    """langs: [(lang, [(start, end)])]"""
    cs = build(langs)
    wr = make(w, opts or {})
    doc = ctx.call(wr.write, cs, **(wargs or {}))
    try:
        judge(w, doc, langs, ctx, wargs or {})
    except refs.Bad as e:
        raise Mismatch("output is not well formed: %s" % e, [langs, doc[:3000]])
    ctx.outcome(doc)


def judge(w, doc, langs, ctx, wargs):
    if w == "srt":
        expect_cues(doc, refs.parse_srt(doc), langs[0][1], langs[0][0], True, ctx, "ms")
    elif w == "vtt":
        lang = wargs.get("lang") or langs[0][0]
        expect_cues(doc, refs.parse_vtt(doc), dict(langs)[lang], lang, False, ctx, "ms")
    elif w == "mdvd":
        expect_cues(doc, refs.parse_microdvd(doc), langs[0][1], langs[0][0], False, ctx, "frames")
    elif w == "sami":
        d = refs.SamiDoc(doc)
        ev = d.events()
        for lang, times in langs:
            mine = [(ms, p.text.strip()) for ms, c, p in ev if (d.class_lang(c) or c) == lang]
            cues = [x for x in mine if x[1]]
            if len(cues) != len(times):
                raise Mismatch("%d cues for %d captions of %r" % (len(cues), len(times), lang), [langs, doc[:3000]])
            exp, loose = [], False
            for i, (a, b) in enumerate(times):
                sa = cues[i][0]
                if sa not in ms_of(a) or cues[i][1] != "T%s%d" % (lang, i):
                    raise Mismatch("caption %d of %r, %r..%r, is written at %r" % (i, lang, a, b, cues[i]), [langs, doc[:3000]])
                exp.append(cues[i])
                if i + 1 < len(times):
                    if not set(ms_of(b)) & set(ms_of(times[i + 1][0])):
                        got = [m for m in ms_of(b) if (m, "") in mine]
                        exp.append((got[0] if got else ms_of(b)[0], ""))
                    if times[i + 1][0] < b:
                        loose = True
            ok = sorted(mine) == sorted(exp) if loose else mine == exp
            if not ok:
                raise Mismatch("paragraphs of %r are %r, expected %r" % (lang, mine[:40], exp[:40]), [langs, doc[:3000]], exp, mine)
            ctx.step(len(times))
        if len(ev) != sum(1 for ms, c, p in ev if (d.class_lang(c) or c) in dict(langs)):
            raise Mismatch("paragraphs outside the written languages", [langs, doc[:3000]])
    else:
        got = refs.parse_dfxp(doc)
        want = [x for x in langs]
        f = wargs.get("force")
        if f and f in dict(langs):
            want = [(f, dict(langs)[f])]
        if [l for l, _ in got] != [l for l, _ in want]:
            raise Mismatch("languages %r, expected %r" % ([l for l, _ in got], [l for l, _ in want]), [langs, doc[:3000]])
        for (l, cues), (_, times) in zip(got, want):
            expect_cues(doc, cues, times, l, w != "dfxp", ctx, "ms")


# ------------------------------------------------------------------ spaces
def grid(h, pat, lo, n):
    out = []
    for k in range(lo, lo + n):
        ms, us = ((0, 0), (999, 999), ((k * 7) % 1000, (k * 13) % 1000), ((k * 37 + 500) % 1000, 0))[pat]
        a = (h * 3600 + k) * US + ms * 1000 + us
        b = a + (1, 61 * US + 1001, 3599999999, k * 977 % 4000000)[pat]
        out.append((a, min(b, 86400 * US - 1)))
    return out


def run_grid(desc, ctx):
    w, h, pat, lo, n = desc
    ctx.state(desc)
    check(WN[w], [("en", grid(h, pat, lo, n))], ctx)


def run_ms(desc, ctx):
    w, b, us, lo, n = desc
    base = BASES[b] * US
    ts = [(base + k * 1000 + us, base + 7 * US + (999 - k) * 1000 + us) for k in range(lo, lo + n)]
    ctx.state(desc)
    check(WN[w], [("en", ts)], ctx)


BASES = [0, 59, 3599, 3600, 35999, 86390]


def run_frames(desc, ctx):
    (blk, kind), n = desc, 2000
    first = lambda f: -(-f * 40000 // 1)
    ts = []
    for f in range(blk * n, blk * n + n):
        a = f * 40000 + (0, 39999)[kind]
        ts.append((a, a + (39999, 1)[kind]))
    ctx.state(("frames", desc))
    check("mdvd", [("en", ts)], ctx)


def scc_time(n, ndf):
    """the float the SCC reader computes for frame n"""
    from pycaption import SCCReader
    s, f = divmod(n, 30)
    return ((s + f / 30.0) * (1.001 if ndf else 1.0)) * 1000000


def run_fractional(desc, ctx):
    w, ndf, blk, step = desc
    n = 300
    fr = [(blk * n + k) * step for k in range(n)]
    ts = [(scc_time(f, ndf), scc_time(f + step, ndf)) for f in fr]
    ts = [(a, b) for a, b in ts if b < 86400 * US]
    if not ts:
        return
    ctx.state(desc)
    check(WN[w], [("en", ts)], ctx)


LATTICES = [
    [0, 1, 999, 1000, 40000, 1000000],
    [0, 39999, 40000, 40999, 41000, 3600000000],
    [59999999, 60000000, 60000999, 60001000, 60040000, 86399999999],
]


def intervals(lat):
    return [(a, b) for i, a in enumerate(lat) for b in lat[i:]]


def run_timeline(desc, ctx):
    w, li, seq = desc
    iv = intervals(LATTICES[li])
    ctx.state(desc)
    check(WN[w], [("en", [iv[i] for i in seq])], ctx)


def sorted_lists(lat, n):
    """all lists of <= n intervals with non-decreasing, non-overlapping times"""
    iv = intervals(lat)
    out = [[]]
    res = [[]]
    for _ in range(n):
        out = [l + [x] for l in out for x in iv if not l or x[0] >= l[-1][1]]
        res += out
    return res


ML = {}


def ml_lists(n):
    if n not in ML:
        ML[n] = sorted_lists([0, 999, 1500, 2000000, 3000000], n)
    return ML[n]


def run_multi(desc, ctx):
    w, a, b, o = desc
    ls = ml_lists(2)
    langs = [("en", ls[a]), ("fr", ls[b])]
    if not ls[a] and not ls[b]:
        return
    ctx.state(desc)
    wargs = {}
    if WN[w] == "vtt":
        wargs = [{}, {"lang": "fr"}][o]
        if not dict(langs)[wargs.get("lang", "en")]:
            return
    elif WN[w] in ("dfxp", "legacy", "single"):
        wargs = [{}, {"force": "fr"}][o]
    elif o:
        return
    check(WN[w], langs, ctx, wargs=wargs)


OPTS = [{}, {"relativize": False}, {"fit_to_screen": False}, {"video_width": 640, "video_height": 360}, {"relativize": False, "fit_to_screen": False}]


def run_opts(desc, ctx):
    w, o, seq = desc
    iv = intervals(LATTICES[0])
    ctx.state(desc)
    opts = dict(OPTS[o])
    if WN[w] == "dfxp" and o == 1:
        opts["write_inline_positioning"] = True
    check(WN[w], [("en", [iv[i] for i in seq])], ctx, opts=opts)


def run_layouts(desc, ctx):
    """WebVTT: captions whose nodes carry different layouts"""
    from mc import build as B
    pat, caps = desc
    L = [None, B.Layout(alignment=B.Alignment(B.H.LEFT, B.V.TOP)), B.Layout(alignment=B.Alignment(B.H.RIGHT, B.V.TOP))]
    times = [(k * US + 1, k * US + 999999) for k in range(caps)]
    cs = B.cset({"en": [B.cap(a, b, [("T%d" % j, L[p]) for j, p in enumerate(pat)]) for a, b in times]})
    ctx.state(desc)
    doc = ctx.call(B.WebVTTWriter().write, cs)
    try:
        cues = refs.parse_vtt(doc)
    except refs.Bad as e:
        raise Mismatch("output is not well formed: %s" % e, [desc, doc])
    k = 0
    for i, (a, b) in enumerate(times):
        text = ""
        n = 0
        while k < len(cues) and text != "".join("T%d" % j for j in range(len(pat))):
            c = cues[k]
            if (c.start, c.end) != (a // 1000 * 1000, b // 1000 * 1000):
                raise Mismatch("cue %d has times %r" % (k, (c.start, c.end)), [desc, doc], (a, b))
            text += c.text.replace("\n", "").replace(" ", "")
            k += 1
            n += 1
        if n > len(pat) or n < 1:
            raise Mismatch("caption %d became %d cues" % (i, n), [desc, doc])
        ctx.step(n)
    if k != len(cues):
        raise Mismatch("%d cues, %d accounted for" % (len(cues), k), [desc, doc])


def spaces(tier):
    q = tier == "quick"
    light, heavy = (0, 1, 6), (2, 3, 4, 5)
    HH = range(24)
    hh = (0, 1, 9, 10, 23) if q else range(24)
    nl = len(ml_lists(2))
    niv = len(intervals(LATTICES[0]))
    return [
        Space("clock-grid-light", "24 hours x 60 minutes x 60 seconds x %d sub-second patterns x {SRT, WebVTT, MicroDVD}" % (2 if q else 4),
              lambda: ((w, h, p, lo, 900) for w in light for h in HH for p in ((1, 2) if q else range(4)) for lo in range(0, 3600, 900)), run_grid),
        Space("clock-grid-heavy", "%d hours x 3600 x %d patterns x {DFXP, legacy, single-position, SAMI}" % (len(hh), 1 if q else 4),
              lambda: ((w, h, p, lo, 300) for w in heavy for h in hh for p in ((2,) if q else range(4)) for lo in range(0, 3600, 300)), run_grid),
        Space("all-milliseconds", "1000 milliseconds x 6 instants x 3 sub-millisecond remainders x 7 writers",
              lambda: ((w, b, u, lo, 250) for w in range(7) for b in (range(6) if w in light or not q else (0, 4)) for u in (0, 1, 999)
                       for lo in range(0, 1000, 250)), run_ms),
        Space("microdvd-frames", "first and last microsecond of every frame below %d" % (100000 if q else 2158000),
              lambda: ((b, k) for b in range(50 if q else 1079) for k in (0, 1)), run_frames),
        Space("fractional-times", "SCC instants: every frame (and every %s-th frame) x drop/non-drop x 7 writers" % 7919,
              lambda: ((w, n, b, s) for w in range(7) for n in (0, 1) for s, nb in ((1, 3 if q else 40), (7919, 1), (29, 2), (1800, 4)) for b in range(nb)), run_fractional),
        Space("timelines", "all sequences of <= %d captions over the %d intervals of %d 6-point lattices x 7 writers" % (2 if q else 3, niv, len(LATTICES)),
              lambda: ((w, l, s) for w in range(7) for l in range(len(LATTICES)) for k in ((1, 2) if q else (1, 2, 3)) for s in itertools.product(range(niv), repeat=k)), run_timeline),
        Space("timelines-3", "all sequences of 3 captions over the 15 intervals of a 5-point lattice x 7 writers",
              lambda: ((w, 0, s) for w in range(7) for s in itertools.product([i for i in range(niv) if 4 not in (divmod(i, niv))][:15], repeat=3)), run_timeline),
        Space("two-languages", "all pairs of sorted non-overlapping cue lists of <= 2 cues over a 5-point lattice x {WebVTT, DFXP x3, SAMI} x language option",
              lambda: ((w, a, b, o) for w in (1, 2, 3, 4, 5) for a in range(0, nl, 1 if w == 5 or not q else 3) for b in range(0, nl, 1 if w == 5 or not q else 4) for o in (0, 1)
                       if not (w == 5 and o)), run_multi),
        Space("writer-options", "%d option sets x 4 writers x all sequences of <= 2 captions" % len(OPTS),
              lambda: ((w, o, s) for w in (1, 2, 4, 5) for o in range(len(OPTS)) for k in (1, 2) for s in itertools.product(range(0, niv, 2 if q else 1), repeat=k)), run_opts),
        Space("vtt-layout-splits", "all assignments of 3 layouts to <= %d nodes x 1-2 captions" % (4 if q else 6),
              lambda: ((p, c) for k in range(1, 5 if q else 7) for p in itertools.product(range(3), repeat=k) for c in (1, 2)), run_layouts),
    ]
