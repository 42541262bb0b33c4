"""C01: reading preserves every cue's start and end instant (SRT, WebVTT, DFXP, SAMI, MicroDVD).

Documents are generated from (instant, spelling, structure) vectors by the serialisers below; the expected instants come
from the vector itself in exact arithmetic.  Every vector of every space is enumerated."""
import itertools
from fractions import Fraction

from mc.core import Mismatch, Space, devs, prod

ASSUMPTIONS = [
    "SRT fractions are decimal fractions of a second; a document starts with its first counter line",
    "DFXP: default frame rate 30 (no ttp:frameRate attribute), timing on p elements only, either end or dur",
    "MicroDVD: the frame rate is declared by a first line {0}{0}fps",
    "WebVTT time shifts that would make an instant negative are not enumerated",
    "cues whose text is only white space are not enumerated (neither clearly empty nor clearly visible)",
]

US = 1000000


def times_of(cs):
    langs = cs.get_languages()
    return [(l, [(c.start, c.end) for c in cs.get_captions(l)]) for l in langs]


def compare(doc, cs, expected, ctx, texts=None):
    """expected: [(lang or None, [(start, end)])]"""
    got = times_of(cs)
    if len(got) != len(expected):
        raise Mismatch("%d languages, expected %d" % (len(got), len(expected)), doc, expected, got)
    for (gl, gt), (el, et) in zip(got, expected):
        if el is not None and gl != el:
            raise Mismatch("language %r, expected %r" % (gl, el), doc, expected, got)
        if len(gt) != len(et):
            raise Mismatch("%d captions for %d non-empty cues" % (len(gt), len(et)), doc, et[:20], gt[:20])
        for i, (g, e) in enumerate(zip(gt, et)):
            if g[0] != e[0] or g[1] != e[1]:
                raise Mismatch("cue %d has times %r, the document says %r" % (i, g, e), near(doc, i), e, g)
            if g[0] != int(g[0]) or g[1] != int(g[1]):
                raise Mismatch("cue %d has non-integer times %r" % (i, g), near(doc, i), e, g)
        ctx.step(len(et))
        for e in et:
            ctx.outcomes.add(hash(e))
    if texts is not None:
        for (gl, _), tx in zip(got, texts):
            gtx = [c.get_text() for c in cs.get_captions(gl)]
            for i, (a, b) in enumerate(zip(gtx, tx)):
                if a.split() != b.split():
                    raise Mismatch("cue %d has text %r, expected %r" % (i, a, b), doc, tx, gtx)


def near(doc, i):
    return doc if len(doc) < 3000 else "cue #%d of %s" % (i, doc[:1500])


# ------------------------------------------------------------------ spellings
def hms(us):
    s, f = divmod(us, US)
    return s // 3600, s // 60 % 60, s % 60, f


def srt_stamp(us, frac=3, hdig=2):
    """frac: number of fraction digits (0: none); us must be representable when frac < 6"""
    h, m, s, f = hms(us)
    out = "%0*d:%02d:%02d" % (hdig, h, m, s)
    if frac:
        out += "," + ("%06d" % f + "0" * 12)[:frac]
    return out


def vtt_stamp(us, hours=True, hdig=2):
    h, m, s, f = hms(us)
    ms = f // 1000
    if h or hours:
        return "%0*d:%02d:%02d.%03d" % (hdig, h, m, s, ms)
    return "%02d:%02d.%03d" % (m, s, ms)


# ------------------------------------------------------------------ full clock-field grids (batched)
def grid_times(h, pat):
    """every (minute, second) of hour h; milliseconds and ends follow pattern pat"""
    out = []
    for k in range(3600):
        ms = (0, 999, (k * 7) % 1000, (k * 37 + 500) % 1000)[pat]
        start = (h * 3600 + k) * US + ms * 1000
        dur = (1000, 61 * US + 1000, 3599999000, (k * 977 % 4000000) * 1000)[pat]
        out.append((start, start + dur))
    return out


def read_srt(doc, ctx, lang=None):
    from pycaption import SRTReader
    return ctx.call(SRTReader().read, doc, **({"lang": lang} if lang else {}))


def run_srt_grid(desc, ctx):
    h, pat = desc
    ts = grid_times(h, pat)
    doc = "\n".join("%d\n%s --> %s\nText %d\n" % (i + 1, srt_stamp(a), srt_stamp(b), i) for i, (a, b) in enumerate(ts))
    ctx.state(("srt", h, pat))
    compare(doc, read_srt(doc, ctx, "xx"), [("xx", ts)], ctx)


def run_vtt_grid(desc, ctx):
    from pycaption import WebVTTReader
    h, pat, absent, strict = desc
    ts = grid_times(h, pat)
    doc = "WEBVTT\n\n" + "\n".join(
        "%s --> %s\nText %d\n" % (vtt_stamp(a, not absent), vtt_stamp(b, not absent), i) for i, (a, b) in enumerate(ts))
    ctx.state(("vtt", desc))
    r = WebVTTReader(ignore_timing_errors=not strict)
    compare(doc, ctx.call(r.read, doc, lang="xx"), [("xx", ts)], ctx)


def dfxp_doc(ps, lang="en"):
    return ('<?xml version="1.0" encoding="utf-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="%s">\n<head/>\n'
            '<body>\n<div xml:lang="%s">\n%s\n</div>\n</body>\n</tt>' % (lang, lang, "\n".join(ps)))


def run_dfxp_grid(desc, ctx):
    from pycaption import DFXPReader
    h, pat, lo = desc
    ts = grid_times(h, pat)[lo:lo + 450]
    doc = dfxp_doc(['<p begin="%s" end="%s">T%d</p>' % (srt_stamp(a).replace(",", "."), srt_stamp(b).replace(",", "."), i)
                    for i, (a, b) in enumerate(ts)])
    ctx.state(("dfxp", desc))
    compare(doc, ctx.call(DFXPReader().read, doc), [("en", ts)], ctx)


SAMI_HEAD = ('<SAMI>\n<HEAD>\n<TITLE>t</TITLE>\n<STYLE TYPE="text/css">\n<!--\nP { font-family: Arial; }\n'
             '.ENCC { Name: English; lang: en-US; SAMI_Type: CC; }\n.FRCC { Name: French; lang: fr-FR; }\n-->\n</STYLE>\n'
             '</HEAD>\n<BODY>\n')


def run_sami_grid(desc, ctx):
    """every second of an hour appears as a sync start; the end is the next sync (cue or blank)"""
    from pycaption import SAMIReader
    h, pat, lo = desc
    starts = [a // 1000 for a, _ in grid_times(h, pat)[lo:lo + 300]]
    body, exp = [], []
    for i, ms in enumerate(starts):
        blank = pat == 1 and i % 3 == 1
        body.append("<SYNC Start=%d><P Class=ENCC>%s" % (ms, "&nbsp;" if blank else "T%d" % i))
        nxt = starts[i + 1] if i + 1 < len(starts) else ms + 4000
        if not blank:
            exp.append((ms * 1000, nxt * 1000))
    doc = SAMI_HEAD + "\n".join(body) + "\n</BODY>\n</SAMI>"
    ctx.state(("sami", desc))
    compare(doc, ctx.call(SAMIReader().read, doc), [("en-US", exp)], ctx)


FPS = [None, "25", "25.0", "23.976", "23.98", "24", "24.0", "29.97", "30", "50", "59.94", "60", "12.5", "15", "1", "100", "10"]


def run_mdvd(desc, ctx):
    from pycaption import MicroDVDReader
    f, block = desc
    fps = Fraction(FPS[f]) if FPS[f] else Fraction(25)
    head = "{0}{0}%s\n" % FPS[f] if FPS[f] else ""
    base = block * 2000
    frames = [(n, n + 1 + n * 7919 % 200000) for n in range(base, base + 2000) if n > 0]
    doc = head + "\n".join("{%d}{%d}Text" % x for x in frames)
    exp = [(int(a / fps * US), int(b / fps * US)) for a, b in frames]
    ctx.state(("mdvd", desc))
    compare(doc, ctx.call(MicroDVDReader().read, doc, lang="xx"), [("xx", exp)], ctx)


# ------------------------------------------------------------------ fractions
FRACS = ["", "0", "5", "9", "05", "50", "99", "000", "001", "009", "010", "100", "500", "999", "0000", "0001", "1234",
         "5000", "9999", "12345", "00005", "99999", "123456", "000001", "999999", "1234567", "0000009", "9999999",
         "123456789", "000000001", "999999999", "1000000000", "0010000000", "1234567890123456789", "9" * 25]
BASES = [(0, 0, 0), (0, 0, 1), (0, 0, 59), (0, 59, 59), (1, 2, 3), (9, 59, 0), (10, 0, 0), (23, 59, 59), (24, 0, 0),
         (99, 59, 59), (100, 0, 0), (999, 59, 59)]


def frac_us(f):
    return int(Fraction(int(f or 0), 10 ** len(f)) * US)


def run_frac(desc, ctx):
    fmt, ia, ib = desc
    fa, fb = FRACS[ia], FRACS[ib]
    exp, spell = [], []
    for (h, m, s) in BASES:
        t = ((h * 60 + m) * 60 + s) * US
        exp.append((t + frac_us(fa), t + 5 * US + frac_us(fb)))
        t2 = (h * 60 + m) * 60 + s + 5
        spell.append(("%02d:%02d:%02d" % (h, m, s), "%02d:%02d:%02d" % (t2 // 3600, t2 // 60 % 60, t2 % 60)))
    ctx.state(("frac", fmt, fa, fb))
    if fmt == 0:
        doc = "\n".join("%d\n%s --> %s\nT\n" % (i + 1, a + ("," + fa if fa else ""), b + ("," + fb if fb else ""))
                        for i, (a, b) in enumerate(spell))
        compare(doc, read_srt(doc, ctx), [(None, exp)], ctx)
    else:
        from pycaption import DFXPReader
        doc = dfxp_doc(['<p begin="%s" end="%s">T</p>' % (a + ("." + fa if fa else ""), b + ("." + fb if fb else ""))
                        for a, b in spell])
        compare(doc, ctx.call(DFXPReader().read, doc), [("en", exp)], ctx)


def run_all_ms(desc, ctx):
    """every millisecond value 0..999 on both sides, at each base instant"""
    fmt, b = desc
    h, m, s = BASES[b]
    t = ((h * 60 + m) * 60 + s) * US
    ts = [(t + k * 1000, t + 10 * US + (999 - k) * 1000) for k in range(1000)]
    ctx.state(("ms", desc))
    if fmt == 0:
        doc = "\n".join("%d\n%s --> %s\nT\n" % (i + 1, srt_stamp(a), srt_stamp(b)) for i, (a, b) in enumerate(ts))
        compare(doc, read_srt(doc, ctx), [(None, ts)], ctx)
    elif fmt == 1:
        from pycaption import WebVTTReader
        doc = "WEBVTT\n\n" + "\n".join("%s --> %s\nT\n" % (vtt_stamp(a, False), vtt_stamp(b, False)) for a, b in ts)
        compare(doc, ctx.call(WebVTTReader().read, doc), [(None, ts)], ctx)
    else:
        from pycaption import DFXPReader
        doc = dfxp_doc(['<p begin="%s" end="%s">T</p>' % (srt_stamp(a).replace(",", "."), srt_stamp(b).replace(",", "."))
                        for a, b in ts])
        compare(doc, ctx.call(DFXPReader().read, doc), [("en", ts)], ctx)


# ------------------------------------------------------------------ DFXP time expressions
def dfxp_exprs(deep=False):
    """[(spelling, exact microseconds)]"""
    out = []
    for h, m, s in BASES:
        t = ((h * 60 + m) * 60 + s)
        for ff in range(30):
            out.append(("%02d:%02d:%02d:%02d" % (h, m, s, ff), (t + Fraction(ff, 30)) * US))
    unit = {"h": 3600 * US, "m": 60 * US, "s": US, "ms": 1000, "f": Fraction(US, 30)}
    ints = [0, 1, 2, 3, 5, 7, 9, 10, 11, 29, 30, 31, 59, 60, 61, 99, 100, 999, 1000, 1001, 3599, 3600, 86399, 86400]
    ints += [12345, 359999] if not deep else list(range(12, 200))
    frs = ["", "0", "5", "1", "3", "001", "25", "333", "999", "1001", "000001", "123456", "0000001", "9999999"]
    for u, k in unit.items():
        for i in ints:
            for f in frs:
                v = Fraction(i) + (Fraction(int(f), 10 ** len(f)) if f else 0)
                if v * k < 1000 * 3600 * US:
                    out.append(("%d%s%s" % (i, "." + f if f else "", u), v * k))
    # every millisecond written as decimal seconds, every number of milliseconds/frames up to 3000
    for n in range(0, 3000):
        out.append(("%d.%03ds" % divmod(n, 1000), Fraction(n * 1000)))
        out.append(("%dms" % n, Fraction(n * 1000)))
        out.append(("%df" % n, Fraction(n * US, 30)))
    return out


_EX = {}


def exprs(deep):
    if deep not in _EX:
        _EX[deep] = dfxp_exprs(deep)
    return _EX[deep]


DURS = [("1s", Fraction(US)), ("00:00:01", Fraction(US)), ("1f", Fraction(US, 30)), ("2f", Fraction(2 * US, 30)),
        ("0.5s", Fraction(US, 2)), ("00:00:00.001", Fraction(1000)), ("1h", Fraction(3600 * US)),
        ("00:00:00:01", Fraction(US, 30)), ("0.0000004s", Fraction(2, 5)), ("1.5ms", Fraction(1500)), ("2m", Fraction(120 * US)),
        ("00:00:03.1234567", Fraction(31234567, 10))]
CHUNK = 240


def run_dfxp_expr(desc, ctx):
    from pycaption import DFXPReader
    deep, chunk, mode = desc
    ex = exprs(bool(deep))[chunk * CHUNK:(chunk + 1) * CHUNK]
    ps, exp = [], []
    for i, (sp, us) in enumerate(ex):
        if mode == 0:
            ps.append('<p begin="%s" end="%s">T</p>' % (sp, sp))
            exp.append((int(us), int(us)))
        else:
            d, du = DURS[mode - 1]
            ps.append('<p begin="%s" dur="%s">T</p>' % (sp, d))
            exp.append((int(us), int(us + du)))
        ctx.state(("expr", sp, mode))
    doc = dfxp_doc(ps)
    compare(doc, ctx.call(DFXPReader().read, doc), [("en", exp)], ctx)


# ------------------------------------------------------------------ document structure
T4 = [(0, 1 * US + 1000), (2 * US + 2000, 59 * US + 999000), (3600 * US, 3601 * US + 10000), (90061 * US + 1000, 360000 * US)]
EOLS = ["\n", "\r\n", "\r"]
SRT_TEXT = [["A"], ["A", "b c"], ["12"], ["A", "3"], ["3", "A"], ["-"], ["a --> b"], ["00:00:01,000 --> 00:00:02,000", "x"],
            ["WEBVTT"], ["NOTE x"], ["{1}{2}"], ["\u266a"]]
SRT_DIM = dict(eol=EOLS, tail=["\n", "", "\n\n", "\n\n\n"], gap=[1, 2, 3], index=["seq", "one", "zero", "big", "lead0", "desc"],
               arrow=[" --> ", "-->", "  -->  "], text=SRT_TEXT, empty=list(range(16)), frac=[3, 0, 4], hdig=[2, 1, 3],
               order=["asc", "desc", "same"])


def struct_times(order):
    if order == "asc":
        return T4
    if order == "desc":
        return T4[::-1]
    return [T4[2]] * 4


def run_srt_struct(desc, ctx):
    v = dict(zip(SRT_DIM, [d[i] for d, i in zip(SRT_DIM.values(), desc)]))
    ctx.state(("srt-struct", desc))
    blocks, exp, texts = [], [], []
    ts = struct_times(v["order"])
    if v["frac"] == 0:
        ts = [(a // US * US, b // US * US) for a, b in ts]
    for i, (a, b) in enumerate(ts):
        idx = {"seq": str(i + 1), "one": "1", "zero": str(i), "big": str(100000000000 + i), "lead0": "00%d" % i,
               "desc": str(9 - i)}[v["index"]]
        tx = [] if v["empty"] >> i & 1 else v["text"]
        blocks.append("\n".join([idx, srt_stamp(a, v["frac"], v["hdig"]) + v["arrow"] + srt_stamp(b, v["frac"], v["hdig"])] + tx))
        if tx:
            exp.append((a, b))
            texts.append("\n".join(tx))
    doc = ("\n" * (v["gap"] + 1)).join(blocks) + v["tail"]
    doc = doc.replace("\n", v["eol"])
    if not exp:
        return
    # Known finding (pinned by tests/test_srt.py::test_extra_empty_line): an empty cue followed by surplus blank lines is
    # returned as a caption with empty text.  Exactly that list, and no other, carries the key.
    pinned = []
    for i, (a, b) in enumerate(ts):
        if not v["empty"] >> i & 1 or (v["gap"] > 1 if i < 3 else len(v["tail"]) > 1):
            pinned.append((a, b))
    cs = read_srt(doc, ctx)
    if len(pinned) > len(exp) and times_of(cs)[0][1] == pinned and \
            [t for t in (c.get_text() for c in cs.get_captions(cs.get_languages()[0])) if t] == texts:
        raise Mismatch("%d captions for %d non-empty cues" % (len(pinned), len(exp)), doc, exp, pinned,
                       key="srt-empty-cue-surplus-blank-lines")
    compare(doc, cs, [(None, exp)], ctx, [texts])


VTT_TEXT = [["A"], ["A", "b c"], ["12"], ["WEBVTT"], ["NOTE x"], ["1", "STYLE"], ["<i>x</i>"], ["- a"], ["\u266a"], ["00:01.000"]]
VTT_DIM = dict(eol=EOLS, head=["WEBVTT", "WEBVTT - title", "WEBVTT\tx", "\ufeffWEBVTT", "WEBVTT\nKind: captions\nLanguage: en"],
               tail=["\n", "", "\n\n", "\n\n\n"], gap=[1, 2, 3], ident=["", "1", "intro", "id with spaces", "00:01.000 x"],
               between=["", "NOTE a comment", "NOTE\nover\nlines", "STYLE\n::cue { color: red }", "REGION\nid:fred"],
               arrow=[" --> ", "\t-->\t", "  -->  "], settings=["", " align:start", " position:10% line:5% size:50%", "\talign:end", "   ", " region:fred vertical:rl"],
               text=VTT_TEXT, empty=list(range(16)), hours=[0, 1], hdig=[2, 3, 4], shift=[0, 1, 1000, 3600000, 123456789, -0],
               strict=[0, 1], order=["asc", "desc", "same"])


def run_vtt_struct(desc, ctx):
    from pycaption import WebVTTReader
    v = dict(zip(VTT_DIM, [d[i] for d, i in zip(VTT_DIM.values(), desc)]))
    if v["strict"] and v["order"] == "desc":
        return
    ctx.state(("vtt-struct", desc))
    blocks, exp, texts = [], [], []
    for i, (a, b) in enumerate(struct_times(v["order"])):
        tx = [] if v["empty"] >> i & 1 else v["text"]
        lines = [v["ident"]] if v["ident"] else []
        lines.append(vtt_stamp(a, v["hours"], v["hdig"]) + v["arrow"] + vtt_stamp(b, v["hours"], v["hdig"]) + v["settings"])
        blocks.append("\n".join(lines + tx))
        if v["between"] and i < 3:
            blocks.append(v["between"])
        if tx:
            sh = v["shift"] * 1000
            exp.append((a + sh, b + sh))
            texts.append("\n".join(x.replace("<i>", "").replace("</i>", "") for x in tx))
    doc = v["head"] + "\n\n" + ("\n" * (v["gap"] + 1)).join(blocks) + v["tail"]
    doc = doc.replace("\n", v["eol"])
    if not exp:
        return
    r = WebVTTReader(time_shift_milliseconds=v["shift"], ignore_timing_errors=not v["strict"])
    compare(doc, ctx.call(r.read, doc), [(None, exp)], ctx, [texts])


def run_vtt_shift(desc, ctx):
    """negative and positive shifts that keep every instant non-negative"""
    from pycaption import WebVTTReader
    sh, base, strict = desc
    ts = [(a + base * 1000, b + base * 1000) for a, b in T4]
    shift = SHIFTS[sh]
    if base + shift < 0:
        return
    ctx.state(("shift", desc))
    doc = "WEBVTT\n\n" + "\n\n".join("%s --> %s\nT" % (vtt_stamp(a), vtt_stamp(b)) for a, b in ts)
    r = WebVTTReader(time_shift_milliseconds=shift, ignore_timing_errors=bool(strict))
    compare(doc, ctx.call(r.read, doc), [(None, [(a + shift * 1000, b + shift * 1000) for a, b in ts])], ctx)


SHIFTS = [0, 1, -1, 999, -999, 1000, -1000, 59999, -60000, 3600000, -3600000, 86400000, -86400000, 1234567]
SHIFT_BASES = [0, 1, 999, 1000, 60000, 3600000, 86400000, 90000001]

DFXP_DIM = dict(decl=[1, 0], eol=["\n", "\r\n"], wrap=[0, 1, 2], empty=list(range(16)), emptykind=["", " ", "\n", "<br/>", "<span> </span>"],
                kind=["end", "dur"], text=["A", "A<br/>b", "<span>x</span>", "&amp;", "12"], order=["asc", "desc", "same"], divs=[1, 2],
                quote=['"', "'"], attrorder=[0, 1], ids=[0, 1], lang=["en", "fr-FR"])


def run_dfxp_struct(desc, ctx):
    from pycaption import DFXPReader
    v = dict(zip(DFXP_DIM, [d[i] for d, i in zip(DFXP_DIM.values(), desc)]))
    ctx.state(("dfxp-struct", desc))
    ps, exp = [], []
    q = v["quote"]
    for i, (a, b) in enumerate(struct_times(v["order"])):
        em = v["empty"] >> i & 1
        at = ["begin=%s%s%s" % (q, srt_stamp(a).replace(",", "."), q),
              "end=%s%s%s" % (q, srt_stamp(b).replace(",", "."), q) if v["kind"] == "end" else "dur=%s%dms%s" % (q, (b - a) // 1000, q)]
        if v["attrorder"]:
            at.reverse()
        if v["ids"]:
            at.append('xml:id="p%d"' % i)
        pad = ["", "\n    ", "\n\n\t "][v["wrap"]]
        ps.append("<p %s>%s%s%s</p>" % (" ".join(at), pad, v["emptykind"] if em else v["text"], pad))
        if not em:
            exp.append((a, b))
    if not exp:
        return
    l = v["lang"]
    divs = '<div xml:lang="%s">\n%s\n</div>' % (l, "\n".join(ps))
    e = [(l, exp)]
    if v["divs"] == 2:
        divs += '<div xml:lang="de">\n<p begin="7s" end="8s">D</p>\n</div>'
        e.append(("de", [(7 * US, 8 * US)]))
    doc = ('<?xml version="1.0" encoding="utf-8"?>\n' if v["decl"] else "") + \
        '<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="%s">\n<head/>\n<body>\n%s\n</body>\n</tt>\n' % (l, divs)
    doc = doc.replace("\n", v["eol"])
    compare(doc, ctx.call(DFXPReader().read, doc), e, ctx)


# SAMI: every sequence of sync blocks over an alphabet of contents
SAMI_BLOCKS = ["E", "-", "e", "EE", "F", "EF", "Ef", "f", "FE", "EEE", "FEFEE"]
# letter: E English cue, e English blank, F French cue, f French blank, '-': sync without paragraphs
SAMI_FORM = dict(close=[0, 1, 2], case=[0, 1], quote=['', '"'], eol=["\n", "\r\n", ""], gap=[1000, 1, 999, 3600000, 86400000])


def run_sami_seq(desc, ctx):
    from pycaption import SAMIReader
    seq, form = desc
    v = dict(zip(SAMI_FORM, [d[i] for d, i in zip(SAMI_FORM.values(), form)]))
    blocks = [i if isinstance(i, str) else SAMI_BLOCKS[i] for i in seq]
    ctx.state(("sami-seq", seq, form))
    starts = [7 + k * v["gap"] for k in range(len(blocks))]
    S, P = ("SYNC", "P") if v["case"] == 0 else ("sync", "p")
    parts = []
    ev = {"E": [], "F": []}
    order = []
    for n, (b, ms) in enumerate(zip(blocks, starts)):
        ps = ""
        for k, ch in enumerate("" if b == "-" else b):
            if ch == "-":
                continue
            vis = ch.isupper()
            L = ch.upper()
            if L not in order:
                order.append(L)
            ev[L].append((ms, "%s%d%d" % (ch, n, k) if vis else None))
            ps += "<%s Class=%s>%s" % (P, {"E": "ENCC", "F": "FRCC"}[L], "%s%d%d" % (ch, n, k) if vis else "&nbsp;")
            if v["close"] >= 1:
                ps += "</%s>" % P
        parts.append("<%s Start=%s%d%s>%s%s" % (S, v["quote"], ms, v["quote"], ps, "</%s>" % S if v["close"] == 2 else ""))
    expected, texts = [], []
    for L in order:
        out, tx = [], []
        for i, (ms, t) in enumerate(ev[L]):
            if t is None:
                continue
            later = [m for m, _ in ev[L] if m > ms]
            out.append((ms * 1000, (later[0] if later else ms + 4000) * 1000))
            tx.append(t)
        expected.append(({"E": "en-US", "F": "fr-FR"}[L], out))
        texts.append(tx)
    if not any(o for _, o in expected):
        return
    doc = SAMI_HEAD + v["eol"].join(parts) + v["eol"] + "</BODY>\n</SAMI>"
    cs = ctx.call(SAMIReader().read, doc)
    got = {l: t for l, t in times_of(cs)}
    # language order is C14's business
    if set(got) != {l for l, _ in expected}:
        raise Mismatch("languages %r, expected %r" % (sorted(got), expected), doc)
    for (l, e), tx in zip(expected, texts):
        if got[l] != e:
            raise Mismatch("%s: captions at %r, the document says %r" % (l, got[l], e), doc, e, got[l])
        g = [c.get_text() for c in cs.get_captions(l)]
        if g != tx:
            raise Mismatch("%s: texts %r, expected %r" % (l, g, tx), doc, tx, g)
        ctx.step(len(e))
        ctx.outcome((l, tuple(e)))


MANY = list(range(1, 34)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]


def sami_many(tier):
    """many paragraphs in one sync, many syncs in a row"""
    for n in MANY:
        for seq in (["E" * n], ["E" * n, "e"], ["E" * n, "E"], ["E", "E" * n, "F"], ["EF" * n], ["EF" * n, "E"], ["F" * n + "E", "F"], ["E", "EF" * n, "f"],
                    ["E"] * n, ["EF"] * n, ["E"] * n + ["F"], ["E"] + ["-"] * n + ["e"], ["E"] + ["e"] * n, ["F"] + ["E"] * n + ["f"], ["EF"] + ["F"] * n + ["E"],
                    ["E"] + ["F"] * n, ["F", "E"] * n, ["e"] * n + ["E"], ["EE"] + ["-"] * n + ["F"] * n + ["E"]):
            for form in (((0, 0, 0, 0, 0), (2, 1, 1, 2, 1)) if tier == "quick" or n > 129 else itertools.product((0, 1, 2), (0,), (0,), (0, 1), (0, 1, 3))):
                yield tuple(seq), form


def sami_cases(n, full):
    forms = list(prod(*SAMI_FORM.values()))
    base = tuple([0] * len(SAMI_FORM))
    for length in range(1, n + 1):
        for s in itertools.product(range(len(SAMI_BLOCKS)), repeat=length):
            for f in (forms if length <= full else [base, forms[len(forms) // 2]] + [base[:-1] + (g,) for g in range(1, len(SAMI_FORM["gap"]))]):
                yield s, f


MD_DIM = dict(fps=[None, "25", "23.976", "30", "29.97"], eol=EOLS, tail=["", "\n", "\n\n"], gap=[0, 1, 2],
              text=["A", "A|b", "|A", "A|", "A||b", "12", "{y:i}x", "{3}{4}"], empty=list(range(16)), emptykind=["", "|", "||"],
              order=["asc", "desc", "same"])


def run_md_struct(desc, ctx):
    from pycaption import MicroDVDReader
    v = dict(zip(MD_DIM, [d[i] for d, i in zip(MD_DIM.values(), desc)]))
    ctx.state(("md-struct", desc))
    fr = [(0, 3), (7, 24), (25, 90001), (2159999, 90000000)]
    if v["order"] == "desc":
        fr = fr[::-1]
    if v["order"] == "same":
        fr = [fr[1]] * 4
    fps = Fraction(v["fps"] or 25)
    lines, exp = [], []
    if v["fps"]:
        lines.append("{0}{0}" + v["fps"])
    for i, (a, b) in enumerate(fr):
        em = v["empty"] >> i & 1
        lines.append("{%d}{%d}%s" % (a, b, v["emptykind"] if em else v["text"]))
        if not em:
            exp.append((int(a / fps * US), int(b / fps * US)))
    if not exp:
        return
    doc = (("\n" * (v["gap"] + 1)).join(lines) + v["tail"]).replace("\n", v["eol"])
    compare(doc, ctx.call(MicroDVDReader().read, doc), [(None, exp)], ctx)


HOURS_Q = list(range(0, 30)) + [47, 48, 59, 60, 72, 99, 100, 101, 119, 120, 239, 240, 255, 256, 277, 596, 597, 998, 999]


def spaces(tier):
    q = tier == "quick"
    H = HOURS_Q if q else list(range(1000))
    hf = [0, 1, 2, 9, 10, 23, 24, 25, 99, 100, 999] if q else HOURS_Q
    nchunks = {d: (len(exprs(d)) + CHUNK - 1) // CHUNK for d in (False, True)}
    k = 2 if q else 3
    sizes = lambda D: [len(x) for x in D.values()]
    return [
        Space("srt-clock-grid", "%d hours x 60 minutes x 60 seconds x 4 ms/duration patterns" % len(H),
              lambda: ((h, p) for h in H for p in range(4)), run_srt_grid),
        Space("vtt-clock-grid", "%d hours x 3600 x 4 patterns, hours field present/absent, strict/lenient" % len(H),
              lambda: ((h, p, a, s) for h in H for p in range(4) for a in ((0, 1) if h == 0 else (0,)) for s in ((0, 1) if h in (0, 24) else (0,))
                       if not (s and p == 3 and False)), run_vtt_grid),
        Space("dfxp-clock-grid", "%d hours x 3600 x 4 patterns" % len(hf),
              lambda: ((h, p, lo) for h in hf for p in range(4) for lo in range(0, 3600, 450)), run_dfxp_grid),
        Space("sami-clock-grid", "%d hours x 3600 x 2 patterns" % len(hf[:8] if q else hf),
              lambda: ((h, p, lo) for h in (hf[:5] + [99] if q else hf) for p in (0, 1) for lo in range(0, 3600, 300)), run_sami_grid),
        Space("microdvd-frames", "%d frame rates x every frame number below %d" % (len(FPS), 40000 if q else 400000),
              lambda: ((f, b) for f in range(len(FPS)) for b in range(20 if q else 200)), run_mdvd),
        Space("fractions", "%d x %d second fractions x 12 instants x {SRT, DFXP}" % (len(FRACS), len(FRACS)),
              lambda: ((f, a, b) for f in (0, 1) for a in range(len(FRACS)) for b in range(len(FRACS))), run_frac),
        Space("all-milliseconds", "1000 milliseconds x 12 instants x 3 formats",
              lambda: ((f, b) for f in range(3) for b in range(len(BASES))), run_all_ms),
        Space("dfxp-time-expressions", "%d time expressions x (end | %d durations)" % (len(exprs(not q)), len(DURS)),
              lambda: ((int(not q), c, m) for c in range(nchunks[not q]) for m in range(1 + len(DURS))), run_dfxp_expr),
        Space("srt-structure", "at most %d of %d structural choices away from the default" % (k + 1, len(SRT_DIM)),
              lambda: devs(sizes(SRT_DIM), k + 1), run_srt_struct),
        Space("vtt-structure", "at most %d of %d structural choices away from the default" % (k + 1, len(VTT_DIM)),
              lambda: devs(sizes(VTT_DIM), k + 1), run_vtt_struct),
        Space("vtt-time-shift", "%d shifts x %d bases x strict/lenient" % (len(SHIFTS), len(SHIFT_BASES)),
              lambda: ((s, b, i) for s in range(len(SHIFTS)) for b in SHIFT_BASES for i in (0, 1)), run_vtt_shift),
        Space("dfxp-structure", "at most %d of %d structural choices away from the default" % (k, len(DFXP_DIM)),
              lambda: devs(sizes(DFXP_DIM), k), run_dfxp_struct),
        Space("sami-sync-sequences", "all sequences of <= %d sync blocks over %d contents x %d forms (all of them for <=2 blocks; 6 of them beyond)" % (3 if q else 4, len(SAMI_BLOCKS), 240),
              lambda: sami_cases(3 if q else 4, 2), run_sami_seq),
        Space("sami-many", "1..33 and 12 larger numbers up to 257 of paragraphs in a sync and of syncs, 19 patterns of two languages, %d forms" % (2 if q else 18),
              lambda: sami_many(tier), run_sami_seq),
        Space("microdvd-structure", "at most %d of %d structural choices away from the default" % (k + 1, len(MD_DIM)),
              lambda: devs(sizes(MD_DIM), k + 1), run_md_struct),
    ]
