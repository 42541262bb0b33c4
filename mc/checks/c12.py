"""C12: percentage layouts survive DFXP write+read at every level, and map to the WebVTT cue settings."""
import itertools
from fractions import Fraction

from mc import refs
from mc.core import Mismatch, Space, devs, prod, seqs

ASSUMPTIONS = [
    "the effective layout of a character is the layout of its text node, else of the style span around it, else of the caption, else of the language",
    "with fit_to_screen the regions are the fitted ones: a missing extent reaches the 90%/95% edges of an origin inside them, an extent that does not fit "
    "only has to stay inside (C13 decides its exact value)",
    "WebVTT: a caption without any layout has no settings (or align:start); a layout without an origin has no edges, so no position and line",
    "WebVTT: text without a layout inside a span that has one is not generated (the statement speaks of the layouts of nodes)",
    "blanks at line ends, blank lines and placeholders (nbsp) inside a cue are not visible characters",
]
US = 1000000
HS = [None, "left", "center", "right", "start", "end"]
VS = [None, "top", "center", "bottom"]
EXT_H = {None: "start", "left": "left", "center": "center", "right": "right", "start": "start", "end": "end"}
EXT_V = {None: "after", "top": "before", "center": "center", "bottom": "after"}


def B():
    from mc import build
    return build


# ------------------------------------------------------------------ layouts as plain data: (origin, extent, padding, alignment)
NOTHING = (None, None, None, None)


def layout(spec):
    """a new Layout object; None for no layout at all"""
    if spec is None:
        return None
    b = B()
    S = lambda v: b.Size(v, b.UnitEnum.PERCENT)
    o, e, p, a = spec
    A = None
    if a is not None:
        A = b.Alignment(a[0] and b.H(a[0]) if a[0] else None, b.V(a[1]) if a[1] else None)
    return b.Layout(origin=o and b.Point(S(o[0]), S(o[1])), extent=e and b.Stretch(S(e[0]), S(e[1])),
                    padding=p and b.Padding(*[S(x) for x in p]), alignment=A)


def Q(x):
    return Fraction(str(x))


def effective(spec, fit):
    """what has to be read back: dict of exact values; extent may be 'any'"""
    o, e, p, a = spec or NOTHING
    o, e, p = o and tuple(map(Q, o)), e and tuple(map(Q, e)), p and tuple(map(Q, p))
    if fit and o is not None:
        if o[0] > 90 or o[1] > 95:
            e = "any"
        elif e is None:
            e = (90 - o[0], 95 - o[1])
        elif o[0] + e[0] > 90 or o[1] + e[1] > 95:
            e = "any"
    a = a or (None, None)
    return {"origin": o, "extent": e, "padding": p, "align": (a[0] or "start", a[1] or "bottom")}


def same(want, got):
    return all(got[k] == want[k] or (k == "extent" and want[k] == "any") for k in want)


def pcts(s, n):
    parts = s.split(" ")
    if len(parts) != n or not all(x.endswith("%") for x in parts):
        raise refs.Bad("%r" % s)
    return tuple(Fraction(x[:-1]) for x in parts)


def of_attrs(at):
    """region attributes -> the effective layout, by TTML rules (padding: before end after start)"""
    o = pcts(at["origin"], 2) if "origin" in at else None
    e = pcts(at["extent"], 2) if "extent" in at else None
    p = None
    if "padding" in at:
        b_, e_, a_, s_ = pcts(at["padding"], 4)
        p = (b_, a_, s_, e_)
    h = at.get("textAlign", "start")
    v = {"before": "top", "center": "center", "after": "bottom"}[at.get("displayAlign", "after")]
    return {"origin": o, "extent": e, "padding": p, "align": (h, v)}


def of_layout(l):
    """pycaption Layout -> the same"""
    if l is None:
        return effective(None, False)

    def num(s):
        if s is None:
            return None
        if s.unit.value != "%":
            raise Mismatch("unit %s" % s.unit, repr(l))
        return Fraction(repr(s.value))
    a = l.alignment
    return {"origin": l.origin and (num(l.origin.x), num(l.origin.y)), "extent": l.extent and (num(l.extent.horizontal), num(l.extent.vertical)),
            "padding": l.padding and tuple(num(getattr(l.padding, k)) for k in ("before", "after", "start", "end")),
            "align": ((a.horizontal.value if a and a.horizontal else "start"), (a.vertical.value if a and a.vertical else "bottom"))}


# ------------------------------------------------------------------ captions as plain data
class C:
    """layout: of the caption; items: ('t', text, spec) | ('b', spec) | ('s', style, spec) | ('e', style, spec)"""

    def __init__(self, layout, items):
        self.layout, self.items = layout, items

    def build(self, i, style=None):
        b = B()
        out = []
        for it in self.items:
            if it[0] == "t":
                out.append(b.CaptionNode.create_text(it[1], layout_info=layout(it[2])))
            elif it[0] == "b":
                out.append(b.CaptionNode.create_break(layout_info=layout(it[1])))
            else:
                out.append(b.CaptionNode.create_style(it[0] == "s", dict(it[1]), layout_info=layout(it[2])))
        return b.Caption((i + 1) * US, (i + 2) * US, out, style=dict(style or {}), layout_info=layout(self.layout))

    def chars(self, lang_layout):
        """[(visible character, spec)]"""
        out = []
        span = None
        for it in self.items:
            if it[0] == "s":
                span = it[2]
            elif it[0] == "e":
                span = None
            elif it[0] == "t":
                out.extend((c, it[2] or span or self.layout or lang_layout) for c in it[1] if not c.isspace())
        return out


def cset(langs):
    """langs: [(lang, layout spec, [C])]"""
    b = B()
    return b.cset({l: [c.build(i) for i, c in enumerate(cs)] for l, _, cs in langs}, list_layouts={l: layout(s) for l, s, _ in langs})


def one(spec):
    return C(spec, [("t", "x", None)])


def visible(chars):
    return [x for x in chars if not x[0].isspace() and x[0] != "\xa0"]


def compare(want, got, fit, doc, what):
    """want: [(char, spec)], got: [(char, effective)]"""
    if [c for c, _ in want] != [c for c, _ in got]:
        raise Mismatch("visible text " + what, doc, "".join(c for c, _ in want), "".join(c for c, _ in got))
    for (c, s), (_, g) in zip(want, got):
        w = effective(s, fit)
        if not same(w, g):
            raise Mismatch("layout of %r %s" % (c, what), doc, show(w), show(g))


def show(d):
    return repr({k: v if v is None or isinstance(v, str) else tuple(float(x) if isinstance(x, Fraction) else x for x in v) for k, v in d.items()})


def check_dfxp(langs, opts, ctx, what):
    b = B()
    fit = opts.get("fit_to_screen", True)
    doc = ctx.call(b.DFXPWriter(**opts).write, cset(langs))
    d = refs.DfxpDoc(doc)
    parsed = d.cues()
    for again in (1, 2):
        # the document itself, by the rules of the format
        if [l for l, _ in parsed] != [l for l, _, _ in langs]:
            raise Mismatch("languages " + what, doc, [l for l, _, _ in langs], [l for l, _ in parsed])
        for (l, cues), (_, ll, cs) in zip(parsed, langs):
            if len(cues) != len(cs):
                raise Mismatch("captions " + what, doc, len(cs), len(cues))
            for q, c in zip(cues, cs):
                got = [(ch, of_attrs(d.region_attrs(rid) or {})) for ch, rid in visible(d.char_regions(q.extra))]
                compare(c.chars(ll), got, fit, doc, "in the document (write %d) %s" % (again, what))
        # read back
        back = ctx.call(b.DFXPReader().read, doc)
        if back.get_languages() != [l for l, _, _ in langs]:
            raise Mismatch("languages read " + what, doc, [l for l, _, _ in langs], back.get_languages())
        for l, ll, cs in langs:
            caps = back.get_captions(l)
            if len(caps) != len(cs):
                raise Mismatch("captions read " + what, doc, len(cs), len(caps))
            for cap, c in zip(caps, cs):
                got = []
                for n in cap.nodes:
                    if n.type_ == b.CaptionNode.TEXT:
                        got.extend((ch, of_layout(n.layout_info or cap.layout_info or back.get_layout_info(l))) for ch in n.content if not ch.isspace())
                compare(c.chars(ll), got, fit, doc, "read back (write %d) %s" % (again, what))
        if again == 1:
            doc = ctx.call(b.DFXPWriter(**opts).write, back)
            d = refs.DfxpDoc(doc)
            parsed = d.cues()
    ctx.outcome(doc)


HUNDREDTH = Fraction(1, 100)


def check_settings(s, spec, fit, doc, what):
    st = refs.vtt_settings(s)
    if set(st) - {"align", "position", "line", "size"}:
        raise Mismatch("settings %r %s" % (s, what), doc)
    if spec is None or spec == NOTHING:
        if st not in ({}, {"align": "start"}):
            raise Mismatch("settings of a caption without a layout " + what, doc, "", s)
        return
    o, e, p, a = spec
    h = EXT_H[a[0] if a else None]
    if st.get("align") != (None if h == "center" else h):
        raise Mismatch("align " + what, doc, None if h == "center" else h, st.get("align"))
    f = effective(spec, fit)
    p = f["padding"] or (0, 0, 0, 0)
    want = {"position": f["origin"][0] + p[2], "line": f["origin"][1] + p[0]} if o else {}
    if f["extent"] is not None and f["extent"] != "any":
        want["size"] = f["extent"][0] - p[2] - p[3]
    for k, v in want.items():
        if k not in st or not st[k].endswith("%"):
            raise Mismatch("no %s in percent %s" % (k, what), doc, float(v), s)
        if abs(Fraction(st[k][:-1]) - v) > HUNDREDTH / 2:
            raise Mismatch("%s %s" % (k, what), doc, float(v), s)
    extra = set(st) - set(want) - {"align"}
    if extra and not (extra == {"size"} and f["extent"] == "any"):
        raise Mismatch("settings out of nowhere %s: %s" % (what, sorted(extra)), doc, sorted(want), s)


def check_vtt(langs, opts, ctx, what):
    b = B()
    fit = opts.get("fit_to_screen", True)
    l, ll, cs = langs[0]
    doc = ctx.call(b.WebVTTWriter(**opts).write, cset(langs))
    cues = refs.parse_vtt(doc)
    k = 0
    for i, c in enumerate(cs):
        want = c.chars(ll)
        mine = []
        while k < len(cues) and cues[k].start == (i + 1) * US:
            if cues[k].end != (i + 2) * US:
                raise Mismatch("times of a cue " + what, doc, ((i + 1) * US, (i + 2) * US), cues[k])
            mine.append(cues[k])
            k += 1
        got = [(ch, q) for q in mine for ch, _ in visible(q.chars)]
        if [x for x, _ in got] != [x for x, _ in want]:
            raise Mismatch("visible text of caption %d %s" % (i, what), doc, "".join(x for x, _ in want), "".join(x for x, _ in got))
        for q in mine:
            specs = {s for (_, g), (_, s) in zip(got, want) if g is q}
            if len(specs) > 1:
                raise Mismatch("text of different layouts in one cue " + what, doc, sorted(map(repr, specs)), q)
            for s in specs:
                check_settings(q.settings, s, fit, doc, what)
    if k != len(cues):
        raise Mismatch("cues out of nowhere " + what, doc, k, len(cues))
    ctx.outcome(doc)


# ------------------------------------------------------------------ the grid of layouts
OR = [None, ("10", "20"), ("20", "10"), ("0", "0"), ("12.5", "0.25"), ("85", "90"), ("95", "50")]
EX = [None, ("30", "40"), ("40", "30"), ("30.75", "5"), ("100", "100")]
PA = [None, ("1", "2", "3", "4"), ("4", "3", "2", "1"), ("0", "0", "0", "0"), ("5", "5", "5", "5"), ("0", "0", "2.5", "0")]
AL = [None] + [(h, v) for h in HS for v in VS]
OPTS = [{}, {"relativize": False}, {"fit_to_screen": False}, {"relativize": False, "fit_to_screen": False},
        {"video_width": 640, "video_height": 360}]


def run_grid(d, ctx):
    """one document per (level, axis): all layouts that differ in that axis (and so in one component) meet in it"""
    wi, lev, axis, oi, i, j, k = d
    specs = []
    if axis == 0:        # every alignment
        if not (i < len(OR) and j < len(EX) and k < len(PA)):
            return
        specs = [(OR[i], EX[j], PA[k], a) for a in AL]
    elif axis == 1:      # every origin and extent
        if not (i < len(PA) and j < 5 and k == 0):
            return
        specs = [(o, e, PA[i], AL[j * 6]) for o in OR for e in EX]
    elif axis == 2:      # every padding and extent
        if not (i < len(OR) and j < 5 and k == 0):
            return
        specs = [(OR[i], e, p, AL[j * 6 + 1 if j < 4 else 2]) for p in PA for e in EX]
    if lev == 0:
        docs = [[("en", None, [one(s) for s in specs])]]
    elif lev == 1:
        docs = [[("en", None, [C(None, [("t", "x", s)]) for s in specs])]]
    elif lev == 2:
        docs = [[("en", None, [C(None, [("s", {"italics": True}, s), ("t", "x", s), ("e", {"italics": True}, s)]) for s in specs])]]
    else:
        docs = [[("en", s, [one(None)]), ("fr", specs[(n + 1) % len(specs)], [one(None)])] for n, s in enumerate(specs)]
        if OPTS[oi].get("fit_to_screen", True) is False and axis == 0 and i % 2:
            docs = docs[::2]
    for langs in docs:
        n = sum(len(cs) for _, _, cs in langs)
        ctx.step(n)
        for l, s, cs in langs:
            for c in cs:
                ctx.state((wi, lev, oi, s, c.layout, tuple(map(repr, c.items))))
        what = "level %s %r" % (["caption", "text", "span", "language"][lev], OPTS[oi])
        (check_dfxp if wi == 0 else check_vtt)(langs, OPTS[oi], ctx, what)


def cases_grid(tier):
    for wi in (0, 1):
        for oi in range(len(OPTS)):
            for lev in range(4):
                deep = tier != "quick" or (oi == 0 and lev == 0)
                for i, j, k in prod(len(OR), len(EX), len(PA)):
                    # the other options and levels: layouts in which at most one of origin, extent and padding is not the second value
                    if deep or sum(x != 1 for x in (i, j, k)) <= (1 if lev < 3 else 0):
                        yield (wi, lev, 0, oi, i, j, k)
                for i in range(len(OR)):
                    for j in range(5):
                        if lev < 3 and (deep or j < 2):
                            yield (wi, lev, 1, oi, i, j, 0)
                            yield (wi, lev, 2, oi, i, j, 0)


# ------------------------------------------------------------------ the levels
T_ = ("10", "20")
NEAR = [None,
        (T_, None, None, None),
        (T_, ("30", "40"), None, None),
        (T_, None, ("1", "2", "3", "4"), None),
        (T_, None, None, ("center", "top")),
        (None, None, None, ("start", "bottom")),          # equal to the DFXP default
        (None, None, None, ("center", None)),
        (None, None, None, (None, "top")),
        (None, None, ("1", "2", "3", "4"), None),
        (None, ("30", "40"), None, ("right", "bottom")),
        (("20", "10"), None, None, None),
        (T_, ("30", "40"), ("1", "2", "3", "4"), ("end", "center")),
        (None, None, None, (None, None))]


def run_levels(d, ctx):
    oi, i, j = d[:3]
    L = NEAR
    langs = [("en", L[i], [C(L[j], [("t", "x", L[k])]) for k in range(len(L))] + [one(L[j])]),
             ("fr", L[j], [one(None), C(L[i], [("t", "y", None)])])]
    ctx.state(d)
    ctx.step(len(L) + 3)
    check_dfxp(langs, OPTS[oi], ctx, "levels %r %r %r" % (L[i], L[j], OPTS[oi]))
    check_vtt(langs, OPTS[oi], ctx, "levels %r %r %r" % (L[i], L[j], OPTS[oi]))
    check_vtt(langs[::-1], OPTS[oi], ctx, "levels %r %r %r" % (L[i], L[j], OPTS[oi]))


# ------------------------------------------------------------------ sequences of nodes
I, N = {"italics": True}, {}
L1, L2 = NEAR[1], NEAR[4]


def segments(writer):
    out = [("t", None), ("t", L1), ("t", L2), ("b", None), ("b", L1)]
    for style in (I, N):
        for ls in (None, L1, L2):
            for body in ((), (None,), (L1,), (L1, "b", L1), (L1, L2), (None, L1), ("b", L1), (L1, "b")):
                if writer == "vtt" and ls is not None and None in body:
                    continue
                if writer == "dfxp" or ls in (None, body[0] if body else None, L1):
                    out.append(("s", style, ls, body))
    return out


FEW = [("t", None), ("t", L1), ("t", L2), ("b", None), ("s", I, None, (None,)), ("s", I, L1, (L1,)), ("s", I, None, (L1,)), ("s", N, L2, (L2,)),
       ("s", N, None, (L2,)), ("s", I, L1, ()), ("s", I, None, (L1, "b", L1)), ("b", L2)]


def items_of(seg):
    """-> items; the text is one letter per text node, given later"""
    if seg[0] == "t":
        return [["t", None, seg[1]]]
    if seg[0] == "b":
        return [["b", seg[1]]]
    _, style, ls, body = seg
    return [["s", style, ls]] + [["b", ls] if x == "b" else ["t", None, x] for x in body] + [["e", style, ls]]


LETTERS = "abcdefghijklmnopqrstuvwxyz"


def caption_of(segs, layout):
    items = [list(x) for s in segs for x in items_of(s)]
    k = 0
    for x in items:
        if x[0] == "t":
            x[1] = LETTERS[k]
            k += 1
    if not k:
        return None
    return C(layout, [tuple(x) for x in items])


CL = [None, L1, NEAR[11]]


def run_nodes(d, ctx):
    wi, ci, li = d[:3]
    writer = ["dfxp", "vtt"][wi]
    al = segments(writer)
    if len(d) == 4:                 # all pairs that start with the segment
        caps = [caption_of((al[d[3]],), CL[ci])] + [caption_of((al[d[3]], x), CL[ci]) for x in al]
    else:
        caps = [caption_of((FEW[d[3]], FEW[d[4]], x), CL[ci]) for x in FEW]
        if len(d) == 6:
            caps = [caption_of((FEW[d[3]], FEW[d[4]], FEW[d[5]], x), CL[ci]) for x in FEW]
    caps = [c for c in caps if c is not None]
    if not caps:
        return
    for c in caps:
        ctx.state((writer, li, c.layout, repr(c.items)))
    ctx.step(sum(len(c.items) for c in caps))
    langs = [("en", [None, NEAR[9]][li], caps)]
    (check_dfxp if wi == 0 else check_vtt)(langs, {}, ctx, "nodes")


def cases_nodes(tier):
    for wi in (0, 1):
        n = len(segments(["dfxp", "vtt"][wi]))
        for ci, li in prod(3, 2):
            for i in range(n):
                yield (wi, ci, li, i)
            for i, j in prod(len(FEW), len(FEW)):
                yield (wi, ci, li, i, j)
                if tier != "quick":
                    for k in range(len(FEW)):
                        yield (wi, ci, li, i, j, k)


# ------------------------------------------------------------------ the WebVTT arithmetic
VX = ["0", "0.01", "5", "10", "33.33", "50.5", "89.99", "90"]
VY = ["0", "0.25", "10", "95"]
VW = [None, "100", "80", "40.04", "20"]
VP = ["0", "0.01", "1", "2.5", "7.77"]


def run_vtt(d, ctx):
    wi, bi, oi = d
    caps = []
    for x, y in itertools.product(VX, VY):
        for ps, pe in itertools.product(VP, VP):
            w = VW[wi]
            if w is None and 90 - Q(x) - Q(ps) - Q(pe) <= 0:
                continue
            caps.append(one(((x, y), w and (w, "5"), (VP[bi], VP[(bi + 1) % 5], ps, pe), None)))
        if bi == 0:
            caps.append(one(((x, y), VW[wi] and (VW[wi], "5"), None, None)))
    for c in caps:
        ctx.state((c.layout, oi))
    ctx.step(len(caps))
    check_vtt([("en", None, caps)], OPTS[oi], ctx, "arithmetic")


# ------------------------------------------------------------------ settings kept from WebVTT to WebVTT
RAW = ["align:left", "align:center", "align:middle", "align:start position:10%", "position:10%,line-left align:left size:35%", "line:0", "line:-1", "line:84.5%,end",
       "vertical:rl", "region:fred", "size:100% align:right", "position:50% position:51%", "align:start  line:5%", "\tline:5%", "line:5%\talign:left", "foo", "foo:bar baz",
       "A:line,start size:0%", "line:101% position:-3%", "align:start position:10.123456% line:20.5%", "\u00e9:1", "d:--x"]


def run_raw(d, ctx):
    oi, text, k = d[:3]
    b = B()
    bodies = ["one\ntwo", "<i>a</i> b", "<v Bob>x"]
    raw = [RAW[i] if i < len(RAW) else None for i in d[3:]]
    doc = "WEBVTT\n\n" + "\n".join("%s00:0%d.000 --> 00:0%d.000%s\n%s\n" % (["", "id\n"][k], i + 1, i + 2, "" if r is None else " " + r, bodies[text]) for i, r in enumerate(raw))
    ctx.state(doc)
    ctx.step(len(raw))
    o = OPTS[oi]
    for n in range(2):
        cs = ctx.call(b.WebVTTReader().read, doc)
        doc = ctx.call(b.WebVTTWriter(**o).write, cs)
        got = []
        for line in doc.split("\n"):
            if "-->" in line:
                got.append(line.split(" --> ")[1].partition(" ")[2])
        want = [(r or "").strip() for r in raw]
        if got != want:
            raise Mismatch("cue settings read from WebVTT are not written back verbatim", doc, want, got)
    ctx.outcome(doc)


# ------------------------------------------------------------------ DFXP documents
RATTR = [("tts:origin", ["10% 20%", "0% 0%"]), ("tts:extent", ["30% 40%"]), ("tts:padding", ["5%", "5% 6%", "5% 6% 7%", "5% 6% 7% 8%"]),
         ("tts:textAlign", ["left", "center", "right", "start", "end"]), ("tts:displayAlign", ["before", "center", "after"])]


def padding_of(s):
    x = s.split()
    b_, e_, a_, s_ = {1: lambda: x * 4, 2: lambda: [x[0], x[1], x[0], x[1]], 3: lambda: [x[0], x[1], x[2], x[1]], 4: lambda: x}[len(x)]()
    return tuple(v[:-1] for v in (b_, a_, s_, e_))


def spec_of(at):
    """chosen attributes -> spec"""
    o = at.get("tts:origin")
    e = at.get("tts:extent")
    p = at.get("tts:padding")
    a = (at.get("tts:textAlign"), {"before": "top", "center": "center", "after": "bottom", None: None}[at.get("tts:displayAlign")])
    two = lambda s: s and tuple(v[:-1] for v in s.split())
    return (two(o), two(e), p and padding_of(p), a)


WAYS = ["inline", "nested", "referenced", "chain", "mixed"]
PLACES = ["div", "p", "span", "p+span", "div+p", "span2"]


def run_docs(d, ctx):
    """a DFXP document -> read -> (write -> read) twice: every character keeps the layout the document gives it"""
    way, place, fit = d[:3]
    at, other = {}, {"tts:origin": "50% 60%", "tts:textAlign": "end"}
    for (k, vals), v in zip(RATTR, d[3:]):
        if v:
            at[k] = vals[v - 1]
    text = lambda m: "".join(' %s="%s"' % kv for kv in m.items())
    inline, nested, referenced, chain = {}, {}, {}, {}
    for i, (k, v) in enumerate(at.items()):
        [inline, nested, referenced, chain, [inline, nested, referenced][i % 3]][way][k] = v
    # values that are overridden by the stronger place
    if WAYS[way] == "nested":
        referenced = {k: o for k, o in (("tts:origin", "70% 70%"), ("tts:textAlign", "right")) if k in nested}
    if WAYS[way] == "inline":
        nested = {k: o for k, o in (("tts:origin", "70% 70%"), ("tts:textAlign", "right")) if k in inline}
    styling = '<style xml:id="rs"%s%s/><style xml:id="rc"%s/>' % (text(referenced), ' style="rc"' if chain else "", text(chain))
    region = '<region xml:id="r1"%s%s>%s</region><region xml:id="r2"%s/>' % (
        text(inline), ' style="rs"' if referenced or chain else "", "<style%s/>" % text(nested) if nested else "", text(other))
    p = PLACES[place]
    dv, pa, body = "", "", "ab<br/>c"
    S, O = spec_of(at), spec_of(other)
    want = [S, S, S]
    if p == "div":
        dv = ' region="r1"'
    elif p == "p":
        pa = ' region="r1"'
    elif p == "span":
        body = '<span region="r1">ab<br/>c</span>'
    elif p == "p+span":
        pa, body = ' region="r1"', 'a<span region="r2">b</span><br/>c'
        want = [S, O, S]
    elif p == "div+p":
        dv, pa = ' region="r2"', ' region="r1"'
    else:
        body = '<span region="r1">a</span><span region="r2">b</span><br/><span region="r1">c</span>'
        want = [S, O, S]
    doc = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><styling>%s</styling><layout>%s</layout></head>'
           '<body><div%s><p begin="1s" end="2s"%s>%s</p><p begin="2s" end="3s">%s</p></div></body></tt>' % (styling, region, dv, pa, body, body if p in ("div", "span", "span2") else "d"))
    ctx.state(doc)
    ctx.step(2)
    b = B()
    opts = {"fit_to_screen": bool(fit)}
    cs = ctx.call(b.DFXPReader().read, doc)
    first = True
    for n in range(3):
        got = [(ch, of_layout(x.layout_info)) for x in cs.get_captions("en")[0].nodes if x.type_ == b.CaptionNode.TEXT for ch in x.content if not ch.isspace()]
        compare(list(zip("abc", want)), got, bool(fit) and n > 0, doc, "read %d (%s, %s)" % (n, WAYS[way], p))
        if n < 2:
            new = ctx.call(b.DFXPWriter(**opts).write, cs)
            if n:
                # the words of the document decide the cue settings too
                v = refs.parse_vtt(ctx.call(b.WebVTTWriter(**opts).write, cs))
                flat = [(ch, q.settings) for q in v for ch, _ in visible(q.chars)][:3]
                for (ch, st), s in zip(flat, want):
                    check_settings(st, s, bool(fit), doc, "of a document")
            doc = new
            cs = ctx.call(b.DFXPReader().read, doc)
    ctx.outcome(doc)


def cases_docs(tier):
    sizes = [1 + len(v) for _, v in RATTR]
    for way, place, fit in prod(len(WAYS), len(PLACES), 2):
        if tier == "quick":
            for v in devs(sizes, 2 if (place, fit) in ((0, 0), (1, 1), (3, 0)) else 1):
                yield (way, place, fit) + v
            yield (way, place, fit, 1, 1, 4, 2, 1)
        else:
            for v in prod(*sizes):
                yield (way, place, fit) + v


# ------------------------------------------------------------------ caption sets of the SAMI reader, and styles with a text-align
ALIGN = [None, "left", "center", "right", "start", "end"]
MARGIN = [None, ("1", "2", "3", "4"), ("4", "3", "2", "1")]      # top right bottom left


def margins(m):
    return "" if m is None else "margin-top:%s%%;margin-right:%s%%;margin-bottom:%s%%;margin-left:%s%%;" % m


def run_sami(d, ctx):
    """P rule, class rule, inline and span text-align; margins of P and the class"""
    pa, ca, ia, sa, pm, cm = d
    b = B()
    rule = lambda sel, a, m, rest="": "%s {%s%s%s}" % (sel, rest, "" if ALIGN[a] is None else "text-align:%s;" % ALIGN[a], margins(MARGIN[m]))
    doc = ('<SAMI><HEAD><STYLE TYPE="text/css"><!-- %s %s .FR {lang:fr;} --></STYLE></HEAD><BODY><SYNC start=1000><P class=EN%s>ab <i>c</i>%s<P class=FR>f</SYNC>'
           '<SYNC start=2000><P class=EN>d<P class=FR>&nbsp;</SYNC><SYNC start=3000><P class=EN>&nbsp;</SYNC></BODY></SAMI>'
           % (rule("P", pa, pm, "color:red;"), rule(".EN", ca, cm, "lang:en;"), "" if not ia else ' style="text-align:%s"' % ALIGN[ia],
              "" if not sa else ' <span style="text-align:%s">e</span>' % ALIGN[sa]))
    ctx.state(doc)
    ctx.step(3)
    cs = ctx.call(b.SAMIReader().read, doc)
    # the effective layouts of the caption set, as plain data
    langs = []
    for l in cs.get_languages():
        caps = []
        for c in cs.get_captions(l):
            caps.append([(ch, n.layout_info or c.layout_info or cs.get_layout_info(l)) for n in c.nodes if n.type_ == b.CaptionNode.TEXT for ch in n.content if not ch.isspace()])
        langs.append((l, caps))
    for opts in OPTS[:2]:
        out = ctx.call(b.DFXPWriter(**opts).write, cs)
        back = ctx.call(b.DFXPReader().read, out)
        D = refs.DfxpDoc(out)
        for (l, caps), (l2, cues) in zip(langs, D.cues()):
            for want, c, q in zip(caps, back.get_captions(l), cues):
                got = [(ch, of_layout(n.layout_info)) for n in c.nodes if n.type_ == b.CaptionNode.TEXT for ch in n.content if not ch.isspace()]
                doc_ = [(ch, of_attrs(D.region_attrs(rid) or {})) for ch, rid in visible(D.char_regions(q.extra))]
                if not [x for x, _ in want] == [x for x, _ in got] == [x for x, _ in doc_]:
                    raise Mismatch("text", doc, want, got)
                for (ch, w), (_, g), (_, r) in zip(want, got, doc_):
                    w = of_layout(w)
                    if r != w:
                        raise Mismatch("region of %r (SAMI)" % ch, doc, show(w), show(r))
                    if g != w:
                        styled = (D.styles.get(q.extra.get("style")) or [{}])[0].get(refs.TTS + "textAlign")
                        known = styled is not None and g["align"][0] == styled != w["align"][0] and dict(g, align=0) == dict(w, align=0) and g["align"][1] == w["align"][1]
                        raise Mismatch("layout of %r read back (SAMI)" % ch, doc, show(w), show(g), key="style-text-align" if known else None)
    v = refs.parse_vtt(ctx.call(b.WebVTTWriter().write, cs))
    for (ch, lay), q in zip([x for caps in langs[0][1] for x in caps[:1]], v):
        st = refs.vtt_settings(q.settings)
        h = of_layout(lay)["align"][0]
        if lay and st.get("align", "center") != h:
            raise Mismatch("align of the cue (SAMI)", doc, h, q.settings)
    ctx.outcome(out)


# ------------------------------------------------------------------ many layouts
def run_sizes(d, ctx):
    """n layouts in one set: one per caption, per text or per span of one caption, or per language"""
    wi, k, n, shift = d
    specs = [((str((i + shift) % 80), str((i + shift) // 80)), None, None, None) for i in range(n)]
    if k == 0:
        langs = [("en", None, [one(s) for s in specs])]
    elif k == 1:
        langs = [("en", None, [C(None, [("t", LETTERS[i % 26], s) for i, s in enumerate(specs)])])]
    elif k == 2:
        langs = [("en", specs[0], [C(specs[-1], sum([[("s", I, s), ("t", LETTERS[i % 26], s), ("e", I, s)] for i, s in enumerate(specs)], []))])]
    elif k == 3:
        langs = [("l%03d" % i, s, [one(None), one(specs[i - 1])]) for i, s in enumerate(specs)]
    else:
        langs = [("en", None, [C(specs[-i], [("t", "x", s), ("b", s), ("t", "y", None)]) for i, s in enumerate(specs)])]
    ctx.state(d)
    ctx.step(n)
    (check_dfxp if wi == 0 else check_vtt)(langs, {}, ctx, "%d layouts" % n)


# ------------------------------------------------------------------ where regions and alignments are inherited from
IPLACES = ["body", "div", "p", "span"]
IWAYS = ["inline", "referenced", "chained"]


def run_inherit(d, ctx):
    """a region on one or two of body/div/p/span and a text-align on one or two of body/div/p/region: the nearest one counts"""
    r1, r2, a1, w1, a2, w2, fit = d
    regions = {k: v for k, v in ((r2, "r2"), (r1, "r1")) if k is not None}
    aligns = {k: v for k, v in ((a2, ("center", w2)), (a1, ("right", w1))) if k is not None}
    styles, attrs = [], {}
    for k in ("body", "div", "p", "region"):
        at = ""
        if k in aligns:
            v, w = aligns[k]
            if IWAYS[w] == "inline":
                at += ' tts:textAlign="%s"' % v
            elif IWAYS[w] == "referenced":
                at += ' style="s%s"' % k
                styles.append('<style xml:id="s%s" tts:textAlign="%s"/>' % (k, v))
            else:
                at += ' style="s%s"' % k
                styles += ['<style xml:id="s%s" style="t%s" tts:color="red"/>' % (k, k), '<style xml:id="t%s" tts:textAlign="%s"/>' % (k, v)]
        attrs[k] = at
    for k, v in regions.items():
        attrs[k] = attrs.get(k, "") + ' region="%s"' % v
    text = "ab<br/>c"
    if "span" in regions:
        text = "<span%s>%s</span>" % (attrs["span"], text)
    doc = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><styling>%s</styling><layout>'
           '<region xml:id="r1" tts:origin="10%% 20%%" tts:displayAlign="before"%s/><region xml:id="r2" tts:origin="30%% 40%%" tts:extent="20%% 20%%"%s/></layout></head>'
           '<body%s><div%s><p begin="1s" end="2s"%s>%s</p></div></body></tt>'
           % ("".join(styles), attrs["region"], attrs["region"], attrs["body"], attrs["div"], attrs["p"], text))
    reg = next((regions[k] for k in ("span", "p", "div", "body") if k in regions), None)
    al = next((aligns[k][0] for k in ("p", "div", "body", "region") if k in aligns and (k != "region" or reg)), None)
    want = {None: (None, None, None, (al, None)), "r1": (("10", "20"), None, None, (al, "top")), "r2": (("30", "40"), ("20", "20"), None, (al, None))}[reg]
    b = B()
    ctx.state(doc)
    ctx.step(2)
    cs = ctx.call(b.DFXPReader().read, doc)
    opts = {"fit_to_screen": bool(fit)}
    for n in range(3):
        got = [(ch, of_layout(x.layout_info)) for x in cs.get_captions("en")[0].nodes if x.type_ == b.CaptionNode.TEXT for ch in x.content if not ch.isspace()]
        compare([(c, want) for c in "abc"], got, bool(fit) and n > 0, doc, "read %d (inheritance)" % n)
        if n < 2:
            doc = ctx.call(b.DFXPWriter(**opts).write, cs)
            cs = ctx.call(b.DFXPReader().read, doc)
    ctx.outcome(doc)


def cases_inherit(tier):
    P, A = [None] + IPLACES, [None, "body", "div", "p", "region"]
    for r1, r2, a1, a2 in itertools.product(P, P, A, A):
        if (r1 == r2 and r1 is not None) or (a1 == a2 and a1 is not None) or (r1 is None and r2 is not None) or (a1 is None and a2 is not None):
            continue
        for w1 in range(3 if a1 else 1):
            for w2 in range(3 if a2 else 1):
                for fit in (0, 1):
                    yield (r1, r2, a1, w1, a2, w2, fit)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("grid", "DFXP write+read twice and WebVTT: %d origins x %d extents x %d paddings x all 25 alignment pairs, at caption/text/span/language level x %d option sets%s"
              % (len(OR), len(EX), len(PA), len(OPTS), " (all of it at caption level with default options, one deviating component elsewhere)" if q else ""),
              lambda: cases_grid(tier), run_grid),
        Space("levels", "language x caption x text layouts from %d nearly equal ones x %d option sets, two languages, both writers" % (len(NEAR), len(OPTS)),
              lambda: prod(len(OPTS), len(NEAR), len(NEAR)), run_levels),
        Space("nodes", "captions of <=2 segments (text, break, span of <=3 nodes; layouts none/L1/L2 on each) and of <=%d from %d of them x 3 caption layouts x 2 language layouts"
              % (3 if q else 4, len(FEW)), lambda: cases_nodes(tier), run_nodes),
        Space("vtt-arithmetic", "%d x %d origins x %d widths x 25 horizontal x 5 vertical paddings x option sets" % (len(VX), len(VY), len(VW)),
              lambda: prod(len(VW), len(VP), len(OPTS)), run_vtt),
        Space("vtt-verbatim", "%d settings strings, alone and in pairs x %d option sets x 3 texts x with/without cue id; two rounds" % (len(RAW), len(OPTS)),
              lambda: ((o, t, k, i, j) for o, t, k in prod(len(OPTS), 3, 2) for i in range(len(RAW) + 1) for j in (range(len(RAW) + 1) if t == 0 else (len(RAW),))), run_raw),
        Space("documents", "DFXP regions: attributes inline/nested/referenced/chained/mixed (overridden values present) x referred to by div/p/span/several x "
              "%s of padding arities, 5 text and 3 display alignments, origin, extent x fit" % ("<=2 deviating" if q else "all combinations"),
              lambda: cases_docs(tier), run_docs),
        Space("many-layouts", "1..16, 33, 65, 101 and 129 %slayouts per set: by caption, text, span, language, mixed; both writers x 2 ranges" % ("" if q else "and 257, 513 "),
              lambda: ((w, k, n, s) for w in (0, 1) for k in range(5) for n in list(range(1, 17)) + [33, 65, 101, 129] + ([] if q else [257, 513]) for s in (0, 75)), run_sizes),
        Space("inheritance", "DFXP documents: a region on none/one/two of body, div, p, span x a text-align on none/one/two of body, div, p, region, inline/referenced/chained x fit; 3 reads",
              lambda: cases_inherit(tier), run_inherit),
        Space("sami", "SAMI documents: text-align of P, class, paragraph and span (none and 5 values each%s) x margins of P and class" % (", <=3 of the 6 features present" if q else ""),
              lambda: devs([6, 6, 6, 6, 3, 3], 3 if q else 6), run_sami),
    ]
