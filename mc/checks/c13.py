"""C13: absolute lengths become exact percentages or a RelativizationError; fit-to-screen keeps the region inside 90%/95%."""
import itertools
import re
from fractions import Fraction

from mc import refs
from mc.core import Mismatch, Space, devs, prod, seqs

ASSUMPTIONS = [
    "two decimals: the written number is within half a hundredth (+1e-9) of the exact value and has at most two decimals",
    "cells need no video dimension; a RelativizationError for them without any dimension is accepted too",
    "a layout that does not reach the output (e.g. of a node in SAMI) may be refused or ignored, but never written as an absolute length",
    "fit-to-screen is judged on percentage layouts (relativized or given as such); a div's own region is not fitted (pinned by "
    "test_dfxp_conversion.py::test_empty_cue), the regions of its text are",
    "paddings leave a positive width",
    "relativize=False: percentage layouts are judged as with relativization; absolute ones only in WebVTT (never written, never fatal)",
]
US = 1000000
UNITS = ["%", "px", "em", "pt", "c"]
AXIS = ["w", "h", "w", "h", "h", "h", "w", "w"]      # origin x,y; extent w,h; padding before, after, start, end
NAMES = ["origin.x", "origin.y", "extent.w", "extent.h", "before", "after", "start", "end"]


def B():
    from mc import build
    return build


def F(x):
    return Fraction(str(x))


def pct(v, unit, axis, dims):
    """exact percentage; None when the dimension that is needed is missing"""
    v = F(v)
    if unit == "%":
        return v
    if unit == "c":
        return v * 100 / (32 if axis == "w" else 15)
    px = {"px": v, "em": v * 16, "pt": v * 4 / 3}[unit]
    d = dims[0 if axis == "w" else 1]
    return None if d is None else px * 100 / F(d)


def layout(spec):
    """spec: 8 x (value, unit) or None per group (origin, extent, padding)"""
    b = B()
    S = lambda c: b.Size.from_string("%s%s" % c)
    o, e, p = spec[0:2], spec[2:4], spec[4:8]
    return b.Layout(origin=None if o[0] is None else b.Point(S(o[0]), S(o[1])),
                    extent=None if e[0] is None else b.Stretch(S(e[0]), S(e[1])),
                    padding=None if p[0] is None else b.Padding(*[S(x) for x in p]))


def exact(spec, dims):
    """[Fraction | None (absent) | 'missing']"""
    out = []
    for c, a in zip(spec, AXIS):
        if c is None:
            out.append(None)
        else:
            x = pct(c[0], c[1], a, dims)
            out.append("missing" if x is None else x)
    return out


def needs(spec, dims):
    return "missing" in exact(spec, dims)


def has_cells(spec):
    return any(c is not None and c[1] == "c" for c in spec)


PCT = re.compile(r"(-?[0-9]+(?:\.[0-9]{1,2})?)%\Z")


def num(s, doc, what):
    m = PCT.match(s)
    if not m:
        raise Mismatch("%s is not a percentage with at most two decimals: %r" % (what, s), doc)
    return Fraction(m.group(1))


def near(written, want, doc, what, tolerance=Fraction(5, 1000)):
    if abs(written - want) > tolerance + Fraction(1, 10 ** 9):
        raise Mismatch("%s is written as %s" % (what, float(written)), doc, float(want), float(written))


def fitted(x, on):
    """the region [ox, oy, w, h] -> what has to be written; ('edge', limit) for 'at most'"""
    ox, oy, w, h = x[:4]
    if not on or ox is None:
        return w, h
    if ox > 90 or oy > 95:
        return "any", "any"
    if w is None:
        return 90 - ox, 95 - oy
    return (w, h) if ox + w <= 90 and oy + h <= 95 else ("any", "any")


def check_region(attrs, spec, dims, fit, doc, what):
    """attributes of a region (or inline attributes) against the layout"""
    x = exact(spec, dims)
    got = {}
    for name, k in (("origin", 2), ("extent", 2), ("padding", 4)):
        if name in attrs:
            parts = attrs[name].split(" ")
            if len(parts) != k:
                raise Mismatch("tts:%s=%r" % (name, attrs[name]), doc)
            got[name] = [num(s, doc, what + " tts:" + name) for s in parts]
    if (x[0] is None) != ("origin" not in got) or (x[4] is None) != ("padding" not in got):
        raise Mismatch("origin/padding of the region " + what, doc, [str(v) for v in x], attrs)
    if x[0] is not None:
        near(got["origin"][0], x[0], doc, what + " origin x")
        near(got["origin"][1], x[1], doc, what + " origin y")
    if x[4] is not None:
        for g, i in zip(got["padding"], (4, 7, 5, 6)):
            near(g, x[i], doc, what + " padding " + NAMES[i])
    w, h = fitted(x, fit)
    if w is None:
        if "extent" in got:
            raise Mismatch("extent out of nowhere " + what, doc, None, attrs)
        return
    if "extent" not in got and w != "any":
        raise Mismatch("extent missing " + what, doc, [str(w), str(h)], attrs)
    if w != "any":
        near(got["extent"][0], w, doc, what + " extent w")
        near(got["extent"][1], h, doc, what + " extent h")
    if fit and x[0] is not None and x[0] <= 90 and x[1] <= 95:
        r, b = got["origin"][0] + got["extent"][0], got["origin"][1] + got["extent"][1]
        if r > 90 or b > 95:
            raise Mismatch("edges of the region " + what, doc, (90, 95), (float(r), float(b)))
        if x[2] is None and (r != 90 or b != 95):
            raise Mismatch("a missing extent must reach exactly the edges " + what, doc, (90, 95), (float(r), float(b)))
        if min(got["extent"]) < 0:
            raise Mismatch("negative extent " + what, doc, None, attrs)


def check_vtt(settings, spec, dims, fit, doc, what):
    x = exact(spec, dims)
    st = refs.vtt_settings(settings)
    w, h = fitted(x, fit)
    pad = [v if v is not None else Fraction(0) for v in x[4:]]
    for k in ("position", "line", "size"):
        if k in st:
            st[k] = num(st[k], doc, what + " " + k)
    if x[0] is not None:
        for k, v in (("position", x[0] + pad[2]), ("line", x[1] + pad[0])):
            if k not in st:
                raise Mismatch("no %s %s" % (k, what), doc, str(v), settings)
            near(st[k], v, doc, what + " " + k)
        if w is not None:
            if "size" not in st and w != "any":
                raise Mismatch("no size " + what, doc, str(w), settings)
            if w != "any":
                # a computed extent ends exactly at the edge for the rounded origin
                near(st["size"], w - pad[2] - pad[3], doc, what + " size", Fraction(1 if x[2] is None and fit else Fraction(1, 2), 100))
            if fit and x[0] <= 90 and x[1] <= 95:
                r = st["position"] + st["size"]
                # three rounded numbers where there was one
                if r > 90 - pad[3] + Fraction(1, 100):
                    raise Mismatch("right edge of the cue " + what, doc, float(90 - pad[3]), float(r))
                if x[2] is None and x[4] is None and r != 90:
                    raise Mismatch("a missing extent must reach exactly the edge " + what, doc, 90, float(r))
    ctx_set = set(st) - {"align", "position", "line", "size"}
    if ctx_set:
        raise Mismatch("settings %r" % settings, doc)


def cset(level, lays):
    """lays: Layout objects; one caption per layout at that level"""
    b = B()
    if level in ("lang", "set"):
        return b.cset({"en": [b.cap(US, 2 * US, ["t0"])]}, layout=lays[0] if level == "set" else None, list_layouts={"en": lays[0]} if level == "lang" else None,
                      styles={"p": {"color": "red"}} if level == "set" else None)
    caps = []
    for i, l in enumerate(lays):
        t = "t%d" % i
        s, e = (i + 1) * US, (i + 2) * US
        if level == "cap":
            caps.append(b.cap(s, e, [t], layout=l))
        else:
            items = [((True, {"italics": True}), l), (t, l), ((False, {"italics": True}), l)]
            caps.append(b.cap(s, e, items, layout=None))
    return b.cset({"en": caps})


SAMI_KEYS = (("margin-top", 4), ("margin-bottom", 5), ("margin-left", 6), ("margin-right", 7))


def examine(writer, cs, specs, dims, fit, ctx, level, what, opts=None, must=None, anywhere=None):
    """write; specs: the layout of the i-th caption"""
    b = B()
    dims_kw = {k: v for k, v in (("video_width", dims[0]), ("video_height", dims[1])) if v is not None}
    w = b.WRITERS[writer](fit_to_screen=fit, **dims_kw, **(opts or {}))
    doc, e = ctx.call_exc(w.write, cs)
    from pycaption.exceptions import RelativizationError
    everything = anywhere if anywhere is not None else specs
    must = specs if must is None else must
    if e is not None:
        if not isinstance(e, RelativizationError):
            raise Mismatch("%s %s raises %s: %s" % (writer, what, type(e).__name__, e), repr(specs), "output or RelativizationError", repr(e))
        if not any(needs(s, dims) or (has_cells(s) and (dims[0] is None or dims[1] is None)) for s in everything):
            raise Mismatch("%s %s refuses although nothing is missing" % (writer, what), repr((specs, dims)), "output", repr(e))
        return "refused"
    bad = [s for s in must if needs(s, dims)]
    if bad:
        raise Mismatch("%s %s: a length that needs a missing dimension is not refused" % (writer, what), repr((specs, dims)), "RelativizationError", doc)
    if writer == "vtt":
        cues = refs.parse_vtt(doc)
        if len(cues) != len(specs):
            raise Mismatch("number of cues", doc, len(specs), len(cues))
        for c, s in zip(cues, specs):
            check_vtt(c.settings, s, dims, fit, doc, what)
    elif writer == "sami":
        d = refs.SamiDoc(doc)
        seen = 0
        for sel, props in d.rule_list():
            for k, v in props.items():
                if k.startswith("margin"):
                    num(v, doc, "%s of %s" % (k, sel))
        for s, c in zip(specs, [p for _, _, p in d.events() if p.text.strip()]):
            x = exact(s, dims)
            if x[4] is None:
                continue
            props = dict(d.rule_list()).get("p", {})
            props = dict(props, **d.class_props(c.lang))
            for k, i in SAMI_KEYS:
                if k not in props:
                    raise Mismatch("no %s for the class %s" % (k, c.lang), doc, str(x[i]), props)
                near(num(props[k], doc, k), x[i], doc, k)
            seen += 1
    else:
        d = refs.DfxpDoc(doc)
        for e in d.root.iter():
            if isinstance(e.tag, str):
                for k in ("origin", "extent", "padding"):
                    v = e.get(refs.TTS + k)
                    for part in (v or "").split():
                        num(part, doc, "tts:%s of %s" % (k, e.tag))
        cues = d.cues()[0][1]
        if len(cues) != len(specs):
            raise Mismatch("number of paragraphs", doc, len(specs), len(cues))
        for c, s in zip(cues, specs):
            for rid in {r for ch, r in d.char_regions(c.extra) if ch.strip()}:
                check_region(d.region_attrs(rid) or {}, s, dims, fit, doc, what)
            if (opts or {}).get("write_inline_positioning"):
                # the inline attributes of the innermost element of the text repeat the region
                el = c.extra
                while len(el) and el[-1].tag == refs.Q + "span":
                    el = el[-1]
                check_region({k[len(refs.TTS):]: v for k, v in el.attrib.items() if k.startswith(refs.TTS)}, s, dims, fit, doc, what + " (inline)")
    return "ok"


# ------------------------------------------------------------------ unit conversion
VALUES = ["0", "1", "2", "3", "5", "7.5", "10", "12.25", "16", "33.333", "0.01", "0.001", "1.005", "64", "99.99", "100", "359", "1920", "11.995", "0.1"]
DIMS = [(640, 360), (1920, 1080), (1280, 720), (7, 13), (1, 1), (853, 480), (640.5, 359.5), (3, 100000)]
MISS = [(None, None), (640, None), (None, 360), (640, 360)]
LEVELS = {"dfxp": ["cap", "node", "lang"], "vtt": ["cap", "node", "lang"], "sami": ["set", "lang"]}
BASE = [("10", "%"), ("20", "%"), ("30", "%"), ("40", "%"), ("1", "%"), ("2", "%"), ("3", "%"), ("4", "%")]


def run_units(d, ctx):
    """one component in one unit, every value (one caption per value), the other components in percent"""
    wi, li, comp, u, di, fill = d
    writer = ["dfxp", "vtt", "sami"][wi]
    if li >= len(LEVELS[writer]) or (writer == "sami" and comp < 4):
        return
    level = LEVELS[writer][li]
    specs = []
    for v in VALUES:
        s = list(BASE)
        s[comp] = (v, UNITS[u])
        if fill == 1:            # only the group of the component is present
            g = 0 if comp < 2 else 1 if comp < 4 else 2
            lo, hi = ((0, 2), (2, 4), (4, 8))[g]
            for i in range(8):
                if not lo <= i < hi:
                    s[i] = None
        specs.append(tuple(s))
    dims = DIMS[di]
    if level in ("lang", "set"):
        specs = specs[di % 3::3] if fill == 0 else specs[1:2]
    groups = [specs] if level in ("cap", "node") else [[s] for s in specs]
    for g in groups:
        ctx.state((writer, level, tuple(g), dims))
        ctx.step(len(g))
        ctx.outcome(tuple(map(str, exact(g[0], dims))))
        ctx.count("refused", examine(writer, cset(level, [layout(s) for s in g]), g, dims, False, ctx, level, "%s %s" % (level, NAMES[comp])) == "refused")


# ------------------------------------------------------------------ the missing dimension
def group_specs(units):
    """every assignment of units to the components, groups possibly absent"""


def run_missing(d, ctx):
    wi, li, mi, us = d[0], d[1], d[2], d[3:]
    writer = ["dfxp", "vtt", "sami"][wi]
    if li >= len(LEVELS[writer]):
        return
    level = LEVELS[writer][li]
    dims = MISS[mi]
    spec = tuple((BASE[i][0], UNITS[u]) if u < 5 else None for i, u in enumerate(us))
    for lo, hi in ((0, 2), (2, 4), (4, 8)):
        if any(s is None for s in spec[lo:hi]) and not all(s is None for s in spec[lo:hi]):
            return
    if not any(spec):
        return
    # SAMI only writes the paddings
    must = [tuple(None if i < 4 else s for i, s in enumerate(spec))] if writer == "sami" else [spec]
    ctx.state((writer, level, spec, dims))
    ctx.step(1)
    r = examine(writer, cset(level, [layout(spec)]), [spec], dims, False, ctx, level, "%s dims=%r" % (level, dims), must=must)
    ctx.outcome((r, dims, us))
    ctx.count("refused", r == "refused")


def cases_missing(tier):
    k = 3 if tier == "quick" else 4
    for wi in range(3):
        for li in range(3):
            for mi in range(4):
                for v in devs([5] * 8, k if li == 0 else 2):
                    yield (wi, li, mi) + v
                # absent groups
                for g in range(1, 7):
                    mask = [g & 1, g & 1, g & 2, g & 2] + [g & 4] * 4
                    for us in itertools.product([0, 1, 2, 4], repeat=3):
                        yield (wi, li, mi) + tuple(5 if m else us[0 if i < 2 else 1 if i < 4 else 2] if i % 2 else 0 for i, m in enumerate(mask))
                        yield (wi, li, mi) + tuple(5 if m else us[0 if i < 2 else 1 if i < 4 else 2] if not i % 2 else 0 for i, m in enumerate(mask))


# ------------------------------------------------------------------ relativize=False
def run_off(d, ctx):
    wi, li, mi, fit, us = d[0], d[1], d[2], bool(d[3]), d[4:]
    writer = ["dfxp", "vtt", "sami"][wi]
    if li >= len(LEVELS[writer]):
        return
    level = LEVELS[writer][li]
    dims = [(None, None), (640, 360)][mi]
    spec = tuple((BASE[i][0], UNITS[u]) if u < 5 else None for i, u in enumerate(us))
    absolute = any(c is not None and c[1] != "%" for c in spec)
    ctx.state((writer, level, spec, dims, fit))
    ctx.step(1)
    cs = cset(level, [layout(spec)])
    if not absolute:
        ctx.outcome(examine(writer, cs, [spec], dims, fit, ctx, level, "relativize=False " + level, opts={"relativize": False}))
        return
    if writer != "vtt":
        return
    kw = {"video_width": dims[0], "video_height": dims[1]} if mi else {}
    w = B().WRITERS["vtt"](relativize=False, fit_to_screen=fit, **kw)
    doc, e = ctx.call_exc(w.write, cs)
    if e is not None:
        raise Mismatch("WebVTT without relativization raises %s" % type(e).__name__, repr(spec), "cues without a position", repr(e))
    cues = refs.parse_vtt(doc)
    if len(cues) != 1:
        raise Mismatch("number of cues", doc, 1, len(cues))
    for c in cues:
        st = refs.vtt_settings(c.settings)
        for k in set(st) - {"align"}:
            num(st[k], doc, k)
    ctx.outcome((absolute, doc))


def cases_off(tier):
    k = 2 if tier == "quick" else 3
    masks = [[g & 1, g & 1, g & 2, g & 2] + [g & 4] * 4 for g in range(1, 7)]
    for wi, li, mi, fit in itertools.product(range(3), range(3), range(2), range(2)):
        head = (wi, li, mi, fit)
        for v in devs([5] * 8, k if wi == 1 else 0):
            yield head + v
        for m in masks:
            present = [i for i in range(8) if not m[i]]
            for v in devs([5] * len(present), k if wi == 1 else 0):
                us = [5] * 8
                for i, u in zip(present, v):
                    us[i] = u
                yield head + tuple(us)


# ------------------------------------------------------------------ fit to screen
FX = ["0%", "10%", "33.333%", "45.678%", "64px", "89.99%", "90%", "0.005%", "12.125%", "89.996%", "90.01%", "2c", "12pt"]
FY = ["0%", "5%", "66.666%", "90%", "94.99%", "95%", "36px", "94.996%", "0.375%", "95.01%", "14c"]
FW = [None, "0%", "10%", "44.322%", "80%", "80.01%", "90%", "56.667%", "100%", "64px", "200%", "79.995%", "0.01%"]
FH = ["0%", "5%", "90%", "95%", "28.334%", "95.01%", "100%", "5.01%", "36px", "300%", "94.625%"]
FP = [None, ("1%", "2%", "3%", "4%"), ("1px", "1px", "2px", "3px")]


def split(s):
    m = re.match(r"([0-9.]+)(.*)\Z", s)
    return m.group(1), m.group(2)


def run_fit(d, ctx):
    wi, li, x, w, p = d[:5]
    writer = ["dfxp", "vtt", "inline"][wi % 3]
    level = LEVELS["dfxp"][li]
    off = wi > 2         # relativize=False and no dimension at all: percentages are fitted all the same
    dims = (None, None) if off else (640, 360)
    specs = []
    for y in FY:
        for h in (FH if w else [None]):
            s = [split(FX[x]), split(y)] + ([split(FW[w]), split(h)] if w else [None, None]) + ([split(q) for q in FP[p]] if FP[p] else [None] * 4)
            specs.append(tuple(s))
    if off:
        specs = [s for s in specs if all(c is None or c[1] == "%" for c in s)]
    if p:
        specs = [s for s in specs if all(v != "missing" for v in exact(s, dims)) and positive(s, dims)]
    if level == "lang":
        specs = specs[::7] if len(specs) > 7 else specs
    if not specs:
        return
    opts = {"write_inline_positioning": True} if writer == "inline" else {}
    if off:
        opts["relativize"] = False
    for g in ([specs] if level != "lang" else [[s] for s in specs]):
        ctx.state((writer, level, tuple(g)))
        ctx.step(len(g))
        ctx.outcome(tuple(str(fitted(exact(s, dims), True)) for s in g))
        examine("dfxp" if writer == "inline" else writer, cset(level, [layout(s) for s in g]), g, dims, True, ctx, level, level, opts)


def positive(s, dims):
    x = exact(s, dims)
    w = fitted(x, True)[0]
    if w == "any":
        w = 90 - x[0]
    return w is None or w - x[6] - x[7] > 0


# ------------------------------------------------------------------ several levels at once, options
LAY = [None,
       (("10", "%"), ("20", "%"), ("30", "%"), ("40", "%"), None, None, None, None),
       (("64", "px"), ("20", "%"), ("30", "%"), ("40", "%"), None, None, None, None),
       (("10", "%"), ("36", "px"), None, None, None, None, None, None),
       (None, None, None, None, ("1", "c"), ("1", "em"), ("3", "%"), ("4", "pt")),
       (("5", "%"), ("5", "%"), ("3", "c"), ("2", "em"), None, None, None, None)]


def run_levels(d, ctx):
    """language, caption and node layouts together; every writer; relativize on and off"""
    wi, mi, rel, fit, a, b_, c = d
    writer, inline = [("dfxp", False), ("dfxp", True), ("vtt", False), ("sami", False), ("single", False)][wi]
    lang, cap, node = LAY[a], LAY[b_], LAY[c]
    dims = MISS[mi]
    b = B()
    L = lambda s: layout(s) if s else None
    I = {"italics": True}
    caption = b.cap(US, 2 * US, [("p", L(cap)), ((True, I), L(node)), ("q", L(node)), ((False, I), L(node))], layout=L(cap))
    cs = b.cset({"en": [caption]}, list_layouts={"en": L(lang)})
    kw = {k: v for k, v in (("video_width", dims[0]), ("video_height", dims[1])) if v is not None}
    if inline:
        kw["write_inline_positioning"] = True
    if writer == "single":
        kw["default_positioning"] = layout(node) if node else b.Layout(origin=b.Point(b.Size.from_string("1px"), b.Size.from_string("2%")))
    w = b.WRITERS[writer](relativize=bool(rel), fit_to_screen=bool(fit), **kw)
    from pycaption.exceptions import RelativizationError
    ctx.state(d)
    ctx.step(3)
    doc, e = ctx.call_exc(w.write, cs)
    used = [s for s in (lang, cap, node) if s]
    absolute = any(c_ is not None and c_[1] != "%" for s in used for c_ in s)
    if not rel:
        # not judged beyond: WebVTT never carries a non-percentage length and ignores absolute layouts
        if writer == "vtt":
            if e is not None:
                raise Mismatch("WebVTT without relativization raises %r" % e, repr(used))
            for cue in refs.parse_vtt(doc):
                st = refs.vtt_settings(cue.settings)
                for k in set(st) - {"align"}:
                    num(st[k], doc, k)
        elif e is not None and not absolute:
            raise Mismatch("%s raises %r for percentages only" % (writer, e), repr(used))
        return
    if e is not None:
        if not isinstance(e, RelativizationError):
            raise Mismatch("%s raises %r" % (writer, e), repr(used))
        single = [(("1", "px"), ("2", "%"), None, None, None, None, None, None)] if writer == "single" and not node else []
        if not any(needs(s, dims) or (has_cells(s) and None in dims) for s in used + single):
            raise Mismatch("%s refuses although nothing is missing" % writer, repr((used, dims)), "output", repr(e))
        ctx.count("refused")
        return
    if writer == "vtt":
        cues = refs.parse_vtt(doc)
        want = [cap or lang, node or cap or lang]
        # text without a layout of its own inherits; equal layouts share a cue
        for s in want:
            if s and needs(s, dims):
                raise Mismatch("vtt: not refused", repr((used, dims)), "RelativizationError", doc)
        got = {ch: c_.settings for c_ in cues for ch in c_.text.strip()}
        for ch, s in zip("pq", want):
            if ch not in got:
                raise Mismatch("text %r lost" % ch, doc)
            if s:
                check_vtt(got[ch], s, dims, bool(fit), doc, "text " + ch)
    elif writer in ("dfxp", "single"):
        dd = refs.DfxpDoc(doc)
        for el in dd.root.iter():
            if isinstance(el.tag, str):
                for k in ("origin", "extent", "padding"):
                    for part in (el.get(refs.TTS + k) or "").split():
                        num(part, doc, "tts:" + k)
        p = dd.cues()[0][1][0].extra
        if writer == "single":
            s = node or (("1", "px"), ("2", "%"), None, None, None, None, None, None)
            want = {"p": s, "q": s}
        else:
            want = {"p": cap or lang, "q": node or cap or lang}
        for ch, rid in dd.char_regions(p):
            s = want.get(ch)
            if s:
                if needs(s, dims):
                    raise Mismatch("%s: not refused" % writer, repr((used, dims)), "RelativizationError", doc)
                check_region(dd.region_attrs(rid) or {}, s, dims, bool(fit), doc, "text " + ch)
        if writer == "dfxp" and lang and needs(lang, dims):
            raise Mismatch("dfxp: the language's layout is not refused", repr((used, dims)), "RelativizationError", doc)
    else:
        dd = refs.SamiDoc(doc)
        for sel, props in dd.rule_list():
            for k, v in props.items():
                if k.startswith("margin"):
                    num(v, doc, k)
        if lang and lang[4] and needs(lang, dims):
            raise Mismatch("sami: not refused", repr((used, dims)), "RelativizationError", doc)
    ctx.outcome(doc)


# ------------------------------------------------------------------ from documents
PART = ["%s%s" % (v, u) for u in UNITS for v in ("3", "12.5")]


def run_docs(d, ctx):
    """lengths spelled in a DFXP/SAMI document, read, and written by every writer"""
    kind, a, c, mi, wi = d
    A, C = PART[a], PART[c]
    dims = MISS[mi]
    b = B()
    if kind == 0:
        spec = (split(A), split(C), None, None, None, None, None, None)
        at = 'tts:origin="%s %s"' % (A, C)
    elif kind == 1:
        spec = (None, None, split(A), split(C), None, None, None, None)
        at = 'tts:extent="%s %s"' % (A, C)
    elif kind == 2:
        spec = (None, None, None, None, split(A), split(A), split(C), split(C))
        at = 'tts:padding="%s %s"' % (A, C)
    if kind < 3:
        doc = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><layout><region xml:id="r" %s/></layout></head>'
               '<body><div><p begin="1s" end="2s" region="r">x</p></div></body></tt>' % at)
        r = "dfxp"
    else:
        sel = [".ENCC", "P"][kind - 3]
        doc = ('<SAMI><HEAD><STYLE TYPE="text/css"><!-- %s {%s margin-left: %s; margin-top: %s;} %s --></STYLE></HEAD><BODY><SYNC start=1000><P class=ENCC>x</SYNC></BODY></SAMI>'
               % (sel, "lang: en;" if kind == 3 else "", A, C, "" if kind == 3 else ".ENCC {lang: en;}"))
        spec = (None, None, None, None, split(C), ("0", "%"), split(A), ("0", "%"))
        r = "sami"
    cs = ctx.call(b.READERS[r]().read, doc)
    ctx.state((doc, dims, wi))
    ctx.step(1)
    writer = ["dfxp", "vtt", "sami"][wi]
    must = [tuple(None if i < 4 else s for i, s in enumerate(spec))] if writer == "sami" else [spec]
    if writer == "sami" and kind < 3:
        must, spec = [], (None,) * 8      # a caption's or node's padding is not written
    anywhere = [(split(A), split(C)) + (None,) * 6, (split(C), split(A)) + (None,) * 6]
    ctx.outcome((examine(writer, cs, [spec], dims, False, ctx, "doc", "read from " + r, must=must, anywhere=anywhere), mi, wi, kind))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("units", "writers dfxp/vtt/sami x levels x 8 components x 5 units x %d values x %d video sizes x others present or absent" % (len(VALUES), len(DIMS)),
              lambda: prod(3, 3, 8, 5, len(DIMS), 2), run_units),
        Space("missing-dimension", "writers x levels x {none, width, height, both} x unit assignments differing from all-percent in <=%d of 8 components, and absent groups" % (3 if q else 4),
              lambda: cases_missing(tier), run_missing),
        Space("fit", "(relativize on | off: percentages only) x dfxp/vtt/inline x levels x %d x %d origins x (no extent | %d x %d extents) x %d paddings" % (len(FX), len(FY), len(FW) - 1, len(FH), len(FP)),
              lambda: prod(6, 3, len(FX), len(FW), len(FP)), run_fit),
        Space("relativize-off", "relativize=False: vtt/dfxp/sami x levels x {no dimension, both} x fit x unit assignments differing from all-percent in <=%d of 8 components (vtt: "
              "absolute layouts are dropped, never written, never fatal), and absent groups" % (2 if q else 3), lambda: cases_off(tier), run_off),
        Space("levels", "language x caption x node layouts (6 each) x dimensions x relativize x fit x 5 writers", lambda: prod(5, 4, 2, 2, 6, 6, 6), run_levels),
        Space("documents", "DFXP regions (origin, extent, padding) and SAMI margins (class, P) x 10 x 10 lengths x dimensions x writers", lambda: prod(5, 10, 10, 4, 3), run_docs),
    ]
