"""C14: every language's cues stay under their language; order of first appearance; SAMI sync blocks in time order."""
import itertools
import re

from mc import iso, outs, refs
from mc.core import Mismatch, Space, prod, seqs

ASSUMPTIONS = [
    "in SAMI, language names differ in more than letter case (class names are case-insensitive) and are none of the element names p, sync, span",
    "the end of the last cue of a language is not carried by SAMI; ends of the other cues are compared in milliseconds",
    "languages without any cue need not be listed by SAMI output (there is no paragraph to carry them)",
    "a nested DFXP div without xml:lang is only judged where the enclosing div has none either",
]
US = 1000000
LANGS = ["en", "fr", "de", "es"]
TT = '<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"%s><head><styling/><layout/></head><body>%s</body></tt>'


def B():
    from mc import build
    return build


def view(cs):
    """[(lang, [(start, text)])]"""
    b = B()
    return [(l, [(c.start, b.node_text(c.nodes)) for c in cs.get_captions(l)]) for l in cs.get_languages()]


def same(what, doc, want, got):
    if want != got:
        raise Mismatch(what, doc, want, got)


# ------------------------------------------------------------------ DFXP documents
DL = [None, "en", "fr", "en-US"]
TTL = [None, "de", "fr"]


class Gen:
    """numbers the paragraphs in document order and files each under its language"""

    def __init__(self, ttlang, default="und"):
        self.n, self.model, self.dflt = 0, {}, ttlang or default

    def lang(self, l):
        l = l or self.dflt
        self.model.setdefault(l, [])
        return l

    def p(self, l, blank=False):
        self.n += 1
        if not blank:
            self.model[l].append((self.n * US, "t%d" % self.n))
        return '<p begin="%ds" end="%ds">%s</p>' % (self.n, self.n + 1, "" if blank else "t%d" % self.n)


def div_open(l):
    return "<div>" if l is None else '<div xml:lang="%s">' % l


def dfxp_doc(ttlang, divs, counts, blanks=False, default="und"):
    g = Gen(ttlang, default)
    body = ""
    for l, n in zip(divs, counts):
        ll = g.lang(l)
        body += div_open(l) + "".join(g.p(ll, blanks and i == 1) for i in range(n)) + "</div>"
    return TT % ("" if ttlang is None else ' xml:lang="%s"' % ttlang, body), list(g.model.items())


COUNTS = [(1, 1, 1, 1), (2, 1, 2, 1), (0, 1, 0, 2), (3, 0, 1, 0)]


def run_dfxp(d, ctx):
    divs, t, c = d[:-2], d[-2], d[-1]
    doc, want = dfxp_doc(TTL[t], [DL[x] for x in divs], COUNTS[c], blanks=c == 3)
    ctx.state(doc)
    ctx.step(len(divs))
    if not any(v for _, v in want):
        return
    cs = ctx.call(B().DFXPReader().read, doc)
    same("languages of a DFXP document", doc, want, view(cs))
    ctx.outcome(tuple(l for l, _ in want))


def cases_dfxp(tier):
    for divs in seqs(4, 1, 4 if tier == "quick" else 5):
        for t in range(3):
            for c in range(4):
                yield divs + (t, min(c, 3))


def run_nested(d, ctx):
    """outer div with an inner div before/between/after its own paragraphs, then another outer div"""
    o, i, pos, z, t, depth = d
    outer, inner, third = DL[o], DL[i], DL[z]
    if inner is None and outer is not None:
        return
    g = Gen(TTL[t])
    lo = g.lang(outer)

    def nested(k):
        # languages are filed when the div is opened
        li = g.lang(inner)
        s = div_open(inner) + g.p(li)
        if k > 1:
            s += nested(k - 1)
        return s + g.p(li) + "</div>"

    parts = [lambda: g.p(lo), lambda: g.p(lo)]
    parts.insert(pos, lambda: nested(depth))
    body = div_open(outer) + "".join(f() for f in parts) + "</div>"
    # an inner div comes after its enclosing div in document order, its paragraphs may come first
    lt = g.lang(third)
    body += div_open(third) + g.p(lt) + "</div>"
    doc = TT % ("" if TTL[t] is None else ' xml:lang="%s"' % TTL[t], body)
    ctx.state(doc)
    ctx.step(3 + depth)
    cs = ctx.call(B().DFXPReader().read, doc)
    # within one language the order of paragraphs of nested divs is not judged, except that none is lost, moved or doubled
    want = [(l, sorted(v)) for l, v in g.model.items()]
    same("languages of nested DFXP divs", doc, want, [(l, sorted(v)) for l, v in view(cs)])
    ctx.outcome(tuple(l for l, _ in want))


# ------------------------------------------------------------------ SAMI documents
SAMI_HEAD = '<SAMI><HEAD><TITLE>x</TITLE><STYLE TYPE="text/css"><!-- P {color: red;} .ENCC {Name: English; lang: en-US; SAMI_Type: CC;} .FRCC {lang: fr-CA;} .DECC {lang: de;} --></STYLE></HEAD><BODY>'
CLASSES = [("ENCC", "en-US", "en"), ("FRCC", "fr-CA", "fr"), ("DECC", "de", "de")]


def blocks(n):
    """every ordered selection of languages, each with text or blank"""
    out = []
    for k in range(n + 1):
        for sel in itertools.permutations(range(n), k):
            for blank in itertools.product((0, 1), repeat=k):
                out.append(tuple(zip(sel, blank)))
    return out


BLOCKS = {2: blocks(2), 3: blocks(3)}
MODES = ["class", "unclosed", "lang", "lower", "unclosed-p", "mixed"]


def sami_doc(seq, blks, mode):
    model = {}
    s = SAMI_HEAD
    if mode == "lang":
        s = "<SAMI><BODY>"
    n = 0
    for i, b in enumerate(seq):
        s += ("<sync Start=%d>" if mode == "lower" else '<SYNC Start="%d">') % (i * 1000)
        for k, blank in blks[b]:
            n += 1
            c, name, short = CLASSES[k]
            attr = {"lang": 'lang="%s"' % short, "lower": "class=" + c.lower(),
                    "mixed": 'id=src class="%s" style="color:blue"' % c}.get(mode, "Class=" + c)
            lang = short if mode == "lang" else name
            model.setdefault(lang, [])
            if not blank:
                model[lang].append((i * 1000 * 1000, "t%d" % n))
            s += "<P %s>%s" % (attr, "&nbsp;" if blank else "t%d" % n)
            if mode not in ("unclosed", "unclosed-p"):
                s += "</P>"
        if mode != "unclosed":
            s += "</SYNC>"
    return s + "</BODY></SAMI>", list(model.items())


def run_sami(d, ctx):
    n, mode, seq = d[0], MODES[d[1]], d[2:]
    doc, want = sami_doc(seq, BLOCKS[n], mode)
    if not any(v for _, v in want):
        return
    ctx.state(doc)
    ctx.step(len(seq))
    cs = ctx.call(B().SAMIReader().read, doc)
    same("languages of a SAMI document", doc, want, view(cs))
    ctx.outcome(tuple(l for l, _ in want))


def cases_sami(tier):
    for m in range(len(MODES)):
        for seq in seqs(BLOCKS[2], 1, 3):
            yield (2, m) + seq
    for m in range(len(MODES)) if tier != "quick" else (0, 1):
        for seq in seqs(BLOCKS[3], 1, 2):
            yield (3, m) + seq


LA = ["pt-BR", "pt-PT", "en", "en-GB", "zh", "x"]


def run_langattr(d, ctx):
    """lang attributes on the paragraphs, of any length"""
    names = [LA[x] for x in d]
    s = "<SAMI><BODY>"
    model = {}
    for i, l in enumerate(names):
        model.setdefault(l, []).append((i * US, "t%d" % i))
        s += '<SYNC start=%d><P lang="%s">t%d</P></SYNC>' % (i * 1000, l, i)
    s += "</BODY></SAMI>"
    ctx.state(s)
    ctx.step(len(d))
    got = view(ctx.call(B().SAMIReader().read, s))
    if got != list(model.items()):
        cut = {}
        for i, l in enumerate(names):
            cut.setdefault(l[:2], []).append((i * US, "t%d" % i))
        known = got == list(cut.items()) and any(len(l) > 2 for l in names)
        raise Mismatch("lang attribute of SAMI paragraphs", s, list(model.items()), got, key="sami-lang-attribute-truncated" if known else None)
    ctx.outcome(tuple(names))


# ------------------------------------------------------------------ caption sets
def interval_lists(points, hi, zero=False):
    """every sorted list of at most hi non-overlapping intervals between the points"""
    out = [()]
    last = [((), 0)]
    for _ in range(hi):
        nxt = []
        for iv, lo in last:
            for a in range(lo, len(points)):
                for e in range(a if zero else a + 1, len(points)):
                    nxt.append((iv + ((a, e),), e))
        out += [x for x, _ in nxt]
        last = nxt
    return out


def make(points, lists, langs=LANGS, styles=None, style_of=None):
    b = B()
    return b.cset({l: [b.cap(points[a], points[e], "%s%d" % (l, i), style=style_of(l, i) if style_of else None) for i, (a, e) in enumerate(iv)]
                   for l, iv in zip(langs, lists)}, styles=styles)


def check_sami(cs, want, ctx, what, exact_end=True):
    """want: [(lang, [(start us, end us, text)])] -> the written document's read-back languages"""
    b = B()
    doc = ctx.call(b.SAMIWriter().write, cs)
    d = refs.SamiDoc(doc)
    ms = [int(s) for s, _ in d.syncs]
    if ms != sorted(ms):
        raise Mismatch("sync blocks out of order " + what, doc, sorted(ms), ms)
    got = {}
    last_blank = {}
    order = []
    for t, c, p in d.events():
        lang = d.class_lang(c or "")
        if lang is None:
            raise Mismatch("paragraph of class %r without a language %s" % (c, what), doc)
        if lang not in order:
            order.append(lang)
        evs = got.setdefault(lang, [])
        if evs and evs[-1][1] is None:
            evs[-1][1] = t
        if p.text.strip("\xa0 \n"):
            evs.append([t, None, p.text.strip()])
    model = {l: [[s // 1000, e // 1000, x] for s, e, x in v] for l, v in want if v}
    for v in list(model.values()):
        for i, x in enumerate(v):
            if i + 1 == len(v):
                x[1] = None
    for v in got.values():
        if v and exact_end:
            v[-1][1] = None
    if not exact_end:
        model = {l: [[s, x] for s, _, x in v] for l, v in model.items()}
        got = {l: [[s, x] for s, _, x in v] for l, v in got.items()}
    if model != got:
        raise Mismatch("paragraphs of the SAMI document " + what, doc, model, got)
    back = ctx.call(b.SAMIReader().read, doc)
    if back.get_languages() != order:
        raise Mismatch("languages read back from SAMI " + what, doc, order, back.get_languages())
    m2 = {l: [(s // 1000 * 1000, x) for s, _, x in v] for l, v in want if v}
    g2 = {l: v for l, v in view(back)}
    if m2 != g2:
        raise Mismatch("cues read back from SAMI " + what, doc, m2, g2)
    return back


def check_dfxp(cs, want, ctx, what, writer="dfxp", force=None):
    b = B()
    w = b.WRITERS[writer]()
    doc = ctx.call(w.write, cs, **({} if force is None else {"force": force}))
    d = refs.DfxpDoc(doc)
    if force and force in [l for l, _ in want]:
        want = [(l, v) for l, v in want if l == force]
        if writer != "legacy" and d.lang != force:
            raise Mismatch("xml:lang of the forced document", doc, force, d.lang)
    want = [(l, [(s // 1000 * 1000, e // 1000 * 1000, x) for s, e, x in v]) for l, v in want]
    got = [(l, [(c.start, c.end, c.text.strip()) for c in v]) for l, v in d.cues()]
    if want != got:
        raise Mismatch("divs of the DFXP document " + what, doc, want, got)
    if any(v for _, v in want):
        back = ctx.call(b.DFXPReader().read, doc)
        same("languages read back from DFXP " + what, doc, [(l, [(s, x) for s, _, x in v]) for l, v in want], view(back))
        return back


def want_of(points, lists, langs=LANGS):
    return [(l, [(points[a], points[e], "%s%d" % (l, i)) for i, (a, e) in enumerate(iv)]) for l, iv in zip(langs, lists)]


GRIDS = {
    "s": [k * US for k in range(6)],
    "s5": [k * US for k in range(5)],
    "s4": [k * US for k in range(4)],
    "s3": [k * US for k in range(3)],
    "us": [US, US + 400, US + 900, US + 1000, US + 1999, 3 * US],
    "big": [0, 9 * US, 10 * US, 99999000, 100000000, 3600 * US],
}
_IV = {}


def ivs(grid, hi, zero=False):
    k = (grid, hi, zero)
    if k not in _IV:
        _IV[k] = interval_lists(GRIDS[grid], hi, zero)
    return _IV[k]


def run_sets(d, ctx):
    grid, hi, zero, idx = d[0], d[1], d[2], d[3:]
    pts = GRIDS[grid]
    lists = [ivs(grid, hi, bool(zero))[i] for i in idx]
    want = want_of(pts, lists)
    if not any(lists):
        return
    ctx.state((grid, tuple(lists)))
    ctx.step(sum(map(len, lists)))
    exact = grid != "us" and not zero
    back = check_sami(make(pts, lists), want, ctx, "", exact)
    if grid in ("s4", "s3"):
        check_dfxp(make(pts, lists), want, ctx, "")
        # DFXP -> SAMI -> DFXP -> SAMI
        if grid == "s3":
            chain(make(pts, lists), want, ctx)
    ctx.outcome(tuple(back.get_languages()))


def chain(cs, want, ctx):
    b = B()
    m = {l: [(s, x) for s, _, x in v] for l, v in want if v}
    x = cs
    for hop in ("dfxp", "sami", "dfxp", "sami", "sami", "dfxp"):
        doc = ctx.call(b.WRITERS[hop]().write, x)
        x = ctx.call(b.READERS[hop]().read, doc)
        g = {l: v for l, v in view(x) if v}
        if g != m:
            raise Mismatch("after the hop through " + hop, doc, m, g)


def cases_sets(tier):
    two = len(ivs("s", 3))
    for i in itertools.product(range(two), repeat=2):
        yield ("s", 3, 0) + i
    n = len(ivs("us", 2, True))
    for i in itertools.product(range(n), repeat=2):
        yield ("us", 2, 1) + i
    n = len(ivs("big", 2))
    for i in itertools.product(range(n), repeat=2):
        yield ("big", 2, 0) + i
    n = len(ivs("s4", 2))
    for i in itertools.product(range(n), repeat=3):
        yield ("s4", 2, 0) + i
    n = len(ivs("s3", 2))
    for i in itertools.product(range(n), repeat=4):
        yield ("s3", 2, 0) + i
    if tier != "quick":
        n = len(ivs("s5", 2))
        for i in itertools.product(range(n), repeat=3):
            yield ("s5", 2, 0) + i
        n = len(ivs("s4", 2))
        for i in itertools.product(range(n), repeat=4):
            yield ("s4", 2, 0) + i


# ------------------------------------------------------------------ language names
LNAMES = ["en", "EN", "en-US", "en-GB", "en-us", "en_US", "eng", "e", "n", "fr", "fren", "x-en", "zh-Hans-CN", "zh-Hant", "i-default", "und", "br", "xx.y", "lang", "1a"]
SAMI_LNAMES = [l for l in LNAMES if re.match(r"[A-Za-z][A-Za-z0-9-]*\Z", l)]
LLISTS = [[((0, 1), (2, 3)), ((0, 1), (1, 3))], [((1, 2), (2, 3)), ((0, 2),)], [((0, 3),), ((0, 1), (1, 2), (2, 3))]]


def run_names(d, ctx):
    """two languages of any two names, one a prefix, a suffix or another casing of the other"""
    i, j, k = d
    if i == j:
        return
    langs = [LNAMES[i], LNAMES[j]]
    pts = GRIDS["s4"]
    want = want_of(pts, LLISTS[k], langs)
    ctx.state(d)
    ctx.step(2)
    mk = lambda: make(pts, LLISTS[k], langs)
    check_dfxp(mk(), want, ctx, "(languages %r)" % langs)
    for w in ("dfxp", "single", "legacy"):
        for f in langs:
            check_dfxp(mk(), want, ctx, "force=%r of %r" % (f, langs), w, f)
    for f in langs:
        doc = ctx.call(B().WebVTTWriter().write, mk(), lang=f)
        same("WebVTT lang=%r of %r" % (f, langs), doc, dict(want)[f], [(c.start, c.end, c.text) for c in refs.parse_vtt(doc)])
    if all(l in SAMI_LNAMES for l in langs) and langs[0].lower() != langs[1].lower():
        check_sami(mk(), want, ctx, "(languages %r)" % langs)
    ctx.outcome(tuple(langs))


# ------------------------------------------------------------------ long documents
def run_long(d, ctx):
    """n cues of one language and a second language shifted against it"""
    ni, pat, swap = d
    n = [12, 101, 600][ni]
    step = 4 * US
    one = [(i * step, i * step + 3 * US) for i in range(n)]
    two = {0: [(s + US, e + US) for s, e in one], 1: one[::3], 2: [(s, e + US) for s, e in one], 3: [((n - 1) * step + US, n * step)],
           4: [(s + 3 * US, s + 4 * US) for s, e in one]}[pat]
    names = ["en", "fr"]
    lists = [one, two]
    if swap:
        lists.reverse()
    want = [(l, [(s, e, "%s%d" % (l, i)) for i, (s, e) in enumerate(v)]) for l, v in zip(names, lists)]
    b = B()
    mk = lambda: b.cset({l: [b.cap(s, e, x) for s, e, x in v] for l, v in want})
    ctx.state(d)
    ctx.step(n)
    check_sami(mk(), want, ctx, "(long)")
    check_dfxp(mk(), want, ctx, "(long)")
    ctx.outcome(d)


# ------------------------------------------------------------------ classes with and without a language
STYLESETS = [
    {},
    {"k": {"lang": "en"}, "j": {"lang": "fr"}, "n": {"color": "red"}},
    {"en": {"lang": "en", "color": "blue"}, "fr": {"lang": "fr"}},
    {"en": {"lang": "fr"}, "fr": {"lang": "en"}, "k": {"lang": "en"}},
    {"en": {"color": "red"}, "j": {"lang": "fr"}},
    {"k": {"lang": "de"}, "p": {"color": "red"}},
]
CLS = [None, "k", "j", "n", "en", "fr"]


def run_classes(d, ctx):
    si, c1, c2, c3, iv = d
    st = STYLESETS[si]
    cls = {("en", 0): CLS[c1], ("en", 1): CLS[c2], ("fr", 0): CLS[c3]}
    pts = GRIDS["s4"]
    lists = [[((0, 1), (2, 3)), ((1, 2),)], [((1, 2), (2, 3)), ((0, 1),)]][iv]
    cs = make(pts, lists, styles=st, style_of=lambda l, i: {"class": cls[(l, i)]} if cls[(l, i)] else None)
    ctx.state(d)
    ctx.step(3)
    want = want_of(pts, lists)
    check_sami(cs, want, ctx, "(styles %r, classes %r)" % (st, cls))
    cs = make(pts, lists, styles=st, style_of=lambda l, i: {"class": cls[(l, i)]} if cls[(l, i)] else None)
    check_dfxp(cs, want, ctx, "(styles %r)" % st)


# ------------------------------------------------------------------ options
NAMES = ["en-US", "fr", "zh-Hans-CN", "es-419", "x-klingon", "und", "i-default", "EN"]
FORCES = ["", "fr", "en", "de", "xx", "e", "FR", "en-US"]


def run_force(d, ctx):
    order, wi, fi, gi = d
    langs = [["en", "fr"], ["fr", "en", "de"], ["en-US", "en", "fr", "e"], ["de"]][order]
    pts = GRIDS["s4"]
    lists = [[((0, 1),), ((0, 1), (1, 3)), ((2, 3),), ((1, 2),)], [((1, 2), (2, 3)), ((0, 3),), ((0, 1),), ((0, 1),)],
             [((0, 1),), (), ((0, 1), (2, 3)), ((2, 3),)]][gi]
    lists = lists[:len(langs)]
    f = FORCES[fi]
    ctx.state(d)
    ctx.step(len(langs))
    w = ["dfxp", "single", "legacy"][wi]
    if w == "legacy" and f and f not in langs:
        return
    # the DFXP writer's regions, styles and the rest must not depend on the languages that are not written
    check_dfxp(make(pts, lists, langs), want_of(pts, lists, langs), ctx, "force=%r" % f, w, f)
    ctx.outcome((tuple(langs), f, w))


def run_vtt(d, ctx):
    order, fi, gi = d
    langs = [["en", "fr"], ["fr", "en", "de"], ["en-US", "en", "fr", "e"]][order]
    f = FORCES[fi] or None
    pts = GRIDS["s4"]
    lists = [[((0, 1),), ((0, 1), (1, 3)), ((2, 3),), ((1, 2),)], [((1, 2), (2, 3)), ((0, 3),), (), ((0, 1),)]][gi][:len(langs)]
    ctx.state(d)
    ctx.step(1)
    cs = make(pts, lists, langs)
    doc = ctx.call(B().WebVTTWriter().write, cs, **({} if f is None else {"lang": f}))
    want = dict(want_of(pts, lists, langs)).get(f or langs[0], [])
    got = [(c.start, c.end, c.text) for c in refs.parse_vtt(doc)]
    same("WebVTT lang=%r" % f, doc, want, got)


READ_DOCS = {
    "srt": "1\n00:00:01,000 --> 00:00:02,000\na\n\n2\n00:00:03,000 --> 00:00:04,000\nb\n",
    "vtt": "WEBVTT\n\n00:01.000 --> 00:02.000\na\n\n00:03.000 --> 00:04.000\nb\n",
    "mdvd": "{0}{0}25\n{25}{50}a\n{75}{100}b\n",
    "scc": "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 94ae 9420 9420 9470 9470 6180 942f 942f\n\n00:00:03:00\t942c 942c\n",
}


def run_readlang(d, ctx):
    f = sorted(READ_DOCS)[d[0]]
    l = NAMES[d[1]]
    b = B()
    r = b.READERS[f]()
    if d[2] == 0:
        cs = ctx.call(r.read, READ_DOCS[f], lang=l)
    elif d[2] == 1:
        cs = ctx.call(r.read, READ_DOCS[f], l)
    else:
        ctx.call(r.read, READ_DOCS[f], lang="yy")
        cs = ctx.call(r.read, READ_DOCS[f], lang=l)
    ctx.state(d)
    ctx.step(1)
    want = ["a"] if f == "scc" else ["a", "b"]
    got = [(x, [t for _, t in v]) for x, v in view(cs)]
    same("%s reader with lang=%r" % (f, l), READ_DOCS[f], [(l, want)], got)


# ------------------------------------------------------------------ default language
DEFAULTS = [None, "en-US", "fr", "und", "x-y", "de"]
DEFDOCS = [("dfxp",) + x for x in itertools.product([None, "de"], [(None,), (None, "fr"), ("fr", None), (None, None), ("de", None, "fr")])] + \
          [("sami", None, x) for x in itertools.product([None, "FRCC", "DECC", "NOSUCH"], repeat=2)] + [("mdvd", None, None)]


def def_doc(k, default):
    f, tt, divs = DEFDOCS[k]
    if f == "dfxp":
        return f, *dfxp_doc(tt, divs, (1, 2, 1, 1), default=default)
    if f == "mdvd":
        return f, READ_DOCS["mdvd"], [(default, [(US, "a"), (3 * US, "b")])]
    model = {}
    s = SAMI_HEAD
    for i, c in enumerate(divs):
        l = {"FRCC": "fr-CA", "DECC": "de"}.get(c, default)
        model.setdefault(l, []).append((i * US, "t%d" % i))
        s += "<SYNC Start=%d><P%s>t%d</P></SYNC>" % (i * 1000, "" if c is None else " Class=" + c, i)
    return f, s + "</BODY></SAMI>", list(model.items())


def read_all(docs):
    """runs in an interpreter of its own"""
    b = B()
    out = []
    for f, doc in docs:
        try:
            out.append(view(b.READERS[f]().read(doc)))
        except Exception as e:
            out.append(repr(e))
    return out


def run_default(d, ctx):
    env = DEFAULTS[d[0]]
    items = [def_doc(k, env or "und") for k in range(len(DEFDOCS))]
    res = iso.interpreter("mc.checks.c14", "read_all", ([(f, doc) for f, doc, _ in items],), d[1], env={"PYCAPTION_DEFAULT_LANG": env})
    for (f, doc, want), got in zip(items, res):
        ctx.executions += 1
        ctx.state((env, doc))
        ctx.step(1)
        same("PYCAPTION_DEFAULT_LANG=%r" % env, doc, want, got)


def spaces(tier):
    return [
        Space("dfxp-documents", "sequences of 1-%d divs x languages {none, en, fr, en-US} x document language {none, de, fr} x paragraph counts (4 patterns)"
              % (4 if tier == "quick" else 5), lambda: cases_dfxp(tier), run_dfxp),
        Space("dfxp-nested", "div inside a div (depth 1-2) x languages of outer/inner/next div x position among the outer paragraphs x document language",
              lambda: prod(4, 4, 3, 4, 3, [1, 2]) if False else ((o, i, p, z, t, k) for o, i, p, z, t in prod(4, 4, 3, 4, 3) for k in (1, 2)), run_nested),
        Space("sami-documents", "all sequences of 1-3 SYNC blocks of all ordered selections of 2 languages, text or blank (3 languages: 1-2 blocks) x notations %s" % MODES,
              lambda: cases_sami(tier), run_sami),
        Space("sami-lang-attribute", "all sequences of 1-3 paragraphs with lang attributes from %r" % LA, lambda: seqs(LA, 1, 3), run_langattr),
        Space("sets", "2 languages x all lists of <=3 non-overlapping cues on 6 points (also in steps of 0.4-1 ms with empty cues, and around digit-count changes); "
              "3 languages x <=2 cues on 4 points; 4 languages x <=2 cues on 3 points; SAMI and DFXP, written, parsed, read back and chained", lambda: cases_sets(tier), run_sets),
        Space("language-names", "ordered pairs of %d language names (prefixes, suffixes, casings, element names) x 3 cue patterns; DFXP plain and forced by 3 writers, WebVTT lang=, SAMI"
              % len(LNAMES), lambda: prod(LNAMES, LNAMES, LLISTS), run_names),
        Space("long", "12, 101 and 600 cues x 5 shifts of a second language x which is first; SAMI and DFXP", lambda: prod(3, 5, 2), run_long),
        Space("classes", "2 languages x caption classes with this, another or no language x 6 style sheets", lambda: prod(STYLESETS, CLS, CLS, CLS, 2), run_classes),
        Space("force", "3 DFXP writers x language sets x force", lambda: prod(4, 3, FORCES, 3), run_force),
        Space("vtt-lang", "language sets x lang=", lambda: prod(3, FORCES, 2), run_vtt),
        Space("reader-lang", "SRT, WebVTT, MicroDVD, SCC readers x lang= (keyword, positional, second read)", lambda: prod(READ_DOCS, NAMES, 3), run_readlang),
        Space("default-language", "PYCAPTION_DEFAULT_LANG x documents without languages, fresh interpreters", lambda: ((i, 0) for i in range(len(DEFAULTS))), run_default),
    ]
