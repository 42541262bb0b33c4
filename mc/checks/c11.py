"""C11: italic, bold and underline spans survive conversion and stay balanced."""
import itertools

from mc import refs
from mc import scc608 as S
from mc.core import Mismatch, Space, devs, prod, seqs

ASSUMPTIONS = [
    "judged on visible characters (blanks and placeholders are left out); a character is italic/bold/underlined when a span around it says so, directly or "
    "through the styles (classes) it refers to",
    "DFXP output carries italics only (the writer has never written bold and underline; the statement asks for them in SAMI and WebVTT)",
    "styles of whole captions are no spans: they are judged from DFXP to DFXP and WebVTT only",
    "flags are not judged for nested spans (the statement excludes them), the balance of the output and of the nodes read is",
]
US = 1000000
TAGS = {"italics": "i", "bold": "b", "underline": "u"}
STYLES = {"ki": {"italics": True}, "kb": {"bold": True, "color": "red"}, "ku": {"underline": True}, "kk": {"color": "blue"}, "kiu": {"italics": True, "underline": True}, "kn": {"italics": False, "color": "red"}}


def B():
    from mc import build
    return build


# ------------------------------------------------------------------ flags of a caption set
def resolve(content, styles, seen=()):
    fl = set()
    for c in content.get("classes") or ([content["class"]] if "class" in content else []):
        if c in styles and c not in seen:
            fl |= resolve(styles[c], styles, (*seen, c))
    for k, t in TAGS.items():
        if content.get(k):
            fl.add(t)
    return fl


def balanced(nodes, doc, what):
    b = B()
    stack = []
    for n in nodes:
        if n.type_ == b.CaptionNode.STYLE:
            if n.start:
                stack.append(n.content)
            elif not stack:
                raise Mismatch("a style node ends that has not been started (%s)" % what, doc, None, nodes)
            elif stack.pop() != n.content:
                raise Mismatch("style nodes end in another order (%s)" % what, doc, None, nodes)
    if stack:
        raise Mismatch("style nodes left open (%s)" % what, doc, None, nodes)


def flagged(caption, styles, level=False):
    """[(visible char, flags)] of a caption with balanced nodes"""
    b = B()
    stack = [frozenset(resolve(caption.style or {}, styles)) if level else frozenset()]
    out = []
    for n in caption.nodes:
        if n.type_ == b.CaptionNode.STYLE:
            if n.start:
                stack.append(stack[-1] | resolve(n.content or {}, styles))
            else:
                stack.pop()
        elif n.type_ == b.CaptionNode.TEXT:
            out.extend((c, stack[-1]) for c in n.content if vis(c))
    return out


def vis(c):
    return not c.isspace() and c != "\xa0"


def visible(chars):
    return [(c, frozenset(f)) for c, f in chars if vis(c)]


def limit(chars, allowed):
    return [(c, frozenset(f) & frozenset(allowed)) for c, f in chars]


def show(chars):
    return " ".join(c + ("[%s]" % "".join(sorted(f)) if f else "") for c, f in chars)


def same(want, got, allowed, doc, what):
    w, g = limit(want, allowed), limit(got, allowed)
    if w != g:
        raise Mismatch(what, doc, show(w), show(g))


# ------------------------------------------------------------------ conversions
def written(fmt, cs, wants, allowed, ctx, what, lang="en", opts=None):
    """write, and look at the document itself; -> document"""
    b = B()
    doc = ctx.call(b.WRITERS[fmt](**(opts or {})).write, cs)
    if fmt == "vtt":
        cues = refs.parse_vtt(doc)
        groups = {}
        for q in cues:
            groups.setdefault(q.start, []).extend(q.chars)
        got = [groups[k] for k in sorted(groups)]
    elif fmt in ("dfxp", "single", "legacy"):
        got = [c.chars for c in dict(refs.DfxpDoc(doc).cues()).get(lang, [])]
    else:
        d = refs.SamiDoc(doc)
        got = [p.chars for _, _, p in d.events() if p.text.replace("\xa0", "").strip()]
    if wants is None:
        return doc
    if len(got) != len(wants):
        raise Mismatch("%d captions in the document, %d in the set (%s)" % (len(got), len(wants), what), doc)
    for i, (w, g) in enumerate(zip(wants, got)):
        same(w, visible(g), allowed, doc, "flags in the document (%s), caption %d" % (what, i))
    return doc


def read(fmt, doc, wants, allowed, ctx, what, lang="en", level=False):
    b = B()
    cs = ctx.call(b.READERS[fmt]().read, doc)
    caps = cs.get_captions(lang)
    for l in cs.get_languages():
        for c in cs.get_captions(l):
            balanced(c.nodes, doc, what)
    if wants is None:
        return cs
    if len(caps) != len(wants):
        raise Mismatch("%d captions read, %d written (%s)" % (len(caps), len(wants), what), doc)
    styles = dict(cs.get_styles())
    for i, (w, c) in enumerate(zip(wants, caps)):
        same(w, flagged(c, styles, level), allowed, doc, "flags read back (%s), caption %d" % (what, i))
    return cs


ALL = "ibu"


def round_trips(cs, wants, ctx, lang="en", sami=True):
    """every chain of conversions of a set of balanced, flat captions"""
    written("vtt", cs, wants, ALL, ctx, "to WebVTT")
    d = written("dfxp", cs, wants, "i", ctx, "to DFXP", lang)
    cd = read("dfxp", d, wants, "i", ctx, "DFXP", lang)
    d2 = written("dfxp", cd, wants, "i", ctx, "DFXP to DFXP", lang)
    read("dfxp", d2, wants, "i", ctx, "DFXP to DFXP", lang)
    written("vtt", cd, wants, "i", ctx, "DFXP to WebVTT")
    ds = written("sami", cd, wants, "i", ctx, "DFXP to SAMI")
    cds = read("sami", ds, wants, "i", ctx, "DFXP to SAMI", lang)
    dsd = written("dfxp", cds, wants, "i", ctx, "DFXP to SAMI to DFXP", lang)
    read("dfxp", dsd, wants, "i", ctx, "DFXP to SAMI to DFXP", lang)
    s = written("sami", cs, wants, ALL, ctx, "to SAMI")
    c = read("sami", s, wants, ALL, ctx, "SAMI", lang)
    written("vtt", c, wants, ALL, ctx, "SAMI to WebVTT")
    s2 = written("sami", c, wants, ALL, ctx, "SAMI to SAMI")
    read("sami", s2, wants, ALL, ctx, "SAMI to SAMI", lang)
    sd = written("dfxp", c, wants, "i", ctx, "SAMI to DFXP", lang)
    read("dfxp", sd, wants, "i", ctx, "SAMI to DFXP", lang)
    ctx.outcome(d)
    ctx.outcome(s)


# ------------------------------------------------------------------ flat spans at every position
SPANS = [{"italics": True}, {"bold": True}, {"underline": True}, {"italics": True, "bold": True}, {"underline": True, "italics": True, "bold": True}, {},
         {"color": "red"}, {"class": "ki"}, {"class": "kb"}, {"class": "kiu", "classes": ["kiu"], "bold": True}, {"class": "ki kb", "classes": ["ki", "kb"]},
         {"class": "zz"}, {"class": "kk", "underline": True}, {"font-size": "10pt", "italics": True},
         {"italics": False, "color": "red"}, {"italics": True, "bold": False, "underline": False}]
BODIES = [("t",), (), ("b",), ("t", "b", "t"), ("b", "t"), ("t", "b"), ("t", "t"), (" t ",), ("b", "t", "b"), ("b", "b", "t")]
FIRST = [("t",), ("b",), (" t",), ("t ",)]
FEW_S = [0, 2, 5, 7]
FEW_B = [0, 1, 3, 4, 5]
LETTERS = "abcdefghijklmnopqrstuvwxyz"


def seg_items(seg):
    if seg[0] == "span":
        style = SPANS[seg[1]]
        return [(True, style)] + list(BODIES[seg[2]]) + [(False, style)]
    return list(seg)


def realize(segs, layout=None):
    """-> (items with letters, wanted flags) or None"""
    items, want, k = [], [], 0
    cur = frozenset()
    for s in segs:
        for x in seg_items(s):
            if isinstance(x, tuple):
                cur = frozenset(resolve(x[1], STYLES)) if x[0] else frozenset()
                items.append(x)
            elif x == "b":
                items.append(None)
            else:
                items.append(x.replace("t", LETTERS[k]))
                want.append((LETTERS[k], cur))
                k += 1
    return (items, want) if want else None


def run_flat(d, ctx):
    b = B()
    letters = alphabet(d[0])
    if d[0] == 0:
        x0 = letters[d[1]]
        few = alphabet(1)
        # (two unusual spans in one caption: thorough only)
        groups = [(x0,)] + [(x0, x) for x in letters if d[2:] or x0 in few or x in few]
    else:
        groups = [tuple(letters[i] for i in d[1:]) + (x,) for x in letters]
    done = [r for r in map(realize, groups) if r]
    for chunk in range(0, len(done), 30):
        part = done[chunk:chunk + 30]
        caps = []
        for i, (items, want) in enumerate(part):
            ctx.state(repr(items))
            ctx.step(len(items))
            caps.append(b.cap((i + 1) * US, (i + 2) * US, items))
        round_trips(b.cset({"en": caps}, styles=STYLES), [w for _, w in part], ctx)


def alphabet(kind):
    if kind == 0:
        return FIRST + [("span", s, y) for s in range(len(SPANS)) for y in range(len(BODIES))]
    if kind == 1:
        return FIRST[:3] + [("span", s, y) for s in FEW_S for y in FEW_B]
    return [FIRST[0], FIRST[1], ("span", 0, 0), ("span", 1, 0), ("span", 0, 3), ("span", 0, 1), ("span", 7, 4), ("span", 5, 0)]


def cases_flat(tier):
    for i in range(len(alphabet(0))):
        yield (0, i) if tier == "quick" else (0, i, 1)
    for i, j in prod(len(alphabet(1)), len(alphabet(1))):
        yield (1, i, j)
    n = len(alphabet(2))
    for k in (3,) if tier == "quick" else (3, 4, 5):
        for v in itertools.product(range(n), repeat=k):
            yield (2,) + v


# ------------------------------------------------------------------ spans within nodes of one layout
def lay(i):
    from mc import pool
    return pool.L([0, 2, 3][i])


def run_layout(d, ctx):
    """three segments, each a text or a span with its own layout (none, L1, L2) on its nodes; caption layout"""
    b = B()
    cl, tail = d[0], d[1]
    segs = [(FIRST[0], 0), (FIRST[1], 0)] + [((FIRST[0]), l) for l in (1, 2)] + [(("span", s, y), l) for s in (0, 1) for y in (0, 1, 3, 4) for l in (0, 1, 2)]
    groups = [(segs[tail], x) for x in segs] + [(segs[tail], x, segs[tail]) for x in segs] + [(x, segs[tail], segs[2]) for x in segs]
    caps, wants = [], []
    for g in groups:
        items, want, k = [], [], 0
        for seg, l in g:
            cur = frozenset()
            for x in seg_items(seg):
                if isinstance(x, tuple):
                    cur = frozenset(resolve(x[1], STYLES)) if x[0] else frozenset()
                    items.append((x, lay(l)))
                elif x == "b":
                    items.append((None, lay(l)))
                else:
                    items.append((LETTERS[k], lay(l)))
                    want.append((LETTERS[k], cur))
                    k += 1
        if want:
            i = len(caps)
            ctx.state((cl, repr(items)))
            ctx.step(len(items))
            caps.append(b.cap((i + 1) * US, (i + 2) * US, items, layout=lay(cl)))
            wants.append(want)
    for i in range(0, len(caps), 30):
        part = caps[i:i + 30]
        round_trips(b.cset({"en": part}, styles=STYLES), wants[i:i + 30], ctx)


# ------------------------------------------------------------------ several captions and languages (no span leaks into the next caption)
MANY = [((0, 0),), (("t"), (0, 1)), (("t"),), ((0, 2), ("t")), ((1, 0), (0, 0)), ((5, 0), ("t")), (("t"), (0, 5))]


def run_many(d, ctx):
    b = B()
    caps = {"en": [], "fr": []}
    wants = {"en": [], "fr": []}
    for n, i in enumerate(d):
        segs = [("t",) if x == "t" else ("span",) + x for x in MANY[i]]
        r = realize(segs)
        l = "fr" if n % 2 and len(d) > 3 else "en"
        k = len(caps[l])
        caps[l].append(b.cap((k + 1) * US, (k + 2) * US, r[0]))
        wants[l].append(r[1])
    ctx.state(d)
    ctx.step(len(d))
    langs = {l: c for l, c in caps.items() if c}
    cs = b.cset(langs, styles=STYLES)
    D, W = b.DFXPWriter(), b.SAMIWriter()
    for rep in range(2):                       # the same writer objects twice
        doc = ctx.call(D.write, cs)
        for l, cues in refs.DfxpDoc(doc).cues():
            for w, c in zip(wants[l], cues):
                same(w, visible(c.chars), "i", doc, "flags in the document (DFXP, %s)" % l)
        back = ctx.call(b.DFXPReader().read, doc)
        for l in langs:
            read_back(back, l, wants[l], "i", doc, "DFXP")
        doc = ctx.call(W.write, cs)
        refs.SamiDoc(doc)
        back = ctx.call(b.SAMIReader().read, doc)
        for l in langs:
            read_back(back, l, wants[l], ALL, doc, "SAMI")
    ctx.outcome(doc)


def read_back(cs, l, wants, allowed, doc, what):
    caps = cs.get_captions(l)
    if len(caps) != len(wants):
        raise Mismatch("captions (%s, %s)" % (what, l), doc, len(wants), len(caps))
    for w, c in zip(wants, caps):
        balanced(c.nodes, doc, what)
        same(w, flagged(c, dict(cs.get_styles())), allowed, doc, "flags read back (%s, %s)" % (what, l))


# ------------------------------------------------------------------ DFXP documents
DSPAN = ['tts:fontStyle="italic"', 'tts:fontWeight="bold"', 'tts:textDecoration="underline"', 'style="si"', 'style="sb"', 'style="su"', 'style="si sb"', 'style="sn"',
         'tts:fontStyle="normal"', 'tts:fontStyle="italic" tts:fontWeight="bold" tts:textDecoration="underline"', 'style="sb" tts:fontStyle="italic"', "", 'tts:color="red"',
         'style="s2"', 'style="1"', 'tts:textDecoration="underline overline"', 'style=" si "', 'tts:fontStyle="italic" region="r"', 'style="sz"',
         'tts:textDecoration="none"', 'tts:fontWeight="normal" tts:fontStyle="italic"', 'style="sq"',
         'tts:textDecoration="noUnderline lineThrough"']
DBODY = ["%s", "", "<br/>", "%s<br/>%s", "<br/>%s", "%s<br/>", "\n  %s\n  ", "%s &amp;%s", "<!-- %s -->%s", "<metadata/>%s"]
DSTYLES = ('<style xml:id="si" tts:fontStyle="italic"/><style xml:id="sb" tts:fontWeight="bold"/><style xml:id="su" tts:textDecoration="underline"/><style xml:id="sn" tts:color="red"/>'
           '<style xml:id="s2" style="si"/><style xml:id="sz" style="zi" tts:color="blue"/><style xml:id="zi" tts:fontStyle="italic"/>'
           '<style xml:id="sq" tts:fontStyle="normal" tts:fontWeight="normal" tts:textDecoration="lineThrough"/>')
DFLAGS = ["i", "b", "u", "i", "b", "u", "ib", "", "", "ibu", "ib", "", "", "i", "", "u", "i", "i", "i", "", "i", "", ""]


def dfxp_doc(paragraphs, styles=DSTYLES, plang=None):
    return ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><styling>%s</styling><layout><region xml:id="r" tts:origin="1%% 2%%"/>'
            '</layout></head><body><div>%s</div></body></tt>'
            % (styles, "".join('<p begin="%ds" end="%ds">%s</p>' % (i + 1, i + 2, x) for i, x in enumerate(paragraphs))))


def run_dfxp(d, ctx):
    """documents with two spans; every letter's flags are those of the document"""
    a = d[0]
    paras, wants = [], []
    for bi, ci, di in prod(len(DBODY), len(DSPAN) if d[1] else 1, len(DBODY) if not d[1] else 1):
        parts = [("", ""), (DSPAN[a], DBODY[bi]), ("", None), (DSPAN[ci] if d[1] else DSPAN[(a + 1) % len(DSPAN)], DBODY[di])]
        k = 0
        text, want = "", []
        for n, (at, body) in enumerate(parts):
            if body is None or n == 0:
                if d[2] == 1:
                    continue
                body = "%s"
                at = None
            m = body.count("%s")
            ls = LETTERS[k:k + m]
            k += m
            inner = body % tuple(ls)
            fl = frozenset() if at is None else frozenset(DFLAGS[DSPAN.index(at)])
            hidden = {ls[0]} if "<!--" in body else set()
            want += [(c, fl) for c in ls.replace("", "") if c not in hidden]
            if "&amp;" in body:
                want.insert(len(want) - 1, ("&", fl))
            text += inner if at is None else "<span%s>%s</span>" % (" " + at if at else "", inner)
        if want:
            paras.append(text)
            wants.append(want)
    for i in range(0, len(paras), 25):
        doc = dfxp_doc(paras[i:i + 25])
        ws = wants[i:i + 25]
        ctx.state(doc)
        ctx.step(4 * len(ws))
        # the reference reading of the document must agree with the generator
        cs = read("dfxp", doc, ws, ALL, ctx, "DFXP document")
        w = written("vtt", cs, ws, ALL, ctx, "DFXP document to WebVTT")
        out = written("dfxp", cs, ws, "i", ctx, "DFXP document to DFXP")
        c2 = read("dfxp", out, ws, "i", ctx, "DFXP document to DFXP")
        s = written("sami", cs, ws, ALL, ctx, "DFXP document to SAMI")
        c3 = read("sami", s, ws, ALL, ctx, "DFXP document to SAMI")
        out = written("dfxp", c3, ws, "i", ctx, "DFXP document to SAMI to DFXP")
        read("dfxp", out, ws, "i", ctx, "DFXP document to SAMI to DFXP")
        ctx.outcome(w)


# ------------------------------------------------------------------ SAMI documents
SSPAN = [("<i>", "</i>", "i"), ("<b>", "</b>", "b"), ("<u>", "</u>", "u"), ("<I>", "</I>", "i"), ('<span style="font-style:italic">', "</span>", "i"),
         ('<span style="font-style: italic;">', "</span>", "i"), ('<span style="font-style:italic; font-weight:bold">', "</span>", "ib"),
         ('<span style="color:red;text-decoration:underline;">', "</span>", "u"), ('<SPAN Style="font-weight : bold">', "</SPAN>", "b"), ("<span class=ki>", "</span>", "i"),
         ('<span class="KB">', "</span>", "b"), ("<span>", "</span>", ""), ('<span id="xx">', "</span>", ""), ("<span class=zz>", "</span>", ""),
         ('<div style="font-style:italic">', "</div>", "i"), ('<span class="ku" style="font-style:italic">', "</span>", "iu"), ("<i class=kb>", "</i>", None),
         ("<span style='font-style:italic'>", "</span>", "i"), ('<span style="">', "</span>", ""), ('<span class="kiu">', "</span>", "iu"),
         ('<span style="FONT-STYLE: ITALIC">', "</span>", "i"), ("<span style=\"font-family:'A &amp; B';font-style:italic\">", "</span>", "i"),
         ('<span style="font-family:&quot;A&quot;;font-style:italic">', "</span>", "i"), ("<span style>", "</span>", ""), ('<i title="a>b">', "</i>", "i"),
         ('<span style="font-weight:normal;font-style:italic">', "</span>", "i"), ('<span style="font-style:normal;text-decoration:none;font-weight:400">', "</span>", ""),
         ('<span class="kn">', "</span>", ""), ('<span style="color:bold;font-family:italic;text-align:underline">', "</span>", "")]
SBODY = ["%s", "", "<br>", "%s<br>%s", "<br/>%s", "%s<BR />", "\n  %s\n ", "%s &amp;%s", "&nbsp;%s"]
SHEAD = "P {color: white;} .EN {lang: en;} .ki {font-style: italic;} .kb {font-weight: bold} .KU {text-decoration: underline;} .kiu {font-style:italic; text-decoration:underline} "
SHEAD += ".kn {font-style: normal; font-weight: normal; text-decoration: none}"


def sami_doc(paragraphs, head=SHEAD):
    return ('<SAMI><HEAD><STYLE TYPE="text/css"><!-- %s --></STYLE></HEAD><BODY>%s</BODY></SAMI>'
            % (head, "".join("<SYNC start=%d><P class=EN>%s</P></SYNC>" % (1000 * (i + 1), x) for i, x in enumerate(paragraphs))))


def run_sami(d, ctx):
    a = d[0]
    paras, wants = [], []
    for bi, ci, di in prod(len(SBODY), len(SSPAN) if d[1] else 1, len(SBODY) if not d[1] else 1):
        second = SSPAN[ci] if d[1] else SSPAN[(a + 1) % len(SSPAN)]
        if SSPAN[a][2] is None or second[2] is None:
            continue
        parts = [(None, "%s"), (SSPAN[a], SBODY[bi]), (None, "%s"), (second, SBODY[di])]
        k, text, want = 0, "", []
        for at, body in parts:
            if at is None and d[2]:
                continue
            m = body.count("%s")
            ls = LETTERS[k:k + m]
            k += m
            fl = frozenset(at[2]) if at else frozenset()
            want += [(c, fl) for c in ls]
            if "&amp;" in body:
                want.insert(len(want) - 1, ("&", fl))
            inner = body % tuple(ls)
            text += at[0] + inner + at[1] if at else inner
        if want:
            paras.append(text)
            wants.append(want)
    for i in range(0, len(paras), 25):
        doc = sami_doc(paras[i:i + 25])
        ws = wants[i:i + 25]
        ctx.state(doc)
        ctx.step(4 * len(ws))
        cs = read("sami", doc, ws, ALL, ctx, "SAMI document")
        written("vtt", cs, ws, ALL, ctx, "SAMI document to WebVTT")
        s = written("sami", cs, ws, ALL, ctx, "SAMI document to SAMI")
        read("sami", s, ws, ALL, ctx, "SAMI document to SAMI")
        out = written("dfxp", cs, ws, "i", ctx, "SAMI document to DFXP")
        c2 = read("dfxp", out, ws, "i", ctx, "SAMI document to DFXP")
        s = written("sami", c2, ws, "i", ctx, "SAMI document to DFXP to SAMI")
        read("sami", s, ws, "i", ctx, "SAMI document to DFXP to SAMI")
        ctx.outcome(s)


# ------------------------------------------------------------------ tag soup: nodes read and documents written are balanced
SOUP = ["x", "<br>", "<i>", "</i>", "<b>", "</b>", '<span style="font-style:italic">', "</span>", "<div>", "<P class=EN>"]
DSOUP = ["x", "<br/>", '<span tts:fontStyle="italic">', "<span>", "</span>", '<span style="si">', "<p>", "</p>", "<![CDATA[y]]>"]


def run_soup(d, ctx):
    b = B()
    kind, seq = d[0], d[1:]
    soup = (SOUP, DSOUP)[kind]
    body = "".join(soup[i] for i in seq) + "."
    doc = sami_doc([body, "next"]) if kind == 0 else dfxp_doc([body, "next"])
    ctx.state(doc)
    ctx.step(len(seq))
    cs, e = ctx.call_exc(b.READERS[("sami", "dfxp")[kind]]().read, doc)
    if e is not None:
        ctx.count("refused")
        ctx.outcome(repr(e))
        return
    for l in cs.get_languages():
        for c in cs.get_captions(l):
            balanced(c.nodes, doc, "tag soup")
    for fmt in ("vtt", "dfxp", "sami"):
        out = ctx.call(b.WRITERS[fmt]().write, cs)
        try:
            {"vtt": refs.parse_vtt, "dfxp": refs.DfxpDoc, "sami": refs.SamiDoc}[fmt](out)
        except refs.Bad as err:
            raise Mismatch("output is not balanced (%s): %s" % (fmt, err), doc, None, out)
    ctx.outcome(out)


# ------------------------------------------------------------------ nested spans: balance only
NEST = ["t", "b"] + [(s, st) for s in (True, False) for st in (0, 1, 5)]


def run_nested(d, ctx):
    """every balanced sequence of start/end/text/break: the output is balanced and well-formed"""
    b = B()
    stack, items, k = [], [], 0
    for i in d:
        x = NEST[i]
        if x == "t":
            items.append(LETTERS[k])
            k += 1
        elif x == "b":
            items.append(None)
        elif x[0]:
            stack.append(x[1])
            items.append((True, SPANS[x[1]]))
        elif stack and stack[-1] == x[1]:
            stack.pop()
            items.append((False, SPANS[x[1]]))
        else:
            return
    while stack:
        items.append((False, SPANS[stack.pop()]))
    if not k:
        return
    cs = b.cset({"en": [b.cap(US, 2 * US, items), b.cap(2 * US, 3 * US, ["z"])]}, styles=STYLES)
    ctx.state(repr(items))
    ctx.step(len(items))
    for fmt in ("vtt", "dfxp", "sami"):
        out = written(fmt, cs, None, ALL, ctx, "nested")
        chars = {"vtt": lambda: refs.parse_vtt(out)[-1].chars, "dfxp": lambda: refs.parse_dfxp(out)[0][1][-1].chars,
                 "sami": lambda: [p for _, _, p in refs.SamiDoc(out).events() if "z" in p.text][-1].chars}[fmt]()
        same([("z", frozenset())], visible(chars), ALL, out, "the caption after it (%s)" % fmt)
        if fmt != "vtt":
            read(fmt, out, None, ALL, ctx, "nested " + fmt)
    ctx.outcome(out)


# ------------------------------------------------------------------ SCC
PAC_I = 14          # attribute number of italics in scc608
ROWS_AT = [(15, 14, 13, 12), (12, 13, 14, 15), (2, 5, 8, 11), (3, 4, 8, 9), (2, 5, 6, 9)]


def run_scc_rows(d, ctx):
    """rows in italics or not, next to each other or apart, with changes of style before and after their text"""
    mode, rows, spec = d
    cur = []
    for r, (pac, before, after) in zip(ROWS_AT[rows], spec):
        cur.append(("pac", r, 14 if pac else 16, 0))
        cur += [("mid", 14)] * before + [("t", "ab")] + [("mid", [14, 0][after - 1])] * bool(after)
    ctx.step(len(cur))
    run_scc((mode,), ctx, cur)


TOK = [("t", "ab"), ("mid", 14), ("mid", 0), ("pac", 15, 16, 0), ("pac", 14, 14, 0), ("mid", 15), ("w", "EOC+"), ("t", "c"), ("bs",)]


def run_scc(d, ctx, body=None):
    b = B()
    mode, seq = d[0], d[1:]
    words = []
    start = {0: [("w", S.RCL)], 1: [("w", S.RU[2]), ("w", S.CR)], 2: [("w", S.RDC)]}[mode]
    end = {0: [("w", S.EOC)], 1: [("w", S.CR)], 2: []}[mode]
    lines, cur = [], list(start) + (body or [("pac", 15, 16, 0)])
    for i in seq:
        if TOK[i] == ("w", "EOC+"):
            lines.append(cur + end)
            cur = list(start) + [("pac", 15, 16, 0)]
        else:
            cur.append(TOK[i])
    lines.append(cur + end)
    lines.append([("w", S.EDM)])
    from mc.checks.c05 import MODES
    doc = S.doc([(S.stamp(300 + 90 * i, False), S.encode(l, MODES[1])) for i, l in enumerate(lines)])
    ctx.state(doc)
    ctx.step(len(seq))
    cs, e = ctx.call_exc(b.SCCReader().read, doc)
    if e is not None:
        ctx.count("refused")
        ctx.outcome(type(e).__name__)
        return
    caps = cs.get_captions("en-US")
    wants = []
    for c in caps:
        balanced(c.nodes, doc, "SCC")
        depth = 0
        for n in c.nodes:
            if n.type_ == b.CaptionNode.STYLE:
                depth += 1 if n.start else -1
                if depth > 1:
                    raise Mismatch("SCC style nodes are nested", doc, None, c.nodes)
        wants.append(flagged(c, {}))
    # captions that share their start are one group in the outputs
    if any(not w for w in wants) or len({c.start for c in caps}) != len(caps):
        ctx.count("not converted")
        return
    ctx.outcome(repr(wants))
    d1 = written("dfxp", cs, wants, "i", ctx, "SCC to DFXP", "en-US")
    read("dfxp", d1, wants, "i", ctx, "SCC to DFXP", "en-US")
    written("vtt", cs, wants, ALL, ctx, "SCC to WebVTT")
    s = written("sami", cs, wants, ALL, ctx, "SCC to SAMI")
    read("sami", s, wants, ALL, ctx, "SCC to SAMI", "en-US")


# ------------------------------------------------------------------ styles of whole captions
CST = [{}, {"italics": True}, {"bold": True}, {"underline": True}, {"italics": True, "underline": True, "bold": True}, {"class": "ki"}, {"class": "kiu", "classes": ["kiu"]},
       {"class": "kb ki", "classes": ["kb", "ki"]}, {"class": "zz"}, {"color": "red"}, {"italics": False}, {"bold": False, "italics": True}]


def run_level(d, ctx):
    ci, rest = d[0], d[1:]
    b = B()
    r = realize([alphabet(2)[i] for i in rest])
    if not r:
        return
    items, want = r
    up = frozenset(resolve(CST[ci], STYLES))
    want = [(c, f | up) for c, f in want]
    cs = b.cset({"en": [b.cap(US, 2 * US, items, style=CST[ci]), b.cap(3 * US, 4 * US, ["z"])]}, styles=STYLES)
    wants = [want, [("z", frozenset())]]
    ctx.state((ci, repr(items)))
    ctx.step(len(items))
    written("vtt", cs, wants, ALL, ctx, "caption style to WebVTT")
    d1 = written("dfxp", cs, wants, "i", ctx, "caption style to DFXP")
    c1 = read("dfxp", d1, wants, "i", ctx, "caption style to DFXP", level=True)
    written("vtt", c1, wants, "i", ctx, "caption style, DFXP to WebVTT")
    ctx.outcome(d1)


# ------------------------------------------------------------------ nested spans: the markup stays balanced and properly nested
NOPEN = [{"italics": True}, {"underline": True}, {"bold": True, "italics": True}, {"color": "red"}]
NTOK = len(NOPEN) + 4        # opens, close, text, text elsewhere, break


def nested_seqs(n):
    """balanced sequences of n tokens"""
    def go(k, open_, acc):
        if k == 0:
            if not open_:
                yield acc
            return
        for t in range(NTOK):
            if t < len(NOPEN):
                if open_ + 1 <= k - 1:
                    yield from go(k - 1, open_ + 1, acc + (t,))
            elif t == len(NOPEN):
                if open_:
                    yield from go(k - 1, open_ - 1, acc + (t,))
            elif open_ <= k - 1:
                yield from go(k - 1, open_, acc + (t,))
    return go(n, 0, ())


def cases_nested(n):
    part = []
    for k in range(1, n + 1):
        for v in nested_seqs(k):
            part.append(v)
            if len(part) == 40:
                yield tuple(part)
                part = []
    if part:
        yield tuple(part)


def run_nested_layouts(d, ctx):
    b = B()
    for cl in (0, 1):
        caps, wants = [], []
        for v in d:
            stack, its, want = [], [], []
            for t in v:
                if t < len(NOPEN):
                    stack.append(NOPEN[t])
                    its.append((True, NOPEN[t]))
                elif t == len(NOPEN):
                    its.append((False, stack.pop()))
                elif t == len(NOPEN) + 3:
                    its.append(None)
                else:
                    c = LETTERS[len(want)]
                    fl = frozenset().union(*[resolve(x, {}) for x in stack])
                    want.append((c, fl))
                    its.append((c, lay(1) if t == len(NOPEN) + 2 else None))
            if not want:
                continue
            ctx.state((cl, v))
            ctx.step(len(v))
            i = len(caps)
            caps.append(b.cap((i + 1) * US, (i + 2) * US, its, layout=lay(2 * cl)))
            wants.append(want)
        if not caps:
            continue
        cs = b.cset({"en": caps})
        written("vtt", cs, wants, ALL, ctx, "nested spans to WebVTT")
        none = [[(c, frozenset()) for c, _ in w] for w in wants]
        for fmt in ("dfxp", "legacy", "sami"):
            doc = written(fmt, cs, none, "", ctx, "nested spans to %s" % fmt)
            back = read("sami" if fmt == "sami" else "dfxp", doc, none, "", ctx, "nested spans to %s" % fmt)
            written("vtt", back, none, "", ctx, "nested spans to %s to WebVTT" % fmt)


# ------------------------------------------------------------------ a style's own values and those of its classes (WebVTT resolves them itself)
def run_own(d, ctx):
    b = B()
    own, k, k2 = ({x: (True, False)[v - 1] for x, v in zip(("italics", "bold"), t) if v} for t in d[:3])
    styles = {"k": dict(k, **{"class": "k2"}), "k2": k2}
    content = dict(own, **[{}, {"class": "k"}, {"class": "k", "classes": ["k"]}, {"class": "k2 k", "classes": ["k2", "k"]}, {"class": "k"}][d[3]])
    if d[3] == 4:
        styles["k2"] = dict(k2, **{"class": "k"})
    eff = {}
    for part in ([own] if d[3] == 0 else [k2, k, own]):
        eff.update(part)
    fl = frozenset(TAGS[x] for x, v in eff.items() if v)
    its = ["x", (True, content), "y", (False, content), "z"]
    cs = b.cset({"en": [b.cap(US, 2 * US, its), b.cap(3 * US, 4 * US, ["w"], style=content)]}, styles=styles)
    ctx.state(d)
    ctx.step()
    none = frozenset()
    written("vtt", cs, [[("x", none), ("y", fl), ("z", none)], [("w", fl)]], ALL, ctx, "own style and classes to WebVTT")


# ------------------------------------------------------------------ sizes
def run_sizes(d, ctx):
    """n spans in one caption, with and without text and breaks between them"""
    n, k = d
    b = B()
    items, want = [], []
    for i in range(n):
        st = SPANS[[0, 1, 2, 3, 7][(i * (k % 2 + 1)) % 5]] if k < 4 else SPANS[0]
        items += [(True, st)] + ["s%d" % i] + [(False, st)]
        want += [(c, frozenset(resolve(st, STYLES))) for c in "s%d" % i]
        if k % 3 == 1:
            items.append(None)
        if k % 3 == 2:
            items.append("t%d" % i)
            want += [(c, frozenset()) for c in "t%d" % i]
    ctx.state(d)
    ctx.step(n)
    other = (["z"], [("z", frozenset())])
    caps = [b.cap((i + 1) * US, (i + 2) * US, x) for i, x in enumerate((other[0], items, other[0]))]
    round_trips(b.cset({"en": caps}, styles=STYLES), [other[1], want, other[1]], ctx)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("sizes", "captions of 1..24 and 33, 64, 65, 100%s spans in 6 arrangements" % ("" if q else ", 129, 257, 513"),
              lambda: ((n, k) for n in list(range(1, 25)) + [33, 64, 65, 100] + ([] if q else [129, 257, 513]) for k in range(6)), run_sizes),
        Space("flat", "captions of <=2 segments of %d (%s; text, break, %d span styles x %d bodies), <=3 of %d, %d%s of %d; 15 writes/reads each: DFXP, SAMI, DFXP<->SAMI, WebVTT"
              % (len(alphabet(0)), "one of the two from the %d below" % len(alphabet(1)) if q else "all pairs", len(SPANS), len(BODIES), len(alphabet(1)), 4, "" if q else "..6", len(alphabet(2))), lambda: cases_flat(tier), run_flat),
        Space("layouts", "2-3 segments, spans and texts with the layouts none/L1/L2 x caption layout", lambda: prod(3, 28), run_layout),
        Space("captions", "<=%d captions of 7 kinds in two languages, the same writers twice" % (4 if q else 5), lambda: seqs(7, 2, 4 if q else 5), run_many),
        Space("dfxp", "DFXP documents: pairs of %d span spellings and %d bodies, with and without text between" % (len(DSPAN), len(DBODY)), lambda: prod(len(DSPAN), 2, 2), run_dfxp),
        Space("sami", "SAMI documents: pairs of %d span spellings and %d bodies, with and without text between" % (len(SSPAN), len(SBODY)), lambda: prod(len(SSPAN), 2, 2), run_sami),
        Space("soup", "SAMI and DFXP bodies of <=%d of %d/%d tags and texts, balanced or not: nodes and outputs balanced" % (4 if q else 5, len(SOUP), len(DSOUP)),
              lambda: itertools.chain(((0,) + v for v in seqs(len(SOUP), 1, 4 if q else 5)), ((1,) + v for v in seqs(len(DSOUP), 1, 4 if q else 5))), run_soup),
        Space("nested", "balanced node sequences of <=%d nodes, nested ones too: output balanced, next caption clean" % (5 if q else 6), lambda: seqs(len(NEST), 1, 5 if q else 6), run_nested),
        Space("scc-rows", "pop-on and paint-on screens of 1..%d rows in %d arrangements x preamble plain/italic x italics before x style after the text" % (3 if q else 4, len(ROWS_AT)),
              lambda: ((m, a, s) for m in (0, 2) for n in range(1, 4 if q else 5) for a in range(len(ROWS_AT))
                       for s in itertools.product([(x, y, z) for x in (0, 1) for y in (0, 1) for z in ((0, 2) if n > 2 else (0, 1, 2))], repeat=n)), run_scc_rows),
        Space("scc", "pop-on, roll-up and paint-on streams of <=%d of %d tokens (text, italics on/off/underlined, 2 PACs, backspace, next caption)" % (4 if q else 6, len(TOK)),
              lambda: ((m,) + v for m in range(3) for v in seqs(len(TOK), 1, 4 if q else (6 if m == 0 else 5))), run_scc),
        Space("nested-layouts", "all balanced sequences of <=%d of %d tokens (4 span styles, end, text, text with a layout, break) x 2 caption layouts: WebVTT flags, balanced markup and nodes" % (6 if q else 7, NTOK),
              lambda: cases_nested(6 if q else 7), run_nested_layouts),
        Space("own-styles", "italics and bold on/off/absent in a span, its class and the class of the class x 5 ways to refer to them; WebVTT",
              lambda: (x + (m,) for x in itertools.product(itertools.product(range(3), repeat=2), repeat=3) for m in range(5)), run_own),
        Space("caption-style", "%d caption styles x <=%d segments of 8" % (len(CST), 3 if q else 4), lambda: ((c,) + v for c in range(len(CST)) for v in seqs(8, 1, 3 if q else 4)), run_level),
    ]
