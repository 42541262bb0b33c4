"""C07: the output of the three DFXP writers is well-formed XML and internally consistent."""
import itertools

from mc import refs
from mc.core import Mismatch, Space, devs, prod, seqs

ASSUMPTIONS = [
    "characters in texts, style values, class names and language codes satisfy str.isprintable()",
    "a style= value counts as resolved when it is, as a whole or token by token, the xml:id of exactly one style in the head",
    "a writer may refuse (RelativizationError) a layout in absolute units when it was given no video size, and (ValueError) "
    "to fit to the screen a layout in absolute units when relativization is switched off",
]
W3 = ["dfxp", "single", "legacy"]
MS = 1000


def runs(times):
    n = 0
    last = None
    for t in times:
        if t != last:
            n += 1
        last = t
    return n


def judge(w, cs, ctx, opts=None, force="", input=None):
    """write the set and check the document against the statement"""
    from mc import build as B
    from pycaption.exceptions import RelativizationError
    want_langs = cs.get_languages()
    opts = opts if w != "legacy" else {}
    if force:
        if force in want_langs:
            want_langs = [force]
        elif w == "legacy":
            want_langs = None               # falls back to one language, which one is not specified
    wr = B.WRITERS[w](**(opts or {}))
    shape = {l: [(c.start, c.end) for c in cs.get_captions(l)] for l in cs.get_languages()}
    inp = dict(writer=w, options=opts, force=force, set=input)
    doc, e = ctx.call_exc(wr.write, cs, **({"force": force} if force else {}))
    if isinstance(e, RelativizationError) or (isinstance(e, ValueError) and (opts or {}).get("relativize") is False):
        ctx.count("refused")
        return None
    if e is not None:
        raise Mismatch("writer raised %s: %s" % (type(e).__name__, e), input=inp)
    try:
        d = refs.DfxpDoc(doc)
        d.check_consistency()
        divs = d.cues()
    except refs.Bad as e:
        raise Mismatch(str(e), input=inp, observed=doc)
    got_langs = [l for l, _ in divs]
    if want_langs is None:
        if len(got_langs) != 1 or got_langs[0] not in cs.get_languages():
            raise Mismatch("forced output holds divs %r" % (got_langs,), input=inp, observed=doc)
    elif got_langs != [attr_norm(x) for x in want_langs]:
        raise Mismatch("one div per written language", input=inp, expected=want_langs, observed=got_langs)
    for (l, cues), lang in zip(divs, got_langs if want_langs is None else want_langs):
        times = shape[lang]
        n = len(times) if w == "dfxp" else runs(times)
        if len(cues) != n:
            raise Mismatch("one p per caption: %d captions -> %d p" % (n, len(cues)), input=inp, observed=doc)
    ctx.step(sum(len(c) for _, c in divs))
    ctx.state((w, doc))
    return d


def attr_norm(s):
    return s.replace("\t", " ").replace("\n", " ")


# ------------------------------------------------------------------ characters in every position
CH = ["a", "&", "<", ">", '"', "'", ";", "#", "=", "/", "!", "-", "]", " ", "\u00e9", "\U0001f600", "{", "}", "%", ":", ".", "\\", "1"]
TOKS = ["a", " ", "&amp;", "&lt;", "&", "<", ">", '"', "'", "]]>", "<!--", "-->", "--", "<?", "?>", "<![CDATA[", "&#0;", "&#x;",
        "</p>", "<p>", "<br/>", "</span>", "<span>", "<a b", "\u00a0", "\ufffd", "\U0001f600", "%s", "\\", "=", "&quot;", "&apos;", "é"]

# positions that can hold an arbitrary string
POS = ["text", "text2", "set-style-value", "set-style-id", "style-id-ref-caption", "style-id-ref-node", "caption-style-value",
       "node-style-value", "node-style-value-nested", "lang", "lang-force", "style-prop", "caption-class-undefined",
       "node-class-undefined", "value-inline-layout"]
VALKEYS = ["color", "font-family", "font-size", "text-align", "display-align"]


def place(pos, s, key):
    """caption set with the string s at position pos"""
    from mc import build as B
    styles, items, cstyle, lang, force, opts, layout = {}, ["x"], None, "en", "", {}, None
    if pos == "text":
        items = [s]
    elif pos == "text2":
        items = [s, None, s, (True, {"italics": True}), s, (False, {"italics": True}), s]
    elif pos == "set-style-value":
        styles = {"k": {key: s}}
    elif pos == "set-style-id":
        styles = {s: {"color": "red"}, "zz": {"color": "red"}}
    elif pos == "style-id-ref-caption":
        styles, cstyle = {s: {"color": "red"}}, {"class": s}
    elif pos == "style-id-ref-node":
        styles = {s: {"color": "red"}}
        items = ["x", (True, {"class": s}), "y", (False, {"class": s})]
    elif pos == "caption-style-value":
        cstyle = {key: s}
    elif pos == "node-style-value":
        items = ["x", (True, {key: s}), "y", (False, {key: s})]
    elif pos == "node-style-value-nested":
        items = [(True, {"italics": True}), "x", (True, {key: s}), "y", None, "z", (False, {key: s}), (False, {"italics": True})]
    elif pos == "lang":
        lang = s
    elif pos == "lang-force":
        lang = force = s
    elif pos == "style-prop":
        styles = {"k": {key: "v", s: s}}
        cstyle = {"class": "k", s: s}
    elif pos == "caption-class-undefined":
        styles, cstyle = {"k": {"color": "red"}}, {"class": s}
    elif pos == "node-class-undefined":
        items = ["x", (True, {"class": s, key: "v"}), "y", (False, {"class": s, key: "v"})]
    elif pos == "value-inline-layout":
        lay = B.Layout(origin=B.Point(B.Size.from_string("10%"), B.Size.from_string("20%")), alignment=B.Alignment("center", "top"))
        items = [((True, {key: s}), lay), ("y", lay), ((False, {key: s}), lay)]
        cstyle = {key: s}
        opts = {"write_inline_positioning": True}
    langs = {lang: [B.cap(1000 * MS, 2000 * MS, items, style=cstyle, layout=layout), B.cap(3000 * MS, 4000 * MS, ["z"], style=cstyle)]}
    if pos.startswith("lang"):
        langs["xx"] = [B.cap(0, 1000 * MS, ["q"])]
    return B.cset(langs, styles=styles), force, opts


def run_place(w, pos, s, key, ctx):
    if not s.isprintable():
        return
    if pos in ("text", "text2") and not s.strip():
        pass
    cs, force, opts = place(pos, s, key)
    judge(w, cs, ctx, opts, force, input=dict(position=pos, string=s, key=key))


def keys_for(pos):
    return VALKEYS if ("value" in pos or pos == "style-prop" or pos == "node-class-undefined") else [VALKEYS[0]]


def run_chars(desc, ctx):
    w, pos, idx = desc
    s = "".join(TOKS[i] for i in idx)
    for key in keys_for(pos):
        run_place(w, pos, s, key, ctx)


def run_short(desc, ctx):
    w, pos, idx = desc
    s = "".join(CH[i] for i in idx)
    run_place(w, pos, s, VALKEYS[0], ctx)


def run_every_char(desc, ctx):
    """every printable character of the BMP and one plane above, 256 per case"""
    w, pos, block = desc
    for cp in range(block * 256, block * 256 + 256):
        if cp > 0x10ffff or 0xd800 <= cp < 0xe000 or not chr(cp).isprintable():
            continue
        run_place(w, pos, chr(cp), VALKEYS[0], ctx)


# ------------------------------------------------------------------ node structure
I = {"italics": True}
N_ITEMS = ["t", None, (True, I), (True, {}), (True, {"class": "k"}), (True, {"bold": True, "underline": True}), (True, {"color": "r", "text-align": "left"}),
           "END", (True, {"class": "k", "region": "bottom", "italics": True})]


def balanced(seq):
    """sequence over N_ITEMS -> items with matching end nodes, or None"""
    out, stack = [], []
    for i in seq:
        x = N_ITEMS[i]
        if x == "END":
            if not stack:
                return None
            out.append((False, stack.pop()))
        else:
            if isinstance(x, tuple):
                stack.append(x[1])
            out.append(x)
    return None if stack else out


def lay(i):
    from mc import build as B
    S = B.Size.from_string
    return [None,
            B.Layout(alignment=B.Alignment("start", "bottom")),
            B.Layout(origin=B.Point(S("10%"), S("20%"))),
            B.Layout(origin=B.Point(S("10%"), S("20%")), extent=B.Stretch(S("30%"), S("40%"))),
            B.Layout(alignment=B.Alignment("center", "top"), padding=B.Padding(S("1%"), S("2%"), S("3%"), S("4%"))),
            B.Layout(webvtt_positioning="align:left"),
            B.Layout(origin=B.Point(S("64px"), S("36px")), extent=B.Stretch(S("128px"), S("720px"))),
            B.Layout(extent=B.Stretch(S("200%"), S("300%")), origin=B.Point(S("90%"), S("95%"))),
            B.Layout(alignment=B.Alignment("right", None)),
            B.Layout(),
            B.Layout(padding=B.Padding(S("1em"), S("1c"), S("3pt"), S("4px")))][i]


NLAY = 11
OPTS = [{}, {"write_inline_positioning": True}, {"relativize": False}, {"fit_to_screen": False}, {"video_width": 640, "video_height": 360},
        {"relativize": False, "fit_to_screen": False}, {"video_width": 640, "video_height": 360, "write_inline_positioning": True},
        {"relativize": False, "fit_to_screen": False, "write_inline_positioning": True}]


def run_struct(desc, ctx):
    from mc import build as B
    w, seq, mode = desc
    items = balanced(seq)
    if not items:
        return
    nl = lay(2) if mode else None
    if mode == 1:
        its = [(x, lay(2) if isinstance(x, tuple) else lay(4)) for x in items]
    else:
        its = items
    caps = [B.cap(1000 * MS, 2000 * MS, its), B.cap(2000 * MS, 3000 * MS, ["n", (True, I), "m", (False, I)])]
    opts = {"write_inline_positioning": True} if mode == 1 else {}
    d = judge(w, B.cset({"en": caps}, styles={"k": {"color": "red"}}), ctx, opts, input=items)
    if d is None:
        return
    # the text itself survives in order
    got = ["".join(c.text.split()) for c in d.cues()[0][1]]
    want = ["".join(x for x in items if isinstance(x, str)), "nm"]
    if got != want:
        raise Mismatch("text of the paragraphs", input=items, expected=want, observed=got)


# ------------------------------------------------------------------ style tables and ids
SID = ["p", "default", "bottom", "r0", "r1", "k", "bottom0", "xml:id"]
SVAL = [None, {"color": "red"}, {}, {"lang": "en"}, {"italics": True, "class": "k"}, {"class": "k"}, {"class": "bottom", "font-size": "1c"},
        {"bold": True}]
REF = [None, {"class": "k r0", "classes": ["k", "r0"]}, {"class": "k"}, {"class": "bottom"}, {"class": "r0"}, {"class": "default"}, {"class": "p", "color": "x"}, {"region": "r0"}, {"class": "nope"},
       {"class": "r0 k"}, {"class": "bottom0"}, {"class": "", "color": "x"},
       {"class": "p nope bottom", "classes": ["p", "nope", "bottom"]}, {"class": "r1 bottom0 r1", "classes": ["r1", "bottom0", "r1"]}]


def run_ids(desc, ctx):
    from mc import build as B
    w, vals, ref, lo = desc
    styles = {sid: SVAL[v] for sid, v in zip(SID, vals) if v}
    cstyle = REF[ref]
    its = ["t"] if cstyle is None else ["t", (True, cstyle), "u", (False, cstyle)]
    caps = [B.cap(1000 * MS, 2000 * MS, its, style=cstyle, layout=lay((0, 2, 3, 4)[lo])),
            B.cap(3000 * MS, 4000 * MS, its, layout=lay((0, 3, 0, 2)[lo]))]
    judge(w, B.cset({"en": caps}, styles=styles), ctx, {}, input=dict(styles=styles, ref=cstyle, layout=lo))


# names that are not XML names, and names that look like an encoding of one
SNAMES = ["a b", "a_b", "a__b", "a-b", "a_x0020_b", "a_x005F_x0020_b", "a_x005f_x0020_b", "a_x20_b", "a_x0020b", "ax0020_b", "a%20b", "a b ", " a b", "a.b", "a:b", "a", "A",
          "1", "_1", "_x0031_", "_x31_", "x0031_", "_x0031", "-", "_x002D_", "_", "__", "_x005F_", "_x_", "", "_x0000_", "r", "\u00e9", "_x00E9_", "_x00e9_", "e", "\U0001f600", "_x1F600_", "\u4e2d\u6587"]


def run_names(desc, ctx):
    """two styles: every reference leads to the style it names"""
    from mc import build as B
    w, names = desc
    names = [SNAMES[i] for i in names]
    color = dict(zip(names, ["#010101", "#020202", "#030303"]))
    its, want = [], []
    for k, n in enumerate(names):
        its += [(True, {"class": n}), "abc"[k], (False, {"class": n})]
        want.append(("abc"[k], color[n]))
    caps = [B.cap(1000 * MS, 2000 * MS, its)] + [B.cap((3 + k) * 10 ** 6, (4 + k) * 10 ** 6, ["xyz"[k]], style={"class": n}) for k, n in enumerate(names)]
    want += [("xyz"[k], color[n]) for k, n in enumerate(names)]
    d = judge(w, B.cset({"en": caps}, styles={n: {"color": c} for n, c in color.items()}), ctx, {}, input=dict(styles=color))
    got = []
    for e in d.body.iter(refs.Q + "p", refs.Q + "span"):
        for t in (e.text or "").split():
            got.append((t, [x.get("{http://www.w3.org/ns/ttml#styling}color") for x in d.styles.get(e.get("style"), ())]))
    if got != [(t, [c]) for t, c in want]:
        raise Mismatch("style references", input=color, expected=want, observed=got)


# ------------------------------------------------------------------ layouts, options, languages
def run_layouts(desc, ctx):
    from mc import build as B
    w, si, li, ci, ti, ni, oi, fi, second = desc
    st = {"text-align": "left", "italics": True}
    its = [("t", lay(ti)), ((True, st), lay(ni)), ("u", lay(ni)), (None, lay(ti)), ("v", lay(ni)), ((False, st), lay(ni))]
    langs = {"en": [B.cap(1000 * MS, 2000 * MS, its, layout=lay(ci)), B.cap(2500 * MS, 2900 * MS, ["w"], layout=lay(ti))]}
    ll = {"en": lay(li)}
    if second:
        langs["fr"] = [B.cap(1000 * MS, 2000 * MS, ["f"], layout=lay(second % NLAY))] if second < NLAY + 1 else []
        ll["fr"] = lay(second % NLAY)
    force = ["", "en", "fr", "de"][fi]
    judge(w, B.cset(langs, layout=lay(si), list_layouts=ll), ctx, OPTS[oi], force, input=dict(desc=desc))


# ------------------------------------------------------------------ counts: languages x caption lists
T = [(0, 1), (1, 2), (0, 1), (1, 1), (0, 2)]


def run_counts(desc, ctx):
    from mc import build as B
    w, lists, force, styled = desc
    names = ["en", "fr-FR", "de"]
    langs = {}
    for n, seq in zip(names, lists):
        langs[n] = [B.cap(T[i][0] * 10 ** 6, T[i][1] * 10 ** 6, ["c%d" % j],
                          style={"color": "x"} if styled and j % 2 == 0 else None, layout=lay(2) if styled and j == 1 else None)
                    for j, i in enumerate(seq)]
    judge(w, B.cset(langs), ctx, {}, ["", "en", "fr-FR", "zz"][force], input=dict(lists=lists, force=force, styled=styled))


def counts(maxlen, three):
    one = list(seqs(4, 0, maxlen))
    for w in W3:
        for styled in (0, 1):
            yield w, (), 0, styled
            for a in one:
                for f in (0, 1, 2, 3):
                    yield w, (a,), f, styled
            small = list(seqs(3, 0, 2))
            for a in small:
                for b in small:
                    for f in (0, 1, 2, 3):
                        yield w, (a, b), f, styled
            if three:
                for a, b, c in itertools.product(list(seqs(2, 0, 2)), repeat=3):
                    for f in (0, 2, 3):
                        yield w, (a, b, c), f, styled


# ------------------------------------------------------------------ numbers of distinct layouts per language
def run_layout_counts(desc, ctx):
    from mc import build as B
    w, ns, shift, level, force, inline = desc
    names = ["en", "fr", "de"]
    S = B.Size.from_string

    def L(k):
        return B.Layout(origin=B.Point(S("%d%%" % (k + 1)), S("%d%%" % (k % 7))))

    langs, ll = {}, {}
    base = 0
    for n, k in zip(names, ns):
        lays = [L(base + j) for j in range(k)]
        langs[n] = []
        ll[n] = lays[0] if k and level == 2 else None
        for j, x in enumerate(lays or [None]):
            t = (j + 1) * 10 ** 6
            if level == 0:
                c = B.cap(t, t + 900000, ["c%d" % j], layout=x)
            elif level == 1:
                c = B.cap(t, t + 900000, [("c%d" % j, x), (None, x), ("d", lays[0] if lays else None)])
            else:
                c = B.cap(t, t + 900000, [("c%d" % j, x)], layout=lays[-1 - j] if lays else None)
            langs[n].append(c)
        base += max(0, k - shift)
    judge(w, B.cset(langs, list_layouts=ll), ctx, {"write_inline_positioning": True} if inline else {}, ["", "en", "fr", "de"][force], input=desc)


def layout_counts(q):
    for w in W3:
        for n in (1, 2, 3):
            for ns in itertools.product([0, 1, 2, 5, 11] if q else range(12), repeat=n):
                for shift in (0, 1, 3):
                    for level in range(3):
                        for force in range(n + 1):
                            for inline in (0, 1) if w != "legacy" else (0,):
                                if q and n == 3 and (inline or w != "dfxp"):
                                    continue
                                yield w, ns, shift, level, force, inline


# ------------------------------------------------------------------ sets returned by the readers
V = ["red", "a&b", "a<b", 'a"b', "a'b", "a>b", "&amp;", "a b", "é", "]]>", "-->", "<i>", "p", "bottom", "r0", "default", "&quot;", "'\"&<"]
XV = [v.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;") for v in V]


def dfxp_doc(slots):
    sid, sval, pref, pval, sref, sval2, lang, text, extra = slots
    return ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="%s"><head><styling>'
            '<style xml:id="%s" tts:color="%s"/><style xml:id="other" tts:textAlign="center"/></styling><layout>'
            '<region xml:id="reg" tts:textAlign="left" tts:displayAlign="before" tts:origin="10%% 20%%"/></layout></head>'
            '<body><div xml:lang="%s"><p begin="00:00:01.000" end="00:00:02.000" %s tts:fontFamily="%s">%s<span %s tts:fontSize="%s">in'
            '</span>out</p></div><div xml:lang="qq"><p region="reg" begin="3s" end="4s" style="%s">x</p></div></body></tt>') % (
        XV[lang], XV[sid], XV[sval], XV[lang], 'region="reg"' if extra else "", XV[pval], XV[text],
        'region="reg" style="%s"' % XV[sref] if extra else 'style="%s"' % XV[sref], XV[sval2], XV[pref])


def sami_doc(slots):
    cls, cval, pid, pval, spanc, spanv, lang, text, extra = slots
    c = ["ENCC", "a-b", "P1", "bottom", "r0", "p1", "default", "x_y"][cls % 8]
    l = ["en", "en-US", "fr", "de-DE"][lang % 4]
    cv = ["red", "#ff0000", "'a&b'", "\"x<y\"", "rgb(1,2,3)", "a\\26 b"][cval % 6]
    return ('<SAMI><HEAD><STYLE TYPE="text/css"><!-- P {margin-left: 1pt; font-family: %s;} .%s {Name: x; lang: %s; color: %s;} '
            '#%s {font-size: 10pt;} --></STYLE></HEAD><BODY><SYNC start="1000"><P class="%s" %s style="color:%s;font-family:%s">%s'
            '<span class="%s" style="font-size:%s;%s">in</span> out</P></SYNC><SYNC start="2000"><P class="%s">second <i>t</i></P></SYNC></BODY></SAMI>') % (
        cv, c, l, cv, "spk", c, ['', 'id="%s"' % XV[pid]][extra & 1], XV[pval], XV[pval], XV[text], XV[spanc], XV[spanv],
        ["", "text-align:right", "font-style:italic"][extra % 3], c)


def vtt_doc(slots):
    a, b, c, d, e, f, g, text, extra = slots
    return "WEBVTT\n\nSTYLE\n::cue(.%s) {color: %s}\n\n%s\n00:01.000 --> 00:02.000 %s\n<c.%s>%s</c> <v %s>%s</v> <i>it</i>\n\n00:03.000 --> 00:04.000\nx\n" % (
        V[a].replace("-->", ""), V[b].replace("-->", ""), V[c].replace("-->", "id"),
        ["", "align:left position:10%", "line:5%% position:%s" % "10%", "size:33%"][extra % 4], V[d].replace("-->", ""), V[text].replace("-->", ""),
        V[e].replace("-->", ""), V[f].replace("-->", ""))


def srt_doc(slots):
    a, b, c, d, e, f, g, text, extra = slots
    return "1\n00:00:01,000 --> 00:00:02,000\n%s\n<i>%s</i>\n\n2\n00:00:03,000 --> 00:00:04,000\n<font color=\"%s\">%s</font>{\\an8}%s\n" % (
        V[a].replace("-->", "x"), V[text].replace("-->", "x"), V[b].replace("-->", "x"), V[c], V[d])


def mdvd_doc(slots):
    a, b, c, d, e, f, g, text, extra = slots
    return "{1}{1}25\n{10}{20}{y:i}%s|%s\n{30}{40}%s\n{50}{60}{c:$0000ff}%s\n" % (V[a], V[text], V[b], V[c])


DOCS = {"dfxp": dfxp_doc, "sami": sami_doc, "vtt": vtt_doc, "srt": srt_doc, "mdvd": mdvd_doc}
NSLOT = [len(V)] * 8 + [12]


def run_reader(desc, ctx):
    from mc import build as B
    fmt, slots = desc
    doc = DOCS[fmt](slots)
    cs, e = ctx.call_exc(B.READERS[fmt]().read, doc)
    if e is not None:
        ctx.count("unreadable")
        return
    for w in W3:
        for oi in (0, 1):
            judge(w, cs, ctx, OPTS[oi], input=doc)
    judge("dfxp", cs, ctx, {}, cs.get_languages()[-1], input=doc)


SCC_WORDS = ["94ae", "9420", "9470", "9140", "91ae", "91ce", "9120", "c1c2", "2647", "bc3e", "97a1", "942f", "942c", "9425", "94ad", "9429", "9470", "2226",
             "1340", "a1bf", "94a1", "9137", "92a7"]


def run_scc(desc, ctx):
    from mc import build as B
    mode, idx = desc
    lead = [["94ae", "9420", "9470"], ["9425", "94ad", "9470"], ["9429", "9470"]][mode]
    tail = [["942c", "942f"], ["94ad"], []][mode]
    words = lead + [SCC_WORDS[i] for i in idx] + tail
    doc = "Scenarist_SCC V1.0\n\n00:00:01:00\t%s\n\n00:00:05:00\t942c 942f\n\n00:00:07:00\t94ae 9420 9470 c1c2 942f\n\n00:00:09:00\t942c\n" % " ".join(words)
    cs, e = ctx.call_exc(B.READERS["scc"]().read, doc)
    if e is not None:
        ctx.count("unreadable")
        return
    for w in W3:
        judge(w, cs, ctx, {}, input=doc)


# ------------------------------------------------------------------ sizes
def run_sizes(desc, ctx):
    """n styles (separate, chained forwards or backwards, or all on one element), n languages, n regions, n nodes or spans"""
    from mc import build as B
    w, k, n = desc
    T = 1000 * MS
    styles, langs = {}, {}
    if k < 3:
        for i in range(n):
            styles["s%d" % i] = {"color": "c%d" % i}
            j = i + 1 if k == 1 else i - 1
            if k and 0 <= j < n:
                styles["s%d" % i]["class"] = "s%d" % j
        langs["en"] = [B.cap((i + 1) * T, (i + 2) * T, ["a", (True, {"class": "s%d" % (n - 1 - i)}), "b", (False, {"class": "s%d" % (n - 1 - i)})], style={"class": "s%d" % i}) for i in range(n)]
    elif k == 3:
        styles = {"s%d" % i: {"color": "c%d" % i} for i in range(n)}
        c = {"class": "s0", "classes": sorted(styles)}
        langs["en"] = [B.cap(T, 2 * T, ["a", (True, c), "b", (False, c)], style=c)]
    elif k == 4:
        langs = {"l%d" % i: [B.cap(T, 2 * T, ["t%d" % i])] for i in range(n)}
    elif k == 5:
        S = B.Size.from_string
        L = lambda i: B.Layout(origin=B.Point(S("%d%%" % (i % 80)), S("%d.%d%%" % (i // 80, i % 10))))
        langs["en"] = [B.cap((i + 1) * T, (i + 2) * T, [("a", L(3 * i)), (None, L(3 * i + 1)), ("b", L(3 * i + 1))], layout=L(3 * i + 2)) for i in range(n)]
    elif k == 6:
        langs["en"] = [B.cap(T, 2 * T, sum([["w%d" % i, None] for i in range(n)], []))]
    else:
        langs["en"] = [B.cap(T, 2 * T, sum([[(True, {"italics": True}), "w%d" % i, (False, {"italics": True}), "x"] for i in range(n)], []))]
    judge(w, B.cset(langs, styles=styles), ctx, {}, input=desc)


def spaces(tier):
    q = tier == "quick"

    def every_char():
        for w in W3:
            for pos in ["text2", "node-style-value", "style-id-ref-node", "lang-force"]:
                for block in ([0, 1, 3, 5, 0x20, 0x30] if q else list(range(0, 0x100)) + list(range(0x1f0, 0x200))):
                    yield w, pos, block

    def struct():
        for s in seqs(len(N_ITEMS), 1, 4 if q else 6):
            n = sum(1 for i in s if isinstance(N_ITEMS[i], tuple))
            if balanced(s) is None:
                continue
            for w in W3:
                for mode in (0, 1):
                    yield w, s, mode

    def layouts():
        for v in devs([NLAY, NLAY, NLAY, NLAY, NLAY, len(OPTS), 4, NLAY + 2], 2 if q else 3):
            for w in W3 if sum(1 for x in v if x) <= (2 if q else 3) else ["dfxp"]:
                if w == "legacy" and v[5]:
                    continue
                yield (w,) + v

    def ids():
        for v in devs([len(SVAL)] * len(SID), 2 if q else 3):
            if q and any(v.count(x) > 1 and x not in (0, 1) for x in v):
                continue
            for ref in range(len(REF)):
                for lo in (range(4) if q or sum(1 for x in v if x) < 3 else (0, 3)):
                    for w in W3:
                        if q and (lo and w == "legacy" or sum(1 for x in v if x) > 1 and (lo not in (0, 3) or w == "single" or ref > 5)):
                            continue
                        yield w, v, ref, lo

    return [
        Space("tokens", "every position x every value key x all sequences of 1..%d of %d markup tokens x 3 writers" % (1 if q else 2, len(TOKS)),
              lambda: ((w, pos, s) for w in W3 for pos in POS for s in seqs(TOKS, 1, 1 if q else 2)), run_chars),
        Space("short-strings", "15 positions x all strings of length 0..%d over %d characters x 3 writers" % (2 if q else 3, len(CH)),
              lambda: ((w, pos, s) for w in W3 for pos in (POS if not q else ["text2", "node-style-value", "style-id-ref-caption", "lang-force", "caption-style-value"])
                       for s in seqs(CH, 0, 2 if q else 3)), run_short),
        Space("every-character", "every printable character of %s in 4 positions x 3 writers" % ("the blocks U+00-01, 03, 05, 20, 30xx" if q else "U+0000-FFFF and U+1F000-1FFFF"), every_char, run_every_char),
        Space("node-structure", "all balanced node sequences up to %d nodes over %d node kinds x 3 writers x with/without node layouts" % (4 if q else 6, len(N_ITEMS)), struct, run_struct),
        Space("style-ids", "style tables over 8 colliding ids with <= %d entries x 14 references (several classes too) x 4 layouts x 3 writers (quick: tables of 2 entries with 6 references, 2 layouts, 2 writers)" % (2 if q else 3), ids, run_ids),
        Space("style-names", "all ordered %s of %d style names (not XML names, or looking like an encoded one), referred to by captions and spans x 3 writers" % ("pairs" if q else "triples", len(SNAMES)),
              lambda: ((w, v) for w in W3 for v in itertools.permutations(range(len(SNAMES)), 2 if q else 3)), run_names),
        Space("layouts", "set/list/caption/node layouts from a pool of 11, 8 option sets, force, second language: <= %d deviations" % (2 if q else 3), layouts, run_layouts),
        Space("counts", "all caption-time lists up to length %d x 1-%d languages x force x styling x 3 writers" % (4 if q else 6, 2 if q else 3),
              lambda: counts(4 if q else 6, not q), run_counts),
        Space("layout-counts", "%s distinct layouts per language (disjoint or overlapping) x 1-3 languages x 3 levels x force x inline positioning x 3 writers"
              % ("0, 1, 2, 5 or 11" if q else "0..11"), lambda: layout_counts(q), run_layout_counts),
        Space("sizes", "1..24, 33, 64, 65, 100, 129 %sstyles (separate, chained, all on one element), languages, regions, lines or spans x 3 writers" % ("" if q else "and 257, 513 "),
              lambda: ((w, k, n) for w in W3 for k in range(8) for n in list(range(1, 25)) + [33, 64, 65, 100, 129] + ([] if q else [257, 513])), run_sizes),
        Space("read-sets", "documents of 5 readers with nasty strings in <= %d of 9 slots x 3 writers x inline positioning x force" % (1 if q else 2),
              lambda: ((f, v) for f in DOCS for v in devs(NSLOT, 1 if q else 2)), run_reader),
        Space("read-scc", "SCC documents: 3 modes x all sequences of %d of %d words" % (2 if q else 3, len(SCC_WORDS)),
              lambda: ((m, s) for m in range(3) for s in seqs(SCC_WORDS, 1, 2 if q else 3)), run_scc),
    ]
