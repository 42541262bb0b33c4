"""C04: text read = text a conformant consumer displays."""
import itertools

from mc import refs
from mc.core import Mismatch, Space, seqs

ASSUMPTIONS = [
    "SRT and MicroDVD have no escapes and no markup: what is written there is displayed ('|' is MicroDVD's line break)",
    "comparison per line after collapsing whitespace runs (a no-break space counts as whitespace) and dropping blank lines",
    "WebVTT: names of tags are case-sensitive; an unknown tag is one whose name is none of c i b u ruby rt v lang",
]

# (source, displayed); ("<name ...>", "") opens, ("</name>", "") closes: sequences are filtered for proper nesting
DFXP = [
    ("a", "a"), (" ", " "), ("b", "b"), ("\n    ", " "), ("<br/>", "\n"), ("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("lt;", "lt;"),
    ("<span>", ""), ('<span tts:fontStyle="italic">', ""), ("</span>", ""), ("&#60;", "<"), ("&#x3c;", "<"), ("&apos;", "'"), ("&quot;", '"'),
    ("&#38;", "&"), ("<!-- n -->", ""), ("<![CDATA[<i>&amp;]]>", "<i>&amp;"), ("#60;", "#60;"), ("\n", " "), ("\t", " "), ("&#xE9;", "\u00e9"), ("&#233;", "\u00e9"),
    ("\u4e2d", "\u4e2d"), ("amp;", "amp;"), ("'", "'"), ("<br />", "\n"), ("\r\n  ", " "), ("&#x1F600;", "\U0001f600"), ("&#160;", "\u00a0"), ("&#10;", " "), ("<br></br>", "\n"),
    ("&#x26;", "&"), ("<?pi x?>", ""), ("apos;", "apos;"), (">", ">"), ('<span tts:color="red" xml:id="x1">', ""), ("<!---->", ""), ("]]", "]]"),
]
SAMI = [
    ("a", "a"), (" ", " "), ("b", "b"), ("\n    ", " "), ("<br>", "\n"), ("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("lt;", "lt;"),
    ("<i>", ""), ("</i>", ""), ("<b>", ""), ("</b>", ""), ("&#60;", "<"), ("&#x3c;", "<"), ("&apos;", "'"), ("&quot;", '"'), ("&#38;", "&"), ("&nbsp;", "\u00a0"),
    ("<!-- n -->", ""), ("#60;", "#60;"), ("\n", " "), ("\t", " "), ("&#X41;", "A"), ("&#xE9;", "\u00e9"), ("&eacute;", "\u00e9"), ("&hellip;", "\u2026"),
    ("\u4e2d", "\u4e2d"), ("amp;", "amp;"), ("'", "'"), ("<BR/>", "\n"), ("\r\n  ", " "), ("&#x1F600;", "\U0001f600"), ("&#160;", "\u00a0"), ("<u>", ""), ("</u>", ""),
    ("& ", "& "), ("&foo ", "&foo "), (";>", ";>"), ('<span style="color:red;">', ""), ("</span>", ""), ("<I>", ""), ("</I>", ""), ("&#150;", "\u2013"),
    ("&lt;i&gt;", "<i>"), ('<font color="#ff0000">', ""), ("</font>", ""), (">", ">"), ("&#039;", "'"),
]
VTT = [
    ("a", "a"), (" ", " "), ("b", "b"), ("\n", "\n"), ("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("lt;", "lt;"), ("<i>", ""), ("</i>", ""), ("<v Mary>", "Mary: "), ("</v>", ""),
    ("<c>", ""), ("</c>", ""), ("<00:00:01.000>", ""), ("&nbsp;", "\u00a0"), ("&#60;", "<"), ("<b>", ""), ("</b>", ""), ("<u>", ""), ("</u>", ""), ("<c.red.big>", ""), ("<i.x>", ""),
    ("<lang en>", ""), ("</lang>", ""), ("<ruby>", ""), ("</ruby>", ""), ("<rt>", ""), ("</rt>", ""), ("<v.loud Mary Ann>", "Mary Ann: "), ("<v.a.b-c Bob>", "Bob: "),
    ("<foo>", "<foo>"), ("</foo>", "</foo>"), ("<bold>", "<bold>"), ("<cite>", "<cite>"), ("</cite>", "</cite>"), ("<video>", "<video>"), ("<I>", "<I>"), ("<rtl>", "<rtl>"), ("<language en>", "<language en>"),
    ("&lrm;", "\u200e"), ("&rlm;", "\u200f"), ("#60;", "#60;"), ("amp;", "amp;"), ("&#x3c;", "<"), ("&quot;", '"'), ("&apos;", "'"), ("&eacute;", "\u00e9"), ("&#38;", "&"),
    (">", ">"), ("'", "'"), ("\u4e2d", "\u4e2d"), ("<01:00:00.000>", ""), ("<00:01.000>", ""), ("& ", "& "), ("<v R&amp;D>", "R&D: "), ("-- ", "-- "), ("<v \u00c9mile>", "\u00c9mile: "),
    ("<lang.x en-GB>", ""), ("<v\tTab>", "Tab: "), ("<1>", "<1>"), ("<u.y>", ""),
]
SRT = [
    ("a", "a"), (" ", " "), ("\n", "\n"), ("&amp;", "&amp;"), ("&lt;", "&lt;"), ("<", "<"), (">", ">"), ("7", "7"), ("-", "-"), ("'", "'"), ('"', '"'), ("&", "&"), ("\u00e9", "\u00e9"),
    ("\u4e2d", "\u4e2d"), ("{", "{"), ("|", "|"), ("00:00:01,000", "00:00:01,000"), ("\t", " "), ("WEBVTT", "WEBVTT"), ("#60;", "#60;"), ("\u00a0", " "), ("\U0001f600", "\U0001f600"), ("\\", "\\"),
]
MDVD = [(s, d) if s not in ("|", "\n") else ("|", "\n") for s, d in SRT if s != "\n"]
ALPHA = {"dfxp": DFXP, "sami": SAMI, "vtt": VTT, "srt": SRT, "mdvd": MDVD}
FMT = ["dfxp", "sami", "vtt", "srt", "mdvd"]
CORE = {"dfxp": 12, "sami": 13, "vtt": 16, "srt": 9, "mdvd": 8}


def tag_name(src):
    if not src.startswith("<") or src.startswith(("<br", "<BR", "<!", "<?")):
        return None
    n = ""
    for c in src.strip("<>/"):
        if not c.isalpha():
            break
        n += c
    return n


def nested(fmt, toks):
    """properly nested (tags that show up literally and WebVTT timestamps do not count)"""
    st = []
    for s, d in toks:
        n = tag_name(s)
        if n is None or n == "" or (d and not d.endswith(": ")):
            continue
        n = n.lower() if fmt == "sami" else n
        if s.startswith("</"):
            if not st or st[-1] != n:
                return False
            st.pop()
        else:
            if fmt == "sami" and n in st:
                return False
            st.append(n)
    # WebVTT allows the voice span to stay open to the end of the cue
    return not st or (fmt == "vtt" and st == ["v"] and sum(1 for s, d in toks if s.startswith("<v")) == 1 and not any(s == "</v>" for s, d in toks))


def display(toks):
    return refs.norm_lines("".join(d for s, d in toks))


def admissible(fmt, toks):
    src = "".join(s for s, d in toks)
    if not display(toks) or not nested(fmt, toks):
        return False
    if fmt == "vtt":
        if "-->" in src or any(l == "" for l in src.split("\n")):
            return False
        # rt only inside ruby is meaningful, but harmless elsewhere
    if fmt == "srt":
        if any(l.strip() == "" for l in src.split("\n")):
            return False
    if fmt == "dfxp":
        if "]]>" in src.replace("]]>", "", src.count("<![CDATA[")):
            return False
        if src.count("<span tts:color") > 1:
            return False
    if fmt == "sami":
        # two tokens must not form a third thing
        if src.count("& ") != sum(1 for s, d in toks if s == "& "):
            return False
    # tokens must not fuse into a reference or a tag that no token stands for
    ok = 0
    for i, (s, d) in enumerate(toks[:-1]):
        n = toks[i + 1][0]
        if s.endswith("&") and fmt not in ("srt", "mdvd"):
            return False
    return True


def ts(k, fmt):
    if fmt in ("srt", "vtt", "dfxp"):
        h, r = divmod(k, 3600)
        m, s = divmod(r, 60)
        return "%02d:%02d:%02d%s000" % (h, m, s, "," if fmt == "srt" else ".")
    return str(k * (25 if fmt == "mdvd" else 1000))


def document(fmt, bodies, variant=0):
    if fmt == "dfxp":
        ps = ['%s<p begin="%s" end="%s">%s</p>' % (("      ", "\n", "")[variant], ts(i + 1, fmt), ts(i + 2, fmt), b) for i, b in enumerate(bodies)]
        sep = ("\n", "\n\n", "")[variant]
        return ('<?xml version="1.0" encoding="utf-8"?>\n<tt xml:lang="en" xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling">'
                "<head></head><body><div>%s%s%s</div></body></tt>" % (sep, sep.join(ps), sep))
    if fmt == "sami":
        close = ("</P></SYNC>", "", "</P>")[variant]
        ps = ["<SYNC Start=%s><P Class=ENCC>%s%s" % (ts(i + 1, fmt), b, close) for i, b in enumerate(bodies)]
        return ('<SAMI><HEAD><STYLE TYPE="text/css"><!--\nP {margin-left: 1pt;}\n.ENCC {Name: English; lang: en-US; SAMI_Type: CC;}\n--></STYLE></HEAD>\n<BODY>\n%s\n</BODY></SAMI>'
                % "\n".join(ps))
    if fmt == "vtt":
        return "WEBVTT\n\n" + "\n\n".join("%s --> %s\n%s" % (ts(i + 1, fmt), ts(i + 2, fmt), b) for i, b in enumerate(bodies)) + ("\n", "", "\n\n")[variant]
    if fmt == "srt":
        return "\n\n".join("%d\n%s --> %s\n%s" % (i + 1, ts(i + 1, fmt), ts(i + 2, fmt), b) for i, b in enumerate(bodies)) + ("\n", "", "\n\n")[variant]
    return "\n".join("{%s}{%s}%s" % (ts(i + 1, fmt), ts(i + 2, fmt), b) for i, b in enumerate(bodies)) + ("\n", "", "\n\n")[variant]


def read(fmt, doc, ctx):
    from mc import build as B
    cs = ctx.call(B.READERS[fmt]().read, doc)
    langs = cs.get_languages()
    if len(langs) != 1:
        raise Mismatch("languages %r" % langs, doc[:3000])
    caps = cs.get_captions(langs[0])
    return [(refs.norm_lines(B.node_text(c.nodes)), refs.norm_lines(c.get_text())) for c in caps]


def judge(fmt, seqs_, ctx, variant=0):
    seqs_ = [t for t in seqs_ if admissible(fmt, t)]
    if not seqs_:
        return
    want = [display(t) for t in seqs_]
    doc = document(fmt, ["".join(s for s, d in t) for t in seqs_], variant)
    ctx.step(len(seqs_))
    try:
        got = read(fmt, doc, ctx)
    except Mismatch as m:
        if len(seqs_) == 1:
            raise
        for t in seqs_:
            judge(fmt, [t], ctx, variant)
        m.input = doc[:3000]
        raise
    if [g[0] for g in got] == want and [g[1] for g in got] == want:
        return
    if len(seqs_) > 1:
        for t in seqs_:
            judge(fmt, [t], ctx, variant)
    raise Mismatch("%s: text differs" % fmt, ["".join(s for s, d in seqs_[0]) if len(seqs_) == 1 else len(seqs_), doc[:3000]], want[:5], got[:5])


def run_tokens(desc, ctx):
    f, pre, core, variant = desc
    fmt = FMT[f]
    alpha = ALPHA[fmt][:CORE[fmt]] if core else ALPHA[fmt]
    ctx.state(desc)
    n = len(alpha)
    ls = [[alpha[i] for i in pre + (k,)] for k in range(n)]
    if core == 2:
        ls = [[alpha[i] for i in pre + kk] for kk in itertools.product(range(n), repeat=2)]
    judge(fmt, ls, ctx, variant)


def tok(fmt, src):
    return next(t for t in ALPHA[fmt] if t[0] == src)


# ---- wrapping: words separated by every kind of source white space, with markup between them
SEPS = {
    "dfxp": [" ", "\n", "\n      ", "  \n  ", "\r\n\t", "\t", " <br/> ", "<br/>\n    ", "\n    <br/>", "\n<!-- x -->\n", " <span>", "</span> ", "\n  <span tts:fontWeight=\"bold\">", "</span>\n  ", "<span>\n  ", "\n  </span>"],
    "sami": [" ", "\n", "\n      ", "  \n  ", "\r\n\t", "\t", " <br> ", "<br/>\n    ", "\n    <br>", "\n<!-- x -->\n", " <i>", "</i> ", "\n  <i>", "</i>\n  ", "<i>\n  ", "\n  </i>"],
}
SEPD = [" ", " ", " ", " ", " ", " ", "\n", "\n", "\n", " ", " ", " ", " ", " ", " ", " "]


def run_wrap(desc, ctx):
    """lead word sep word sep word sep word trail"""
    f, lead, trail, pat, variant = desc
    fmt = FMT[f]
    seps = SEPS[fmt]
    ctx.state(desc)
    ls = []
    for last in range(len(seps)):
        t = [(["", "\n      ", " ", "\n\n"][lead], " "), ("one", "one")]
        opened = 0
        ok = True
        for j, k in enumerate(pat + (last,)):
            s = seps[k]
            if k in (10, 12, 14):
                ok &= not opened
                opened = 1
            elif k in (11, 13, 15):
                ok &= bool(opened)
                opened = 0
            t += [(s, SEPD[k]), (("two", "two"), ("three", "three"), ("four", "four"), ("five", "five"))[j]]
        if opened:
            t.append(("</span>" if fmt == "dfxp" else "</i>", ""))
        t.append((["", "\n      ", " ", "\n\n"][trail], " "))
        if ok:
            ls.append(t)
    # the pieces carry their own markup: no nesting filter needed
    if not ls:
        return
    want = [display(t) for t in ls]
    doc = document(fmt, ["".join(s for s, d in t) for t in ls], variant)
    ctx.step(len(ls))
    got = read(fmt, doc, ctx)
    for k, (w, g) in enumerate(itertools.zip_longest(want, got)):
        if g is None or w is None or g[0] != w or g[1] != w:
            raise Mismatch("%s: caption %d reads %r, displays %r" % (fmt, k, g, w), ["".join(s for s, d in ls[k]) if k < len(ls) else None, doc[:2000]], w, g)


def run_nest(desc, ctx):
    """markup trees: every sequence of open/close/text/break tokens of one format, properly nested"""
    f, pre, n = desc
    fmt = FMT[f]
    alpha = NEST[fmt]
    ctx.state(desc)
    ls = []
    for rest in itertools.product(range(len(alpha)), repeat=n):
        t = [alpha[i] for i in pre + rest]
        ls.append(t)
    for i in range(0, len(ls), 200):
        judge(fmt, ls[i:i + 200], ctx)


NEST = {
    "dfxp": [("a", "a"), ("<br/>", "\n"), ("<span>", ""), ('<span tts:fontStyle="italic">', ""), ("</span>", ""), (" ", " "), ("&lt;", "<")],
    "sami": [("a", "a"), ("<br>", "\n"), ("<i>", ""), ("</i>", ""), ("<b>", ""), ("</b>", ""), ("<span style=\"color:red\">", ""), ("</span>", ""), ("&lt;", "<")],
    "vtt": [("a", "a"), ("\n", "\n"), ("<i>", ""), ("</i>", ""), ("<c.x>", ""), ("</c>", ""), ("<v Al>", "Al: "), ("</v>", ""), ("&lt;", "<")],
}

# every named / numeric reference
NUMS = list(range(32, 127)) + [160, 169, 233, 0x2013, 0x2026, 0x4e2d, 0x1f600]


def run_refs(desc, ctx):
    f, form, lo = desc
    fmt = FMT[f]
    ctx.state(desc)
    import html.entities as he
    toks = []
    if form < 4:
        for n in NUMS[lo:lo + 60]:
            toks.append((["&#%d;", "&#x%x;", "&#x%X;", "&#0%d;"][form] % n, chr(n)))
    elif fmt != "dfxp":
        names = sorted(k for k in he.name2codepoint if k not in ("lang", "rang"))[lo:lo + 60]
        toks = [("&%s;" % k, chr(he.name2codepoint[k])) for k in names]
    ls = [[("x", "x"), t, ("y", "y")] for t in toks] + [[t, ("lt;", "lt;")] for t in toks] + [[("&amp;", "&"), (t[0][1:], t[0][1:])] for t in toks]
    judge(fmt, ls, ctx)


def run_unknown(desc, ctx):
    """SAMI references by names HTML 4 does not know"""
    name, shown, pre, post = desc
    ctx.state(desc)
    body = pre + "&" + name + ";" + post
    pre, post = pre.replace("&amp;", "&"), post.replace("&lt;", "<")
    doc = document("sami", ["x" + body + "y"])
    ctx.step()
    got = read("sami", doc, ctx)
    exp = refs.norm_lines("x" + pre + shown + post + "y")
    if got == [(exp, exp)]:
        return
    pinned = refs.norm_lines("x" + pre + "&" + name + post + "y")
    raise Mismatch("sami: &%s; reads %r" % (name, got), doc, exp, got, key="sami-html5-names" if got == [(pinned, pinned)] else None)


def run_punct(desc, ctx):
    """a line end between a tag and a punctuation mark"""
    f, sep, mark, tail = desc
    fmt = FMT[f]
    o, c = ("<span>", "</span>") if fmt == "dfxp" else ("<i>", "</i>")
    body = ["one" + o + "two\n   " + c + mark, "one" + o + "two" + c + "\n   " + mark, "one\n   " + o + mark + c, o + "one\n  two" + c + "\n  " + mark][sep] + ["", " three", "\nthree"][tail]
    shown = ["onetwo " + mark, "onetwo " + mark, "one " + mark, "one two " + mark][sep] + ["", " three", " three"][tail]
    ctx.state(desc)
    doc = document(fmt, [body])
    ctx.step()
    got = read(fmt, doc, ctx)
    exp = refs.norm_lines(shown)
    if got == [(exp, exp)]:
        return
    pinned = refs.norm_lines(shown.replace(" " + mark, mark))
    raise Mismatch("%s: %r reads %r" % (fmt, body, got), doc, exp, got, key="wrapped-punctuation" if got == [(pinned, pinned)] and mark in ",.;:!?" else None)


MARKS = ",.;:!?-)([]{}'\"%/*+=_$#@~^`|\\\u2019\u201c\u2026\u00bf\u00ab\u3002"
NAME_CHARS = "abcdegiklnprtuvyCIB01_-"
KNOWN_TAGS = ("c", "i", "b", "u", "ruby", "rt", "lang")


def tag_names():
    names = {a + b for a in NAME_CHARS for b in ("",) + tuple(NAME_CHARS)}
    for k in KNOWN_TAGS + ("v",):
        for i in range(len(k) + 1):
            names.update(k[:i] + c + k[i:] for c in NAME_CHARS)
            names.add(k[:i] + k[i + 1:])
            names.update(k[:i] + c + k[i + 1:] for c in NAME_CHARS)
    return sorted(n for n in names if n and n != "v" and "--" not in n)  # (an arrow is not cue text)


def run_tag_names(desc, ctx):
    """only the tags WebVTT knows vanish; the name ends at white space, '.', '/' or '>'"""
    name, end, tail = desc
    if end and tail not in (0,):
        return
    ctx.state(desc)
    tag = "<%s%s%s>" % ("/" if end else "", name, ("", ".x", " x", "\tx", ".x.y z")[tail])
    body = "one %stwo" % tag + ("" if end or name not in KNOWN_TAGS else "</%s>" % name)
    if end and name in KNOWN_TAGS:
        body = "<%s>" % name + body
    exp = refs.norm_lines("one two" if name in KNOWN_TAGS else "one %stwo" % tag)
    doc = document("vtt", [body])
    ctx.step()
    got = read("vtt", doc, ctx)
    if got != [(exp, exp)]:
        raise Mismatch("vtt: %r reads %r" % (body, got), doc, exp, got)


# ------------------------------------------------------------------ sizes
SIZES = list(range(1, 41)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]


def run_sizes(desc, ctx):
    """texts of n pieces of one kind with words between them: references, breaks, tags, wrapped lines"""
    f, k, n, v = desc
    fmt = FMT[f]
    ctx.state(desc)
    br = {"dfxp": "<br/>", "sami": "<br>", "mdvd": "|"}.get(fmt, "\n")
    ref = fmt in ("dfxp", "sami", "vtt")
    if k == 0:
        t = [("w%d " % i, "w%d " % i) for i in range(n)]
    elif k == 1:
        t = sum([[("w%d" % i, "w%d" % i), (br, "\n")] for i in range(n)], [])[:-1]
    elif k == 2:
        if not ref:
            return
        t = sum([[("w%d" % i, "w%d" % i), ("&amp;", "&"), ("&lt;", "<"), ("lt;", "lt;")] for i in range(n)], [])
    elif k == 3:
        if not ref:
            return
        o, c = {"dfxp": ('<span tts:fontStyle="italic">', "</span>"), "sami": ("<i>", "</i>"), "vtt": ("<i>", "</i>")}[fmt]
        t = sum([[(o, ""), ("w%d" % i, "w%d" % i), (c, ""), (" ", " ")] for i in range(n)], [])
    elif k == 4:
        if fmt not in ("dfxp", "sami"):
            return
        t = sum([[("w%d" % i, "w%d" % i), ("\n      ", " ")] for i in range(n)], [])[:-1]
    else:
        t = [("xy" * n, "xy" * n)]
    judge(fmt, [[("b", "b")], t, [("e", "e")]], ctx, v)
    ctx.outcome(desc)


def spaces(tier):
    q = tier == "quick"
    N = [len(ALPHA[f]) for f in FMT]
    C = [CORE[f] for f in FMT]
    return [
        Space("tokens-2", "all sequences of <= 2 tokens (references, markup, white space, literals; %s per format) x 3 document variants x 5 formats" % N,
              lambda: ((f, p, 0, v) for f in range(5) for v in range(3) for p in seqs(N[f], 0, 1)), run_tokens),
        Space("tokens-3", "all sequences of 3 tokens x 5 formats%s" % ("" if q else " (all variants)"),
              lambda: ((f, p, 0, v) for f in range(5) for v in ((0,) if q else range(3)) for p in seqs(N[f], 2, 2)), run_tokens),
        Space("core-4", "all sequences of %d core tokens (%s per format) x 5 formats" % (4 if q else 5, C),
              lambda: ((f, p, 2, 0) for f in range(5) for p in seqs(C[f], 2 if q else 3, 2 if q else 3)), run_tokens),
        Space("wrapping", "2-%d words with every separator (white space, breaks, comments, span boundaries) between them x 4 leads x 4 tails x {DFXP, SAMI}" % (4 if q else 5),
              lambda: ((f, l, t, p, v) for f in (0, 1) for l in range(4) for t in range(4) for v in range(3) for p in seqs(16, 0, 1 if v or l or t else (2 if q else 3))), run_wrap),
        Space("markup-trees", "all properly nested token sequences of length <= %d x {DFXP, SAMI, WebVTT}" % (6 if q else 7),
              lambda: ((f, p, n) for f in range(3) for p, n in itertools.chain([((), k) for k in (1, 2, 3)],
                       ((x, 3) for x in seqs(len(NEST[FMT[f]]), 1, 2 if q else 3)), ((x, 4) for x in seqs(len(NEST[FMT[f]]), 2, 2 if q else 3)))), run_nest),
        Space("references", "decimal/hex/HEX/zero-padded references to %d code points and all 252 HTML names, alone, followed by 'lt;', behind '&amp;'" % len(NUMS),
              lambda: ((f, form, lo) for f in range(3) for form in range(5) for lo in range(0, 250 if form == 4 else len(NUMS), 60)), run_refs),
        Space("sizes", "1..40 and larger numbers up to %d of words, lines, references, spans, wrapped lines or characters in one text x 3 variants x 5 formats" % (1001 if q else 4097),
              lambda: ((f, k, n, v) for f in range(5) for k in range(6) for n in SIZES for v in range(3) if not q or n <= 257 or (n <= 1001 and v == 0)), run_sizes),
        Space("unknown-names", "10 reference names HTML 4 does not know x neighbours (SAMI)",
              lambda: ((n, d, a, b) for n, d in UNKNOWN for a in ("", " ", "&amp;", ";") for b in ("", " ", ";", "&lt;")), run_unknown),
        Space("wrapped-punctuation", "line end between a tag and each of %d punctuation marks x 4 positions x 3 tails x {DFXP, SAMI}" % len(MARKS),
              lambda: ((f, s, m, t) for f in (0, 1) for s in range(4) for m in MARKS for t in range(3)), run_punct),
        Space("vtt-tag-names", "WebVTT tags of every name of one and two characters of %d, and of every name at one edit from the known ones, start and end, x 5 endings" % len(NAME_CHARS),
              lambda: ((n, e, t) for n in tag_names() for e in (0, 1) for t in range(5)), run_tag_names),
    ]


UNKNOWN = [("foo", "&foo;"), ("starf", "\u2605"), ("check", "\u2713"), ("Foo1", "&Foo1;"), ("hearts2", "&hearts2;"), ("lbrace", "{"), ("comma", ","), ("x", "&x;"), ("phone", "\u260e"), ("zwsp", "&zwsp;")]
