"""C20: format detection is total, agrees with the readers' own detect in the documented order, and recognises pycaption's own output."""
import itertools
import re

from mc import pool
from mc.core import Mismatch, Space, prod, seqs

ASSUMPTIONS = [
    "texts of written sets consist of printable characters and do not contain another format's marker: </tt>, {digits}{digits}, WEBVTT, <sami, -->, Scenarist_SCC",
    "a set without any visible text (or an SRT/MicroDVD output that is empty) may be answered with CaptionReadNoCaptions",
    "SCC output: caption sets within what SCC can carry (lines of printable ASCII of at most 32 characters, captions far enough apart)",
]
ORDER = ["dfxp", "mdvd", "vtt", "sami", "srt", "scc"]
US = 1000000


def B():
    from mc import build
    return build


_OWN = {}


def own():
    if not _OWN:
        for n in ORDER:
            _OWN[n] = B().READERS[n]()
    return _OWN


def check_detect(s, ctx, readers=None):
    """the statement for one string; -> name of the format"""
    import pycaption
    from pycaption.exceptions import CaptionReadNoCaptions
    b = B()
    ctx.executions += 7
    if s == "":
        r, e = ctx.call_exc(pycaption.detect_format, s)
        if not isinstance(e, CaptionReadNoCaptions):
            raise Mismatch("the empty string", s, "CaptionReadNoCaptions", repr(e) if e else repr(r))
        return None
    verdicts = []
    for n in ORDER:
        try:
            verdicts.append(bool((own()[n] if readers is None else readers[n]()).detect(s)))
        except Exception as e:
            raise Mismatch("%s.detect raises %s: %s" % (b.READERS[n].__name__, type(e).__name__, e), s)
    try:
        got = pycaption.detect_format(s)
    except Exception as e:
        raise Mismatch("detect_format raises %s: %s" % (type(e).__name__, e), s)
    want = next((n for n, v in zip(ORDER, verdicts) if v), None)
    if got is not (b.READERS[want] if want else None):
        raise Mismatch("detect_format against the readers' own detect", s, want, repr(got))
    ctx.outcome(tuple(verdicts))
    return want


CH = ["1", "\n", "x", " ", "-->", "{1}", "{", "}", "</tt>", "WEBVTT", "<sami", "Scenarist_SCC V1.0", "0", "\r", "\t", "<", "12", "00:00:01,000 --> 00:00:02,000", "\u00b2", "\x85", "\ufeff", "-",
      "</TT>", "webvtt", "\x0c", "\u0663", "\x00", "<SAMI>", ">"]


def run_short(desc, ctx):
    n, m, pre = desc
    alpha = CH[:m]
    head = "".join(alpha[i] for i in pre)
    for tail in itertools.product(alpha, repeat=n - len(pre)):
        check_detect(head + "".join(tail), ctx)
    ctx.step(m ** (n - len(pre)))
    ctx.state(desc)


RAW = "1\n{}-><s0W /t\r:,."


def run_chars(desc, ctx):
    n, pre = desc
    head = "".join(RAW[i] for i in pre)
    for tail in itertools.product(RAW, repeat=n - len(pre)):
        check_detect(head + "".join(tail), ctx)
    ctx.step(len(RAW) ** (n - len(pre)))
    ctx.state(desc)


_DOCS = []


def docs():
    """valid documents of every format: the pool's, and every writer's output for a few sets"""
    if not _DOCS:
        out = [pool.SRT, pool.VTT, pool.MDVD, pool.MDVD2, pool.DFXP, pool.DFXP2, pool.SAMI, pool.SAMI2, pool.SAMI3, pool.SCC, pool.SCC_ROLL, pool.SCC_PAINT, pool.SCC_OPEN]
        b = B()
        for make in (pool.simple, pool.styled, pool.langs):
            for w in ("srt", "vtt", "mdvd", "dfxp", "legacy", "single", "sami"):
                out.append(b.WRITERS[w]().write(make()))
        out.append(b.WRITERS["scc"]().write(b.cset({"en": [b.cap(5 * US, 7 * US, "hello"), b.cap(9 * US, 12 * US, "there\nyou")]})))
        out += ["\u4f60\u597d" + d for d in (pool.SRT, pool.VTT, pool.SCC)] + ["\ufeff" + d for d in (pool.SRT, pool.MDVD, pool.SCC)]
        out += [d.replace("\n", "\r\n") for d in (pool.SRT, pool.SCC, pool.MDVD)] + [d.replace("\n", "\r") for d in (pool.SRT, pool.SCC)]
        _DOCS.extend(out)
    return _DOCS


def run_trunc(desc, ctx):
    """every prefix and every suffix, in characters and in UTF-8 bytes"""
    d, block = desc
    doc = docs()[d]
    raw = doc.encode("utf-8")
    for k in range(block * 64, min((block + 1) * 64, len(raw) + 1)):
        seen = {doc[:k], doc[k:], raw[:k].decode("utf-8", "ignore"), raw[k:].decode("utf-8", "ignore"), raw[:k].decode("utf-8", "replace")}
        for s in sorted(seen):
            check_detect(s, ctx)
        ctx.step(len(seen))
    ctx.state(desc)


def run_edit(desc, ctx):
    """one character replaced, removed or inserted anywhere in the first 70 and last 30 characters"""
    d, k = desc
    doc = docs()[d]
    if k >= 70:
        k = len(doc) - (k - 69)
    if not 0 <= k < len(doc):
        return
    for c in ["", "1", "\n", " ", "x", "{", "\r", "<", "\ufeff"]:
        check_detect(doc[:k] + c + doc[k + 1:], ctx)
        check_detect(doc[:k] + c + doc[k:], ctx)
    check_detect(doc[:k] + doc[k:].swapcase(), ctx)
    ctx.step(19)
    ctx.state(desc)


def run_combine(desc, ctx):
    """documents one after the other: several markers at once"""
    a, c, g = desc
    glue = ["", "\n", "\n\n", " "][g]
    check_detect(docs()[a] + glue + docs()[c], ctx)
    check_detect(docs()[a][:25] + glue + docs()[c], ctx)
    ctx.state(desc)


def run_fresh(desc, ctx):
    """fresh readers for every question, and the same question twice"""
    a, c = desc
    import pycaption
    for s in (docs()[a], docs()[c][:30], docs()[c]):
        first = check_detect(s, ctx, B().READERS)
        for _ in range(2):
            if pycaption.detect_format(s) is not (B().READERS[first] if first else None):
                raise Mismatch("the same string is answered differently the second time", s)
    ctx.state(desc)


# ------------------------------------------------------------------ pycaption's own output
FMT = {"srt": "srt", "vtt": "vtt", "dfxp": "dfxp", "legacy": "dfxp", "single": "dfxp", "sami": "sami", "mdvd": "mdvd", "scc": "scc"}
MARK = {"dfxp": r"(?i)</tt>", "mdvd": r"\{\d+\}\{\d+\}", "vtt": r"WEBVTT|-->", "sami": r"(?i)<sami", "srt": r"-->", "scc": r"Scenarist_SCC"}


def in_domain(w, text):
    """no marker of another format in the text"""
    return not any(re.search(p, text) for f, p in MARK.items() if f != FMT[w] and not (f in ("srt", "vtt") and FMT[w] in ("srt", "vtt") and "-->" in text and "WEBVTT" not in text))


def written(cs, w, wargs):
    """the languages that the writer writes"""
    ls = cs.get_languages()
    if w == "vtt":
        return ls[:1]
    force = (wargs or {}).get("force")
    return [force] if force in ls else ls


def visible(cs, w=None, wargs=None):
    """some text that the format can show (MicroDVD: '|' is its line break)"""
    return any(n.type_ == n.TEXT and (n.content.replace("|", "") if w == "mdvd" else n.content).strip() for l in written(cs, w, wargs) for c in cs.get_captions(l) for n in c.nodes)


def check_output(w, cs, ctx, inp, opts=None, wargs=None):
    from pycaption.exceptions import CaptionReadNoCaptions, RelativizationError
    b = B()
    see = visible(cs, w, wargs)
    frames0 = w == "mdvd" and any(int(c.start * 25 // US) == 0 == int(c.end * 25 // US) for l in cs.get_languages() for c in cs.get_captions(l))
    no_cc = w == "sami" and "no closed captioning available" in b_text(cs).lower()
    doc, e = ctx.call_exc(b.WRITERS[w](**(opts or {})).write, cs, **(wargs or {}))
    if e is not None:
        if isinstance(e, RelativizationError) or isinstance(e, ValueError) and (opts or {}).get("relativize") is False:
            ctx.count("refused")
            return
        raise Mismatch("writer raises %s: %s" % (type(e).__name__, e), (w, inp))
    if doc == "":
        if see and any(len(cs.get_captions(l)) for l in cs.get_languages()):
            raise Mismatch("empty output for a set with text", (w, inp))
        return
    got = check_detect(doc, ctx)
    if got != FMT[w]:
        raise Mismatch("output of the %s writer is detected as %s" % (w, got), (w, inp), FMT[w], doc)
    key = "microdvd-frame-zero" if frames0 else None
    r, e = ctx.call_exc(b.READERS[got]().read, doc)
    if e is not None:
        if no_cc and "no closed captioning available" in str(e):
            key = "sami-no-cc-text"
        if isinstance(e, CaptionReadNoCaptions) and not see:
            return
        raise Mismatch("the detected reader cannot read the document: %s: %s" % (type(e).__name__, e), (w, inp), "captions", doc, key)
    if see and not visible(r):
        raise Mismatch("the detected reader reads no text", (w, inp), "captions", doc, key)


def b_text(cs):
    return "\n".join(B().node_text(c.nodes) for l in cs.get_languages() for c in cs.get_captions(l))


TXT = ["a", "1", "42", " ", "<", ">", "&", "</tt>", "<tt>", "{1}{2}", "{0}{0}", "{", "WEBVTT", "<sami", "</SAMI>", "Scenarist_SCC V1.0", "-->", "--", ">", "|", "&lt;", "00:00:01,000", "\u00e9", "\u4f60",
       "'", '"', "\ufe0f", "NOTE", "<html", "no closed captioning available", "]]>", "<!--", "<i>x</i>", "&nbsp;", "\u00a0", "%", "25.0", "\U0001f600", "WebVTT", "<p>", "\u0301", "STYLE"]


def run_text(desc, ctx):
    w, seq = desc
    text = "".join(TXT[i] for i in seq)
    if not in_domain(w, text):
        ctx.count("other_markers")
        return
    b = B()
    for k, cs in enumerate([b.cset({"en-US": [b.cap(US, 2 * US, [text])]}),
                            b.cset({"en-US": [b.cap(US, 2 * US, ["x"]), b.cap(2 * US, 3 * US, [text, None, text]), b.cap(4 * US, 5 * US, [TXT[i] for i in seq])]})]):
        check_output(w, cs, ctx, (text, k))
    ctx.state(desc)


def run_text_split(desc, ctx):
    """the text spread over nodes and lines, so that markers appear across nodes"""
    w, seq, how = desc
    items = []
    for j, i in enumerate(seq):
        if j:
            items += [[None], [(True, {"italics": True}), "", (False, {"italics": True})], []][how]
        items.append(TXT[i])
    if not in_domain(w, "".join(TXT[i] for i in seq)):
        ctx.count("other_markers")
        return
    b = B()
    check_output(w, b.cset({"en": [b.cap(0, 3 * US, items)]}), ctx, items)
    ctx.state(desc)


OPTS = {"srt": [({}, {})], "mdvd": [({}, {})], "legacy": [({}, {}), ({}, {"force": "fr"})],
        "vtt": [({}, {}), ({"video_width": 640, "video_height": 360}, {}), ({"relativize": False, "fit_to_screen": False}, {})],
        "dfxp": [({}, {}), ({"video_width": 640, "video_height": 360}, {}), ({"write_inline_positioning": True}, {}), ({"relativize": False, "fit_to_screen": False}, {"force": "fr"})],
        "single": [({}, {}), ({"video_width": 640, "video_height": 360}, {"force": "en"})],
        "sami": [({}, {}), ({"video_width": 640, "video_height": 360}, {}), ({"relativize": False, "fit_to_screen": False}, {})]}


def run_sets(desc, ctx):
    w, o, s = desc
    if o >= len(OPTS[w]):
        return
    if pool.NAMES[s] in ("bad_content", "bad_time"):      # not caption sets
        return
    cs = pool.SETS[s]()
    if not in_domain(w, b_text(cs)):
        ctx.count("other_markers")
        return
    check_output(w, cs, ctx, pool.NAMES[s], *OPTS[w][o])
    ctx.state(desc)


TIMES = [0, 1, 39999, 40000, 79999, 80000, 999999, US, 59 * US + 999999, 3599999999, 3600 * US, 86399 * US + 999999, 359999 * US]


def run_times(desc, ctx):
    w, a, c, f = desc
    s, e = TIMES[a], TIMES[c]
    if e < s:
        return
    if w == "vtt" and e >= 86400 * US:
        return                              # WebVTTWriter is specified below 24 h (C02)
    b = B()
    k = [1, 1.0, 1][f]
    caps = [b.cap(s * k, e * k + (0.5 if f == 1 else 0), ["text"])]
    if f == 2:
        caps.append(b.cap(e, e + 2 * US if e + 2 * US < 86400 * US or w != "vtt" else e, "more"))
    check_output(w, b.cset({"en-US": caps}), ctx, (s, e, f))
    ctx.state(desc)


LANGS = ["en", "fr", "en-US", "pt-BR", "zh-Hant", "de"]


def run_langs(desc, ctx):
    w, ls, over = desc
    b = B()
    cs = b.cset({LANGS[l]: [b.cap((i * over + 1) * US, (i * over + 2) * US, "one\n%d" % i), b.cap((i * over + 4) * US, (i * over + 5) * US, "two")] for i, l in enumerate(ls)})
    check_output(w, cs, ctx, (ls, over))
    ctx.state(desc)


SCCT = ["a", "1", "{1}{2}", "WEBVTT", "Hello, world", "x" * 32, "a\nb", "1\n00", "<sami>", "Scenarist_SCC V1.0", "</tt>", "a b\nc d", "12:34", "-->", "\u00e9\u00f1"]


def run_scc(desc, ctx):
    b = B()
    caps = []
    t = 3 * US
    for i in desc:
        caps.append(b.cap(t, t + 2 * US, SCCT[i]))
        t += 6 * US
    # the writer encodes every character: no text can look like a marker of another format in the output
    check_output("scc", b.cset({"en-US": caps}), ctx, [SCCT[i] for i in desc])
    ctx.state(desc)


def run_chain(desc, ctx):
    """documents of every format, read and written to every format, detected again"""
    d, w = desc
    b = B()
    f = check_detect(docs()[d], ctx)
    if f is None:
        return
    cs, e = ctx.call_exc(b.READERS[f]().read, docs()[d])
    if e is not None or not in_domain(w, b_text(cs)):
        return
    check_output(w, cs, ctx, docs()[d])
    ctx.state(desc)


def spaces(tier):
    q = tier == "quick"
    nd = len(docs())
    W7 = ["srt", "vtt", "mdvd", "dfxp", "legacy", "single", "sami"]

    def short():
        for n in range(1, 4):
            for pre in seqs(len(CH), min(n, 2), min(n, 2)):
                yield n, len(CH), pre
        for n, m in ((4, 29), (5, 14 if q else 20)) + (() if q else ((6, 12),)):
            for pre in seqs(m, 2, 2):
                yield n, m, pre

    def chars():
        for n in range(1, 6 if q else 7):
            for pre in seqs(len(RAW), min(n, 2), min(n, 2)):
                yield n, pre

    return [
        Space("empty", "the empty string", lambda: [(0,)], lambda d, ctx: check_detect("", ctx)),
        Space("short", "all sequences of 1..3 of %d tokens, 4 of %d, 5 of %d%s" % (len(CH), 29, 14 if q else 20, "" if q else ", 6 of 12"), short, run_short),
        Space("characters", "all strings of 1..%d characters over %r" % (5 if q else 6, RAW), chars, run_chars),
        Space("truncations", "%d documents cut at every character and byte, both parts" % nd, lambda: ((d, k) for d in range(nd) for k in range(len(docs()[d].encode()) // 64 + 1)), run_trunc),
        Space("edits", "%d documents x one character changed in the first 70 or last 30" % nd, lambda: prod(nd, 100), run_edit),
        Space("combinations", "pairs of documents x 4 glues", lambda: prod(nd, nd, 4), run_combine),
        Space("fresh", "pairs of documents, fresh readers, repeated questions", lambda: prod(nd, nd), run_fresh),
        Space("texts", "7 writers x all texts of 1..%d of %d tokens" % (2 if q else 3, len(TXT)), lambda: ((w, s) for s in seqs(len(TXT), 1, 2 if q else 3) for w in W7
                                                                                             if not q or len(s) < 2 or (s[0] * 7 + s[1]) % 3 == W7.index(w) % 3), run_text),
        Space("split-texts", "7 writers x texts of 2 tokens over lines, style nodes, nodes", lambda: ((w, s, h) for s in seqs(len(TXT), 2, 2) for w in W7 for h in range(3)
                                                                                                    if not q or (s[0] + s[1] * 5 + h + W7.index(w)) % 5 == 0), run_text_split),
        Space("sets", "7 writers x options x %d unusual sets" % len(pool.SETS), lambda: ((w, o, s) for w in W7 for o in range(4) for s in range(len(pool.SETS))), run_sets),
        Space("times", "7 writers x pairs of 13 instants x 3 shapes", lambda: ((w, a, c, f) for w in W7 for a in range(13) for c in range(13) for f in range(3)), run_times),
        Space("languages", "7 writers x all orders of 1..3 of 6 languages x 3 overlaps", lambda: ((w, p, o) for w in W7 for n in (1, 2, 3) for p in itertools.permutations(range(6), n) for o in range(3)
                                                                                          if not q or n < 3 or sum(p) % 4 == o), run_langs),
        Space("scc-output", "SCC writer: 1..%d of %d texts" % (2 if q else 3, len(SCCT)), lambda: seqs(len(SCCT), 1, 2 if q else 3), run_scc),
        Space("chains", "every document read and written by every writer", lambda: ((d, w) for d in range(nd) for w in W7), run_chain),
    ]
