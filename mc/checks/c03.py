"""C03: written text survives an independent parser of the format."""
import itertools
import sys

from mc import outs, refs
from mc.core import Mismatch, Space, seqs

ASSUMPTIONS = [
    "text = characters with str.isprintable(); MicroDVD text without '|' and cues that do not lie in frames 0..0 (that "
    "line is the frame-rate header of the format)",
    "a line is what lies between two break nodes; comparison is exact inside a line, lines are stripped, blank lines are dropped",
]
W = outs.TEXT_WRITERS

TOK = ["a", " ", "&", "<", ">", '"', "'", "-->", "--", "&amp;", "&lt;", "&#60;", "&#x3c;", "&nbsp;", "&lt", "<b>", "</b>",
       "<br/>", "<br>", "<!--", "]]>", "<![CDATA[", "{", "}", "{1}{2}", "7", "00:00:01,000 --> 00:00:02,000",
       "00:01.000 --> 00:02.000", "WEBVTT", "NOTE", "\\", ";", "|", "</p>", "</span>", "</sync>", "<P>", "<00:00:01.000>", "%s",
       "\u00e9", "\u4e2d", "\U0001f600", "=", ":", "--!>", "<?x?>", "/>", "&;", "&#0;", "\u200b\u0301", "-", "</i>", "</c>"]
CORE = ["a", " ", "&", "<", ">", '"', "-->", "--", "&lt;", "<b>", "]]>", "{", "7", ";", "\\", "!"]

SAMI_SPACES = "sami-space-after-node"


def sami_spaced(items):
    """the lines with the blank pycaption's SAMI writer is pinned to append to every text node and closing tag"""
    out = ""
    for it in items:
        if it is None:
            out = out.rstrip() + "\n    "
        elif isinstance(it, str):
            out += it + " "
        elif it[0]:
            out += "\0"
        else:
            out = out.rstrip() + "\0 "
    return out.replace("\0", "")


def view(w, lines):
    """HTML collapses runs of blanks"""
    return [" ".join(x for x in l.split(" ") if x) for l in lines] if w == "sami" else lines


def want_lines(items):
    out = ""
    for it in items:
        if it is None:
            out += "\n"
        elif isinstance(it, str):
            out += it
    return refs.split_lines(out)


def one(w, items_list, ctx, same_time=False):
    from mc import build as B
    caps = []
    for i, items in enumerate(items_list):
        k = 1 if same_time else i + 1
        caps.append(B.cap(k * 1000000, k * 1000000 + 900000, items))
    doc = outs.write(w, B.cset({"en": caps}), ctx)
    got = outs.parse_out(w, doc)
    if len(got) != 1:
        raise refs.Bad("%d languages in the output" % len(got))
    return doc, got[0][1]


def judge(w, items_list, ctx, same_time=False):
    """every list of items is one caption; documents hold all of them"""
    items_list = [x for x in items_list if want_lines(x) and not (w == "mdvd" and any(isinstance(y, str) and "|" in y for y in x))]
    if not items_list:
        return
    want = [view(w, want_lines(x)) for x in items_list]
    if same_time and w in ("srt", "legacy", "single"):
        merged = [sum(want, [])]
    else:
        merged = want
    doc = None
    bad = None
    try:
        doc, cues = one(w, items_list, ctx, same_time)
        got = [view(w, c.lines()) for c in cues]
        ctx.step(len(want))
        if got == merged:
            return
        if same_time and got == want:
            return
        bad = "lines differ"
    except refs.Bad as e:
        bad, got = "output is not well formed: %s" % e, None
    # locate the caption
    if len(items_list) > 1 and not same_time:
        known = None
        for x in items_list:
            try:
                judge(w, [x], ctx)
            except Mismatch as m:
                if m.key is None:
                    raise
                known = m
        if known and got is not None and len(got) == len(want):
            raise known
    if w == "sami" and got is not None and not same_time:
        if all(g == e or g == view(w, refs.split_lines(sami_spaced(x))) for g, e, x in zip(got, want, items_list)) and len(got) == len(want):
            raise Mismatch(bad, [W and w, items_list, doc], want, got, key=SAMI_SPACES)
    raise Mismatch("%s: %s" % (w, bad), [items_list if len(items_list) < 4 else len(items_list), doc and doc[:3000]], want[:4], (got or [])[:4])


def run_tokens(desc, ctx):
    """all sequences prefix + one token"""
    w, pre, core = desc
    alpha = CORE if core else TOK
    ctx.state(desc)
    judge(W[w], [["".join(alpha[i] for i in pre + (k,))] for k in range(len(alpha))], ctx)


def run_splits(desc, ctx):
    """the tokens of a line in separate text nodes"""
    w, pre, core = desc
    alpha = CORE if core else TOK
    ctx.state(desc)
    for k in range(len(alpha)):
        pass
    judge(W[w], [[alpha[i] for i in pre + (k,)] for k in range(len(alpha))], ctx)


def run_spans(desc, ctx):
    """tokens around and inside a style span"""
    w, (a, st), core = desc
    alpha = CORE if core else TOK
    sty = [{"italics": True}, {"bold": True}, {"underline": True}, {"color": "red"}, {"italics": True, "bold": True}][st]
    sp = "" if W[w] != "sami" else " "
    ctx.state(desc)
    ls = []
    for k in range(len(alpha)):
        ls.append([(True, sty), alpha[a], (False, sty), sp + alpha[k]])
        ls.append([alpha[a] + sp, (True, sty), alpha[k], (False, sty)])
        ls.append(["x", None, (True, sty), alpha[a], None, alpha[k], (False, sty), None, "y"])
    judge(W[w], ls, ctx)


SHAPE = [None, "a", " ", "", "-->", (True, {"italics": True}), (False, {"italics": True}), "7", "&"]


def flat(items):
    op = False
    for x in items:
        if isinstance(x, tuple):
            if x[0] == op:
                return False
            op = x[0]
    return not op


def run_shapes(desc, ctx):
    """all node sequences over breaks, blank and visible text, span boundaries (n < 0: spans of a style that few formats write)"""
    w, pre, n = desc
    ctx.state(desc)
    ls = []
    plain = n < 0
    for rest in itertools.product(range(len(SHAPE)), repeat=abs(n)):
        items = [SHAPE[i] for i in pre + rest]
        if plain:
            if not any(isinstance(x, tuple) for x in items):
                continue
            items = [(x[0], {"color": "red"}) if isinstance(x, tuple) else x for x in items]
        if flat(items) and items.count(None) <= 4:
            ls.append(items)
    for i in range(0, len(ls), 100):
        judge(W[w], ls[i:i + 100], ctx)


LINES = ["a", "", " ", "-->", "1", "00:00:01,000 --> 00:00:02,000", "00:01.000 --> 00:02.000", "NOTE x", "{1}{2}b", "<p>", "&nbsp;", "a  b", "- c",
         "WEBVTT", "STYLE", "REGION"]


def run_lines(desc, ctx):
    """1-4 lines, every line from LINES"""
    w, pre, n = desc
    ctx.state(desc)
    ls = []
    for rest in itertools.product(range(len(LINES)), repeat=n):
        items = []
        for j, i in enumerate(pre + rest):
            if j:
                items.append(None)
            if LINES[i]:
                items.append(LINES[i])
        if items:
            ls.append(items)
    for i in range(0, len(ls), 100):
        judge(W[w], ls[i:i + 100], ctx)


def run_concurrent(desc, ctx):
    w, pat = desc
    alts = [["a"], ["b", None], [None, "c"], ["d", None, None, "-->"], [" ", None, "e"]]
    ctx.state(desc)
    judge(W[w], [alts[i] for i in pat], ctx, same_time=True)


def run_runs(desc, ctx):
    """runs of captions with the same times among others: the merged cue holds the lines of its own captions"""
    from mc import build as B
    w, slots, pat = desc
    w = W[w]
    alts = [["a"], ["b", None, "-->"], [None, "c", None], [(True, {"italics": True}), "d", (False, {"italics": True})]]
    times = list(itertools.accumulate(slots))
    items = [alts[i] for i in pat]
    want = []
    caps = []
    for k, (t, x) in enumerate(zip(times, items)):
        x = [y + str(k) if isinstance(y, str) else y for y in x]
        caps.append(B.cap((t + 1) * 10 ** 6, (t + 2) * 10 ** 6, x))
        ls = view(w, want_lines(x))
        if k and slots[k] == 0 and w in ("srt", "legacy", "single"):
            want[-1] = want[-1] + ls
        else:
            want.append(ls)
    single = [view(w, want_lines([y + str(k) if isinstance(y, str) else y for y in x])) for k, x in enumerate(items)]
    ctx.state(desc)
    doc = outs.write(w, B.cset({"en": caps}), ctx)
    try:
        got = [view(w, c.lines()) for c in outs.parse_out(w, doc)[0][1]]
    except refs.Bad as e:
        raise Mismatch("%s: not well formed: %s" % (w, e), [times, items, doc], want, None)
    ctx.step(len(items))
    ctx.outcome(repr(got))
    if got != want and got != single:
        raise Mismatch("%s: lines of runs with the same times" % w, [times, items, doc], want, got)


_PRINTABLE = None


def printable():
    global _PRINTABLE
    if _PRINTABLE is None:
        _PRINTABLE = [chr(c) for c in range(sys.maxunicode + 1) if chr(c).isprintable() and chr(c) != "|"]
    return _PRINTABLE


def run_chars(desc, ctx):
    w, lo = desc
    cs = printable()[lo:lo + 2000]
    ctx.state(desc)
    ls = []
    for i in range(0, len(cs), 100):
        ch = cs[i:i + 100]
        ls.append(["x" + "x".join(ch) + "x", None, "y" + " y".join(ch) + "y"])
        ls.append([ch[0], None, ch[-1]])
    judge(W[w], ls, ctx)


# ------------------------------------------------------------------ sizes
SIZES = list(range(1, 41)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]
BIG = ["a b", "&", "<b>", "x", '"-->"', "a&amp; "]


def run_sizes(desc, ctx):
    """n pieces in one text node; n text nodes; n lines; n spans"""
    w, shape, n, k = desc
    w = W[w]
    piece = BIG[k]
    if shape == 0:
        items = [piece * n]
    elif shape == 1:
        items = ["%s%d" % (piece, i) for i in range(n)]
    elif shape == 2:
        items = sum([[piece + str(i), None] for i in range(n)], [])[:-1]
    elif shape == 3:
        items = sum([["%d" % i, (True, {"italics": True}), piece, (False, {"italics": True})] for i in range(n)], ["b"])
    else:
        items = ["first"] + [None] * n + [piece]
    ctx.state((shape, n, k))
    judge(w, [["before"], items, ["after"]], ctx)
    ctx.outcome(desc)


JOIN = [["-", "--", ">", "->", "x", None], ["&", "l", "t;", "<", "b", ">", "amp;", None], ["]", "]>", "]]", ">", "<!", "--", "{", "1}", None], [" ", "1", "0:00:01,000 --", "> 00:00:02,000", None]]


def run_join(desc, ctx):
    """markup that only appears once the text nodes of a line are joined, any number of times"""
    w, a, pre, n = desc
    ctx.state(desc)
    ctx.outcome(desc)
    ls = [list(x) for x in (tuple(JOIN[a][i] for i in pre + r) for r in itertools.product(range(len(JOIN[a])), repeat=n)) if x[0] and x[-1]]
    for i in range(0, len(ls), 100):
        judge(W[w], ls[i:i + 100], ctx)


def join_cases(tier):
    q = tier == "quick"
    for w in range(7):
        for a, n in ((0, 6 if q and W[w] == "vtt" else 5 if q else 7), (1, 4 if q else 5), (2, 4 if q else 5), (3, 5 if q else 6)):
            k = len(JOIN[a])
            for m in range(2, n + 1):
                for pre in itertools.product(range(k), repeat=m - 2):
                    yield w, a, pre, 2


def size_cases(tier):
    for w in range(7):
        for shape in range(5):
            for n in SIZES:
                if shape and n > (300 if tier == "quick" else 1100):
                    continue
                for k in range(len(BIG)):
                    if n > 129 and tier == "quick" and k not in (0, 1):
                        continue
                    yield w, shape, n, k


def spaces(tier):
    q = tier == "quick"
    T, C = len(TOK), len(CORE)
    np = len(printable())
    ns, nl = len(SHAPE), len(LINES)
    return [
        Space("tokens", "one text node: all sequences of <= 2 of %d tokens x 7 writers" % T,
              lambda: ((w, p, 0) for w in range(7) for p in seqs(T, 0, 1)), run_tokens),
        Space("tokens-3", "one text node: all sequences of 3 of %d core tokens%s x 7 writers" % (C, "" if q else " (and of all tokens, and 4 core tokens)"),
              lambda: itertools.chain(((w, p, 1) for w in range(7) for p in seqs(C, 2, 2 if q else 3)),
                                      () if q else ((w, p, 0) for w in range(7) for p in seqs(T, 2, 2))), run_tokens),
        Space("text-node-splits", "the same tokens in separate text nodes: 2 of %d, 3 of %d x 7 writers" % (T, C),
              lambda: itertools.chain(((w, p, 0) for w in range(7) for p in seqs(T, 1, 1)), ((w, p, 1) for w in range(7) for p in seqs(C, 2, 2 if q else 3))), run_splits),
        Space("tokens-in-spans", "pairs of tokens before/inside/after a span, 5 styles x 7 writers",
              lambda: ((w, (a, s), q) for w in range(7) for a in range(C if q else T) for s in range(5)), run_spans),
        Space("node-shapes", "all node sequences of length <= %d over %d node kinds (breaks, blank text, italic or coloured spans) x 7 writers" % (5 if q else 6, ns),
              lambda: ((w, p, n * z) for w in range(7) for z in (1, -1)
                       for p, n in itertools.chain([((), 1), ((), 2), ((), 3)], ((x, 2) for x in seqs(ns, 2, 3 if q else 4)))), run_shapes),
        Space("line-lists", "1-%d lines over %d adversarial lines x 7 writers" % (3 if q else 4, nl),
              lambda: ((w, p, 1) for w in range(7) for p in seqs(nl, 0, 2 if q else 3)), run_lines),
        Space("runs", "all sequences of 2-%d captions, each with the times of the one before or later x 3-4 contents x 7 writers" % (4 if tier == "quick" else 5),
              lambda: ((w, (0,) + sl, p) for w in range(7) for n in range(2, (5 if tier == "quick" else 6)) for sl in itertools.product((0, 1), repeat=n - 1)
                       for p in itertools.product(range(4 if n < 4 else 3 if tier == "quick" else 4), repeat=n)), run_runs),
        Space("concurrent", "2-3 captions with the same times, leading/trailing/double breaks x 7 writers",
              lambda: ((w, p) for w in range(7) for p in seqs(5, 2, 3)), run_concurrent),
        Space("joined-nodes", "all sequences of text nodes and breaks over 4 alphabets of pieces of markup (arrows to length %s, entities and tags, XML delimiters, cue headers to 4-6) x 7 writers"
              % ("5, WebVTT 6" if q else "7"), lambda: join_cases(tier), run_join),
        Space("sizes", "1..40 and %d larger numbers up to 4097 of 6 pieces in one text node, of text nodes, lines, spans and empty lines (those up to %d) x 7 writers"
              % (len(SIZES) - 40, 300 if q else 1100), lambda: size_cases(tier), run_sizes),
        Space("every-printable-character", "all %d printable code points between letters, at line starts and line ends x 7 writers" % np,
              lambda: ((w, lo) for w in range(7) for lo in range(0, np, 2000)), run_chars),
    ]
