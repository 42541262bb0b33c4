"""C08: chains of conversions among SRT, WebVTT, DFXP, SAMI and MicroDVD, run twice."""
import itertools

from mc.core import Mismatch, Space, devs, prod, seqs

ASSUMPTIONS = [
    "chains through SRT, WebVTT or MicroDVD carry one language (those formats have no place for two), whose name is the reader's default",
    "text = characters with str.isprintable(); no '|' on chains through MicroDVD (it is that format's line break)",
    "a cue keeps a positive duration at the coarsest resolution of its chain when the chain goes through SAMI (a sync and the blank sync "
    "that ends it cannot share a time there), and a cue on a chain through MicroDVD does not lie in frames 0..0 (that line is the header)",
    "nodes of one caption share one layout (WebVTT makes separate cues of different ones, C12)",
    "blanks: runs of white space count as one, leading and trailing ones are dropped, the non-breaking space is white space",
]
F5 = ["srt", "vtt", "dfxp", "sami", "mdvd"]
US = 1000000
MS = 1000
SAMI_SPACES = "sami-space-after-node"


def norm(t):
    return " ".join(t.split())


def snap(cs, exact=False):
    return [(l, [(c.start, c.end, (c.get_text() if exact else norm(c.get_text()))) for c in cs.get_captions(l)]) for l in cs.get_languages()]


def hop(fmt, cs, ctx):
    from mc import build as B
    doc = ctx.call(B.WRITERS[fmt]().write, cs)
    out = ctx.call(B.READERS[fmt]().read, doc)
    return doc, out


def floor(t, fmts):
    q = 40000 if "mdvd" in fmts else 1000
    return t // q * q


def run_chain(chain, cs, ctx, label, passes=2, exact=True, key=None, want_texts=None):
    """drive the set through the chain `passes` times and compare after every hop"""
    want0 = snap(cs)
    if want_texts:
        want0 = [(l, [(a, b, t) for (a, b, _), t in zip(caps, want_texts)]) for l, caps in want0]
    single = len(want0) == 1
    seen = []
    docs = []
    cur = cs
    first = None
    for ps in range(passes):
        for i, fmt in enumerate(chain):
            if fmt not in seen:
                seen.append(fmt)
            try:
                doc, cur = hop(fmt, cur, ctx)
            except Mismatch as e:
                e.input = dict(chain=chain, hop=(ps, i, fmt), set=label, docs=docs)
                raise
            docs.append(doc)
            got = snap(cur)
            lossy = any(f in ("srt", "vtt", "mdvd") for f in seen)
            inp = dict(chain=chain, hop="pass %d, hop %d (%s)" % (ps + 1, i + 1, fmt), set=label, docs=docs[-2:])
            if len(got) != len(want0) or (not lossy and sorted(l for l, _ in got) != sorted(l for l, _ in want0)):
                raise Mismatch("languages", inp, [l for l, _ in want0], [l for l, _ in got], key=key)
            if not lossy:
                got = [(l, dict(got)[l]) for l, _ in want0]         # the order of languages is C14's
            for (gl, g), (wl, w) in zip(got, want0):
                exp = [(floor(a, seen), floor(b, seen), t) for a, b, t in w]
                if len(g) != len(exp):
                    raise Mismatch("%d cues became %d" % (len(exp), len(g)), inp, exp[:40], g[:40])
                for k, (x, y) in enumerate(zip(g, exp)):
                    last = k == len(exp) - 1
                    if x[2] != y[2]:
                        raise Mismatch("text of cue %d" % k, inp, y, x, key=key)
                    if x[0] != y[0] or (x[1] != y[1] and not (last and "sami" in seen)):
                        raise Mismatch("times of cue %d" % k, inp, y, x)
                ctx.step(len(exp))
        s = sorted(snap(cur, exact))
        if ps == 0:
            first = s
        elif s != first:
            bad = [(x, y) for (_, a), (_, b) in zip(first, s) for x, y in zip(a, b) if x != y]
            raise Mismatch("pass %d changes the result of the first" % (ps + 1), dict(chain=chain, set=label, docs=docs[-len(chain):]),
                           bad[0][0] if bad else first, bad[0][1] if bad else s, key=key)
    ctx.state((chain, repr(first)))
    ctx.outcome(repr(first))


def chains(n, fmts=F5, lo=1):
    for length in range(lo, n + 1):
        yield from itertools.product(fmts, repeat=length)


# ------------------------------------------------------------------ texts
TOK = ["a", " ", "&", "<", ">", '"', "'", "-->", "--", "&amp;", "&lt;", "&#60;", "&#x3c;", "&nbsp;", "&lt", "<b>", "</b>", "<br/>",
       "<!--", "]]>", "<![CDATA[", "{", "}", "{1}{2}", "7", "00:00:01,000 --> 00:00:02,000", "00:01.000 --> 00:02.000", "WEBVTT", "NOTE",
       "\\", ";", "</p>", "</span>", "</sync>", "<P>", "<00:00:01.000>", "%s", "\u00e9", "\u4e2d", "\U0001f600", "=", ":", "<?x?>", "/>",
       "&;", "\u200b\u0301", "-", "{y:i}", "\u00a0", "<i>", "</c>", "<v Bob>", "&eacute;", "&hellip;", ",", ".", "!", "?", "#", "*", "\n",
       "STYLE", "REGION", "&amp;amp;", "[", "]", "(", "$", "@", "_", "~", "`", "^", "+", "\u2028x", "\u266a", "|"]
SMALL = ["a", " ", "&", "<", ">", '"', ";", "-", "!", "/", "{", "}", "7", "\n", "."]


def visible(t, chain):
    if not norm(t) or not t.replace("\n", "").isprintable() or not t.replace("\u200b", "").replace("\u0301", "").strip():
        return False
    if "mdvd" in chain and "|" in t:
        return False
    return True


def text_set(texts):
    from mc import build as B
    return B.cset({"en-US": [B.cap((2 * i + 1) * US, (2 * i + 2) * US, t) for i, t in enumerate(texts)]})


def texts_of(space, part, size):
    alpha, lo, hi = space
    it = itertools.islice(seqs(alpha, lo, hi), part * size, (part + 1) * size)
    return ["".join(alpha[i] for i in s) for s in it]


CORE = ["a", " ", "&", "<", ">", '"', "-->", "--", "&amp;", "&lt;", "&#60;", "&nbsp;", "<b>", "</b>", "<br/>", "<!--", "]]>", "{", "{1}{2}", "7",
        "00:00:01,000 --> 00:00:02,000", "WEBVTT", "NOTE", "\\", ";", "</p>", "\n", "{y:i}", "\u00a0", "<i>", "&eacute;", "."]
TEXT_SPACES = {"core2": (CORE, 1, 2), "tok2": (TOK, 1, 2), "small3": (SMALL, 3, 3), "small4": (SMALL, 4, 4), "tok3": (TOK, 3, 3)}


def run_texts(desc, ctx):
    chain, name, part, size = desc
    texts = [t for t in texts_of(TEXT_SPACES[name], part, size) if visible(t, chain)]
    if not texts:
        return
    try:
        run_chain(chain, text_set(texts), ctx, texts if len(texts) < 20 else None)
    except Mismatch as e:
        # locate
        for t in texts:
            run_chain(chain, text_set([t]), ctx, [t])
            run_chain(chain, text_set([t, "second"]), ctx, [t, "second"])
        for t, u in zip(texts, texts[1:]):
            run_chain(chain, text_set([t, u]), ctx, [t, u])
        raise e


def text_cases(name, size, chs):
    alpha, lo, hi = TEXT_SPACES[name]
    total = sum(len(alpha) ** n for n in range(lo, hi + 1))
    chs = list(chs)
    for part in range((total + size - 1) // size):
        for c in chs:
            yield c, name, part, size


# ------------------------------------------------------------------ times
BASES = [0, 1, 999, 1000, 39999, 40000, 59999999, 60000000, 3599999000, 3600000000, 35999960000, 36000000000, 86000000000, 86390000000, 86399000001]
DURS = [1000, 40000, 41000, 1000000, 999, 1, 40001, 79999, 2500000, 59960000]
GAPS = [0, 1, 999, 1000, 39999, 40000, 40001, 960000, 1000000, 3600000000]


def cues_of(base, pattern):
    """pattern: [(dur, gap), ...]"""
    out, t = [], base
    for d, g in pattern:
        out.append((t, t + d))
        t += d + g
    return out


def in_domain(cues, chain):
    if cues[-1][1] >= 86400 * US:
        return False
    for a, b in cues:
        if "mdvd" in chain and b // 40000 == 0:
            return False
        if "sami" in chain and floor(a, chain) == floor(b, chain):
            return False
    starts = [(floor(a, chain), floor(b, chain)) for a, b in cues]
    return len(set(starts)) == len(starts)


def run_times(desc, ctx):
    from mc import build as B
    chain, bi, pat = desc
    cues = cues_of(BASES[bi], [(DURS[d], GAPS[g]) for d, g in pat])
    if not in_domain(cues, chain):
        ctx.count("outside_domain")
        return
    cs = B.cset({"en-US": [B.cap(a, b, ["T%d" % i]) for i, (a, b) in enumerate(cues)]})
    run_chain(chain, cs, ctx, cues)


def run_clock(desc, ctx):
    """one document with a cue in every minute of hour h, durations and milliseconds vary"""
    from mc import build as B
    chain, h, k = desc
    caps = []
    for m in range(60):
        for s in range(0, 60, 4):
            j = m * 60 + s + k
            a = (h * 3600 + m * 60 + s) * US + (j * 37 % 1000) * MS
            caps.append(B.cap(a, a + (40 + j * 7 % 2900) * MS, ["T%d" % j]))
    run_chain(chain, B.cset({"en-US": caps}), ctx, "hour %d" % h)


# ------------------------------------------------------------------ structure: spans, breaks, styles, layouts
I = {"italics": True}
KINDS = ["w ", "x", None, (True, I), (True, {"bold": True}), (True, {"class": "k"}), (True, {"color": "red"}), (True, {}), "END", (True, {"underline": True})]


def items_of(seq):
    out, st = [], []
    for i in seq:
        x = KINDS[i]
        if x == "END":
            if not st:
                return None
            out.append((False, st.pop()))
        else:
            if isinstance(x, tuple):
                st.append(x[1])
            out.append(x)
    if st or not any(isinstance(x, str) and x.strip() for x in out):
        return None
    return out


def text_of(items):
    return norm("".join("\n" if x is None else x if isinstance(x, str) else "" for x in items))


def sami_text(items):
    """a blank after every text node, closing span and nothing else"""
    out = ""
    for x in items:
        if x is None:
            out += "\n"
        elif isinstance(x, str):
            out += x + " "
        elif not x[0]:
            out += " "
    return norm(out)


def run_struct(desc, ctx):
    from mc import build as B
    chain, seq, mode = desc
    items = items_of(seq)
    if items is None:
        return
    key = None
    if "sami" in chain and text_of(items) != sami_text(items):
        # the pinned blank after every node (known finding of C03) splits a word here
        if mode == 0 and len(chain) == 1:
            key = SAMI_SPACES
        else:
            ctx.count("left_out_sami_word_split")
            return
    lay = layouts()[mode]
    caps = [B.cap(US, 2 * US, items, layout=lay, node_layout=lay), B.cap(2 * US, 3 * US, ["next"]), B.cap(4 * US, 5 * US, items, style={"class": "k"})]
    cs = B.cset({"en-US": caps}, styles={"k": {"color": "red", "italics": True}} if mode != 1 else None)
    if key:
        try:
            run_chain(chain, cs, ctx, items, passes=1)
        except Mismatch:
            # exactly the pinned behaviour, and stable from there on
            run_chain(chain, cs, ctx, items, exact=False, want_texts=[sami_text(items), "next", sami_text(items)])
            raise Mismatch("SAMI writer splits a word between nodes", items, text_of(items), sami_text(items), key=key)
        return
    run_chain(chain, cs, ctx, items, exact=False)


def layouts():
    from mc import build as B
    S = B.Size.from_string
    return [None, B.Layout(alignment=B.Alignment("center", "top")), B.Layout(origin=B.Point(S("10%"), S("20%")), extent=B.Stretch(S("30%"), S("40%"))),
            B.Layout(origin=B.Point(S("10%"), S("20%")), padding=B.Padding(S("1%"), S("2%"), S("3%"), S("4%")), alignment=B.Alignment("right", "bottom")),
            B.Layout(padding=B.Padding(S("5%"), S("5%"), S("5%"), S("5%"))), B.Layout(origin=B.Point(S("95%"), S("99%")))]


def run_layout(desc, ctx):
    from mc import build as B
    chain, si, li, ci, c2 = desc
    L = layouts()
    caps = [B.cap(US, 2 * US, "one\ntwo", layout=L[ci], node_layout=L[ci]), B.cap(2 * US, 3 * US, "three", layout=L[c2], node_layout=L[c2]),
            B.cap(3500 * MS, 4 * US, "four")]
    run_chain(chain, B.cset({"en-US": caps}, layout=L[si], list_layouts={"en-US": L[li]}), ctx, desc[1:], exact=False)


# ------------------------------------------------------------------ several languages (DFXP and SAMI)
GRID = [(1, 2), (2, 3), (1, 3), (2, 4), (3, 4), (1, 4)]


def timelines(maxn):
    """all sorted non-overlapping cue lists over a 4-point grid"""
    out = []
    pts = [0, 1, 2, 3, 4]
    iv = [(a, b) for a in pts for b in pts if a < b]
    for n in range(1, maxn + 1):
        for c in itertools.combinations(iv, n):
            if all(x[1] <= y[0] for x, y in zip(c, c[1:])):
                out.append(c)
    return out


LANGS = ["en", "fr", "de", "es"]
TAGS = [["en", "fr", "de"], ["en-US", "fr", "zh-Hans"], ["fr", "en", "de"], ["pt-BR", "pt", "es"]]


def run_langs(desc, ctx):
    from mc import build as B
    chain, lists, tags = desc
    TL = timelines(2)
    d = {}
    for l, i in zip(TAGS[tags], lists):
        d[l] = [B.cap(a * US, b * US, ["%s%d" % (l, k)]) for k, (a, b) in enumerate(TL[i])]
    run_chain(chain, B.cset(d), ctx, {k: [(c.start, c.end) for c in v] for k, v in d.items()})


# ------------------------------------------------------------------ any order, overlaps, the same times
IVS = [(1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (2, 4)]


def run_orders(desc, ctx):
    """cues in any order, overlapping or with the same times; SRT merges neighbours with the same times (C02), SAMI is left out of the unsorted ones"""
    from mc import build as B
    chain, seq = desc
    ivs = [IVS[i] for i in seq]
    if "sami" in chain and any(x != y and x[1] > y[0] for x, y in zip(ivs, ivs[1:])):
        ctx.count("outside_domain")
        return
    if "sami" in chain and "srt" in chain and len(ivs) > 1 and ivs[-1] == ivs[-2]:
        ctx.count("outside_domain")                 # SAMI does not convey the last end, so the two need not be merged
        return
    texts = ["t%d\nu%d" % (i, i) if i % 2 else "T%d" % i for i in range(len(ivs))]
    cs = B.cset({"en-US": [B.cap(a * US, b * US, t) for (a, b), t in zip(ivs, texts)]})
    want = [(a * US, b * US, norm(t)) for (a, b), t in zip(ivs, texts)]
    docs, first = [], None
    for ps in range(2):
        for i, fmt in enumerate(chain):
            if fmt == "srt":
                m = []
                for w in want:
                    if m and m[-1][:2] == w[:2]:
                        m[-1] = w[:2] + (m[-1][2] + " " + w[2],)
                    else:
                        m.append(w)
                want = m
            doc, cs = hop(fmt, cs, ctx)
            docs.append(doc)
            (lang, got), = snap(cs)
            ctx.step(len(got))
            inp = dict(chain=chain, hop="pass %d, hop %d (%s)" % (ps + 1, i + 1, fmt), cues=want, docs=docs[-2:])
            if [g[2] for g in got] != [w[2] for w in want]:
                raise Mismatch("texts of cues in any order", inp, [w[2] for w in want], [g[2] for g in got])
            for k, (g, w) in enumerate(zip(got, want)):
                free = "sami" in chain and w[:2] == want[-1][:2]
                if g[0] != w[0] or (g[1] != w[1] and not free):
                    raise Mismatch("times of cue %d" % k, inp, w, g)
        s = sorted(snap(cs, True))
        if ps and s != first:
            raise Mismatch("pass 2 changes the result of the first", dict(chain=chain, cues=ivs, docs=docs[-len(chain):]), first, s)
        first = s
    ctx.state(desc)
    ctx.outcome(repr(first))


# ------------------------------------------------------------------ sizes
SIZES = list(range(1, 41)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 513, 1000, 1001, 1024, 1025]


def run_sizes(desc, ctx):
    """a long line, many lines, many text nodes, many cues"""
    chain, shape, n = desc
    from mc import build as B
    T = 10 ** 6
    if shape == 0:
        caps = [B.cap(T, 2 * T, [" ".join("w%d" % i for i in range(n))])]
    elif shape == 1:
        caps = [B.cap(T, 2 * T, sum([["l%d" % i, None] for i in range(n)], [])[:-1])]
    elif shape == 2:
        caps = [B.cap(T, 2 * T, ["x" * n])]
    else:
        caps = [B.cap((i + 1) * T, (i + 2) * T if i % 3 else (i + 1) * T + 500000, ["c%d" % i]) for i in range(n)]
    run_chain(chain, B.cset({"en": caps}), ctx, desc)


def spaces(tier):
    q = tier == "quick"
    ntl = len(timelines(2))

    def struct():
        for s in seqs(len(KINDS), 1, 4 if q else 5):
            if items_of(s) is None:
                continue
            for c in chains(1 if q and len(s) > 3 else 2):
                for mode in (0, 1) if q else (0, 1, 3):
                    yield c, s, mode

    def times():
        for c in (chains(2) if q else chains(3)):
            pats = [((d, g), (d2, 0)) for d in range(len(DURS)) for g in range(len(GAPS)) for d2 in (0, 3, 4)] if len(c) < 3 else \
                [((d, g), (0, 0)) for d in range(len(DURS)) for g in range(len(GAPS))]
            for bi in range(len(BASES)):
                if q and len(c) == 2 and bi not in (2, 14):
                    continue
                for p in pats if not q or len(c) == 1 else pats[::7]:
                    yield c, bi, p

    def langs():
        for n in (2, 3):
            for tags in range(len(TAGS)):
                if tags and (q or n == 3):
                    lists = prod(*[range(0, ntl, 5)] * n)
                elif n == 3:
                    lists = prod(*[range(0, ntl, 4 if q else 2)] * n)
                else:
                    lists = prod(*[ntl] * n)
                for li in lists:
                    for c in chains(2 if n == 2 and not tags else 1, ["sami", "dfxp"]):
                        yield c, li, tags

    return [
        Space("sizes", "1..40 and larger numbers up to %d of words, lines, characters or cues x chains of length <= %d" % (257 if q else 1025, 2 if q else 3),
              lambda: ((c, k, n) for c in chains(2 if q else 3) for k in range(4) for n in SIZES if (n <= 257 if q else len(c) < 3 or n <= 129)), run_sizes),
        Space("orders", "chains of length <= %d x all sequences of <= %d cues over 6 intervals of a 4-point lattice" % ((2, 3) if q else (3, 4)),
              lambda: ((c, s) for c in chains(2 if q else 3) for s in seqs(len(IVS), 1, 3 if q or len(c) > 2 else 4)), run_orders),
        Space("texts", "every format x all texts of 1..2 of %d tokens, two passes" % len(TOK),
              lambda: text_cases("tok2", 150, chains(1)), run_texts),
        Space("texts-pairs", "all chains of length 2 x all texts of 1..2 of %d tokens, two passes" % len(CORE if q else TOK),
              lambda: text_cases("core2" if q else "tok2", 150, chains(2, lo=2)), run_texts),
        Space("texts-short", "every format x all texts of length %d over %d characters" % (3 if q else 4, len(SMALL)),
              lambda: text_cases("small3" if q else "small4", 150, chains(1)), run_texts),
        Space("long-chains", "all chains of length %s x one set of the %d single tokens, two passes" % ("3" if q else "3..5", len(TOK)),
              lambda: ((c, "tok2", 0, len(TOK)) for c in chains(3 if q else 5, lo=3)), run_texts),
        Space("times", "chains of length <= %d x 15 base instants x all (duration, gap) patterns of two cues over 10 x 10 values" % (2 if q else 3), times, run_times),
        Space("clock", "chains of length <= %d x every hour of the day (900 cues each)" % (1 if q else 2),
              lambda: ((c, h, k) for c in chains(1 if q else 2) for h in (range(0, 24, 3) if q else range(24)) for k in ((0,) if q else (0, 3))), run_clock),
        Space("structure", "all balanced node sequences up to length %d over %d node kinds x chains of length <= 2" % (4 if q else 5, len(KINDS)), struct, run_struct),
        Space("layouts", "chains of length <= 2 x layouts of 6 at set, language and caption level",
              lambda: ((c,) + v for c in chains(2) for v in devs([6, 6, 6, 6], 1 if q else 3)), run_layout),
        Space("languages", "2-3 languages x all timelines of <= 2 cues over a 5-point grid x chains over SAMI and DFXP", langs, run_langs),
    ] + ([] if q else [Space("texts-tok3", "every format x all texts of 3 of %d tokens" % len(TOK), lambda: text_cases("tok3", 400, chains(1)), run_texts)])
