"""C19: retiming is affine and drops exactly what starts before zero; merging joins exactly the runs of equal timespans."""
import itertools
from fractions import Fraction

from mc import iso, outs, pool, refs
from mc.core import Mismatch, Space, prod, seqs

ASSUMPTIONS = [
    "a new time may differ from t*skew+offset by the rounding of double precision arithmetic (1e-9 relative)",
    "starts for which t*skew+offset is within 1e-3 us of zero without being exactly representable are not judged as negative or not",
    "captions are separate objects: one Caption object listed twice is retimed once per listing",
]
US = 1000000
SPANS = [(0, US), (US, 2 * US), (0, 2 * US), (US, US)]
NV = ["text", "two", "styled", "laid", "breaks", "empty", "float"]


def B():
    from mc import build
    return build


def node_items(v, tag):
    I = {"italics": True}
    return {"text": [tag], "two": [tag, None, tag + "2"], "styled": [(True, I), tag, (False, I)], "laid": [(tag, pool.L(2)), ("q", pool.L(3))],
            "breaks": [None, tag, None], "empty": [""], "float": [tag, "", None, None, tag]}[v]


def caption(span, v, tag, extra=0):
    return B().cap(span[0], span[1], node_items(v, tag), style=[None, {"class": "k"}, {"color": "red"}][extra % 3], layout=pool.L([0, 2, 5][extra % 3]))


def spans_of(seq, v="text"):
    return [caption(SPANS[s], v if isinstance(v, str) else NV[(v + i) % len(NV)], "t%d" % i, i) for i, s in enumerate(seq)]


def model(cs):
    """{lang: [(start, end, [node dump])]}"""
    return {l: [(c.start, c.end, [iso.dump(n) for n in c.nodes]) for c in cs.get_captions(l)] for l in cs.get_languages()}


def is_break(cs_node):
    return cs_node.type_ == B().CaptionNode.BREAK


def merged(m):
    """the specification of merging; None stands for the separating break"""
    out = {}
    for l, caps in m.items():
        r = []
        for s, e, ns in caps:
            if r and (r[-1][0], r[-1][1]) == (s, e):
                r[-1] = (s, e, r[-1][2] + [None] + ns)
            else:
                r.append((s, e, list(ns)))
        out[l] = r
    return out


def retimed(m, skew, offset):
    """[(low-confidence flag)] -> {lang: [(start, end, nodes)]} with exact times; raises Skip when a sign is a matter of rounding"""
    out = {}
    for l, caps in m.items():
        r = []
        for s, e, ns in caps:
            ns_, ne = Fraction(s) * Fraction(skew) + Fraction(offset), Fraction(e) * Fraction(skew) + Fraction(offset)
            if ns_ != 0 and abs(ns_) < Fraction(1, 1000) or ns_ == 0 and not exact(s, skew):
                raise Skip()
            if ns_ >= 0:
                r.append((ns_, ne, ns))
        out[l] = r
    return out


class Skip(Exception):
    pass


def exact(s, skew):
    return Fraction(float(s) * float(skew)) == Fraction(s) * Fraction(skew)


def close(a, b):
    return abs(Fraction(a) - Fraction(b)) <= max(1, abs(Fraction(b))) / 10 ** 9


def compare(what, want, cs, ctx, inp, separators=False):
    got = cs.get_languages()
    if [l for l in got if l in want] != [l for l in want if l in got] or [l for l in got if l not in want] or [l for l in want if want[l] and l not in got]:
        raise Mismatch(what + ": languages", inp, list(want), got)
    for l, caps in want.items():
        g = cs.get_captions(l)
        if len(g) != len(caps):
            raise Mismatch(what + ": number of captions of %s" % l, inp, [(float(s), float(e)) for s, e, _ in caps], [(c.start, c.end) for c in g])
        for k, ((s, e, ns), c) in enumerate(zip(caps, g)):
            if not (close(c.start, s) and close(c.end, e)):
                raise Mismatch(what + ": times of caption %d of %s" % (k, l), inp, (float(s), float(e)), (c.start, c.end))
            gn = [None if n is None and is_break(x) else iso.dump(x) for n, x in itertools.zip_longest(ns, c.nodes) if x is not None]
            if gn != ns:
                raise Mismatch(what + ": nodes of caption %d of %s" % (k, l), inp, [x if x is None else x for x in ns], gn)
    ctx.outcome(repr([(l, len(c)) for l, c in want.items()]))


def check_merge(cs, ctx, inp):
    from pycaption.base import merge_concurrent_captions
    want = merged(model(cs))
    out = ctx.call(merge_concurrent_captions, cs)
    compare("merge", want, out, ctx, inp)
    once = iso.dump(out)
    again = ctx.call(merge_concurrent_captions, out)
    if iso.dump(again) != once:
        raise Mismatch("merging again changes the set: %s" % iso.diff(once, iso.dump(again)), inp)
    return out


def run_merge(desc, ctx):
    seq, v = desc
    cs = B().cset({"en-US": spans_of(seq, v)})
    check_merge(cs, ctx, ("one language", [SPANS[s] for s in seq], v))
    ctx.state(desc)
    ctx.step(len(seq))


def run_merge_langs(desc, ctx):
    langs = {["en", "fr", "de", "it"][i]: spans_of(s, i) for i, s in enumerate(desc)}
    check_merge(B().cset(langs), ctx, [[SPANS[x] for x in s] for s in desc])
    ctx.state(desc)
    ctx.step(sum(map(len, desc)))


def run_merge_nodes(desc, ctx):
    """runs of captions with every kind of node list, before/after other captions; equal times of other types"""
    seq, lead, num = desc
    t = [(US, 2 * US), (float(US), 2.0 * US), (Fraction(US), 2 * US), (1001000.0 / 3, 2002000.0 / 3)][num]
    caps = []
    if lead & 1:
        caps.append(caption((0, US), "styled", "lead", 1))
    for i, v in enumerate(seq):
        tt = t if not (num == 1 and i % 2) else (US, 2 * US)
        caps.append(caption(tt, NV[v], "n%d" % i, i))
    if lead & 2:
        caps.append(caption((t[0], t[1] + 1), "two", "tail", 2))
    check_merge(B().cset({"en": caps}), ctx, ([NV[v] for v in seq], lead, t))
    ctx.state(desc)


CLOSE = [(US, 2 * US), (US, 2 * US + 0.4), (US + 0.4, 2 * US), (US + 1, 2 * US), (US, 2 * US + 1), (US, 2 * US + 999), (US + 1000, 2 * US + 1000), (2 * US, US), (US, US)]


def run_merge_close(desc, ctx):
    """timespans that differ by less than a microsecond, a microsecond, almost a millisecond"""
    caps = [caption(CLOSE[i], "text", "c%d" % k, k) for k, i in enumerate(desc)]
    check_merge(B().cset({"en": caps}), ctx, [CLOSE[i] for i in desc])
    ctx.state(desc)
    ctx.step(len(desc))


def run_merge_shared(desc, ctx):
    """node objects (text, break) that occur several times, in one caption and in several"""
    b = B()
    pool_ = [b.CaptionNode.create_text("same"), b.CaptionNode.create_break(), b.CaptionNode.create_text("other")]
    caps = []
    for k, (span, nodes) in enumerate(desc):
        caps.append(b.Caption(*CLOSE[span * 3], [pool_[i] for i in nodes]))
    check_merge(b.cset({"en": caps}), ctx, desc)
    ctx.state(desc)
    ctx.step(len(desc))


def cases_shared():
    lists = [s for s in seqs(3, 1, 2)]
    for n in (1, 2, 3):
        for ls in itertools.product(lists if n < 3 else lists[::3], repeat=n):
            for sp in itertools.product((0, 1), repeat=n - 1):
                yield tuple(zip((0,) + sp, ls))


def run_long(desc, ctx):
    """run lengths: every composition of n into runs"""
    n, cut = desc
    seq, cur = [], 0
    for i in range(n):
        if i and cut >> (i - 1) & 1:
            cur += 1
        seq.append(cur)
    caps = [caption((s * US, s * US + US), "text", "r%d" % i, i) for i, s in enumerate(seq)]
    check_merge(B().cset({"en": caps}), ctx, seq)
    ctx.state(desc)


def run_huge(desc, ctx):
    """one long run, or many runs of one length"""
    n, k, m = desc
    caps = [caption((s * US, s * US + US), "text", "r%d.%d" % (s, i), i) for s in range(m) for i in range(n)]
    caps += [caption(((m + 1) * US, (m + 2) * US), "text", "end", 0)] if k else []
    check_merge(B().cset({"en": caps}), ctx, desc)
    ctx.state(desc)


# ------------------------------------------------------------------ retiming
T = [(0, US), (US, 2 * US), (1500000, 3000001), (3600 * US, 3600 * US + 1), (33366.5, 66733.25), (4 * US, 3 * US)]
SKEWS = [1, 1.0, 0.5, 0.25, 2, 4, 1.1, 0.1, 1.001, 25 / 24, 24000 / 25025, 3.999, 0.001, 1e-6, Fraction(1001, 1000)]
OFFS = [0, 5, -5, US, -US, -US + 1, -US - 1, -2 * US, -500000, 0.5, -0.5, -1500000, -250000, -3600 * US, 10 ** 12, -10 ** 12, -33366.5, 123456.789]


def check_adjust(cs, skew, offset, ctx, inp, how=0):
    m = model(cs)
    try:
        want = retimed(m, skew, offset)
    except Skip:
        ctx.count("rounding_of_zero")
        return False
    if how == 0:
        ctx.call(cs.adjust_caption_timing, offset=offset, rate_skew=skew)
    elif how == 1:
        ctx.call(cs.adjust_caption_timing, offset, skew)
    elif skew == 1:
        ctx.call(cs.adjust_caption_timing, offset=offset)
    else:
        ctx.call(cs.adjust_caption_timing, rate_skew=skew, **({"offset": offset} if offset else {}))
    compare("adjust", want, cs, ctx, inp)
    return True


def run_adjust(desc, ctx):
    seq, sk, of = desc
    skew, offset = SKEWS[sk], OFFS[of]
    langs = {"en": [caption(T[s], NV[(i + of) % 7], "a%d" % i, i) for i, s in enumerate(seq)]}
    if of % 2:
        langs["fr"] = [caption(T[(s + 1) % len(T)], "two", "b%d" % i, i) for i, s in enumerate(seq[::-1])]
    check_adjust(B().cset(langs, layout=pool.L(2), list_layouts={"en": pool.L(3)}), skew, offset, ctx, ([T[s] for s in seq], skew, offset), (sk + of) % 3)
    ctx.state(desc)
    ctx.step()


def run_edge(desc, ctx):
    """offsets around the exact negative of a skewed start: what is dropped and what stays"""
    sk, s, d = desc
    skew = [1, 0.5, 0.25, 2, 4, 1.5, 3][sk]
    starts = [1, 2, 4, 7, US, 1234567, 86399 * US]
    delta = [-2, -1, -0.5, 0, 0.5, 1, 2][d]
    offset = -(starts[s] * skew) + delta
    caps = [caption((x, x + US), "text", "e%d" % i, i) for i, x in enumerate(sorted(starts))]
    caps2 = [caption((x, x + US), "two", "f%d" % i, i) for i, x in enumerate(starts[::-1])]
    check_adjust(B().cset({"en": caps, "fr": [caption((starts[s], starts[s] + 1), "text", "only")], "de": caps2}), skew, offset, ctx, (starts, skew, offset))
    ctx.state(desc)


OPS = [("merge",), ("adj", 1, 0), ("adj", 2, -US), ("adj", 0.5, 0), ("adj", 0.5, -500000), ("adj", 1, US), ("adj", 4, -3 * US), ("write", "legacy"), ("write", "single"), ("write", "srt")]


def run_history(desc, ctx):
    """operations one after another on one set; writing in between changes nothing"""
    start, ops = desc
    if start < 64:
        seq = [start & 3, start >> 2 & 3, start >> 4 & 3]
        cs = B().cset({"en": spans_of(seq + [1, 1], 0), "fr": spans_of(seq[::-1], 2)})
    else:
        cs = DOCS_()[start - 64]()
    for k, o in enumerate(ops):
        op = OPS[o]
        inp = (start, [OPS[x] for x in ops[:k + 1]])
        if op[0] == "merge":
            cs = check_merge(cs, ctx, inp)
        elif op[0] == "write":
            before = model(cs)
            ctx.call_exc(B().WRITERS[op[1]]().write, cs)
            if model(cs) != before:
                raise Mismatch("writing changed the captions", inp, before, model(cs))
        elif not check_adjust(cs, op[1], op[2], ctx, inp):
            return
    ctx.state(desc)
    ctx.step(len(ops))


def DOCS_():
    rd = lambda f, doc: lambda: B().READERS[f]().read(doc)
    sami = ('<SAMI><HEAD><STYLE><!-- .E {lang: en;} .F {lang: fr;} --></STYLE></HEAD><BODY><SYNC start=0><P class=E>a<P class=E>b<P class=F>c</SYNC>'
            '<SYNC start=1000><P class=E>d<P class=F>e</SYNC><SYNC start=2000><P class=E>f<P class=E>g<P class=E>h</SYNC></BODY></SAMI>')
    dfxp = ('<tt xml:lang="en"><body><div>' + "".join('<p begin="%ds" end="%ds">%s</p>' % x for x in
            [(0, 1, "a"), (0, 1, "b<br/>c"), (1, 2, '<span tts:fontStyle="italic">d</span>'), (3, 4, "e"), (3, 4, "f"), (3, 4, "g"), (3, 5, "h")]) + "</div></body></tt>")
    srt = "".join("%d\n00:00:0%d,000 --> 00:00:0%d,000\nline %d\n\n" % (i, s, e, i) for i, (s, e) in enumerate([(0, 1), (1, 2), (1, 2), (1, 2), (2, 3), (1, 2)], 1))
    return [rd("sami", sami), rd("dfxp", dfxp), rd("srt", srt), rd("scc", pool.SCC), rd("scc", pool.SCC_ROLL), rd("vtt", pool.VTT), rd("mdvd", pool.MDVD)] + [
        s for s, n in zip(pool.SETS, pool.NAMES) if n in ("concurrent", "langs", "simple", "mixed_layouts", "empty", "partly_empty", "floats")]


# ------------------------------------------------------------------ the writers that merge
def run_writers(desc, ctx):
    seq, w, second = desc
    langs = {"en": spans_of(seq, "two")}
    if second:
        langs["fr"] = [caption(SPANS[s], "text", "f%d" % i) for i, s in enumerate(seq[::-1])]
    cs = B().cset(langs)
    before = model(cs)
    want = {}
    for l, caps in merged(before).items():
        want[l] = []
    for l in langs:
        run = []
        for c in langs[l]:
            text = B().node_text(c.nodes)
            if run and run[-1][:2] == (c.start, c.end):
                run[-1] = run[-1][:2] + (run[-1][2] + "\n" + text,)
            else:
                run.append((c.start, c.end, text))
        want[l] = run
    doc = ctx.call(B().WRITERS[w]().write, cs)
    if model(cs) != before:
        raise Mismatch("the writer merged the captions of its input", (w, seq), before, model(cs))
    d = refs.DfxpDoc(doc)
    got = {l: [(c.start, c.end, "\n".join(refs.norm_lines(c.text))) for c in cues] for l, cues in d.cues()}
    if got != {l: [(s, e, "\n".join(refs.norm_lines(t))) for s, e, t in r] for l, r in want.items()}:
        raise Mismatch("output of %s is not the merged set" % w, (w, [SPANS[s] for s in seq]), want, got)
    ctx.state(desc)


def spaces(tier):
    q = tier == "quick"
    n = 6 if q else 8
    return [
        Space("merge", "all caption lists of 0..%d captions over 4 timespans x 7 node kinds (rotated)" % n,
              lambda: ((s, v) for s in seqs(4, 0, n) for v in ((len(s) + sum(s)) % 7,)), run_merge),
        Space("merge-languages", "2 languages of 0..3, 3 languages of 0..2, 4 languages of 0..1 captions over 4 timespans",
              lambda: itertools.chain(itertools.product(seqs(4, 0, 3), list(seqs(4, 0, 3))), itertools.product(list(seqs(4, 0, 2)), repeat=3),
                                      itertools.product(list(seqs(4, 0, 1)), repeat=4)), run_merge_langs),
        Space("merge-close", "all lists of 2..%d captions over %d timespans differing in 0.4 us to 1 ms" % (4 if q else 5, len(CLOSE)), lambda: seqs(len(CLOSE), 2, 4 if q else 5), run_merge_close),
        Space("merge-shared", "1..3 captions of 1..2 nodes out of 3 shared node objects x equal or different times", cases_shared, run_merge_shared),
        Space("merge-nodes", "runs of 1..%d captions over 7 node kinds x lead/tail x 4 number types" % (3 if q else 5),
              lambda: ((s, l, k) for s in seqs(7, 1, 3 if q else 5) for l in range(4) for k in range(4)), run_merge_nodes),
        Space("run-lengths", "every composition of 1..%d captions into runs" % (11 if q else 15), lambda: ((k, c) for k in range(1, 12 if q else 16) for c in range(1 << (k - 1))), run_long),
        Space("long-runs", "1..%d runs of 1..40, 64, 100, 128, 257 captions" % (4 if q else 40),
              lambda: ((n, k, m) for n in list(range(1, 41)) + [64, 100, 128, 257] for k in (0, 1) for m in range(1, 5 if q else 41)), run_huge),
        Space("adjust", "lists of 0..%d captions over 6 times x %d skews x %d offsets" % (2 if q else 4, len(SKEWS), len(OFFS)),
              lambda: ((s, a, b) for s in seqs(6, 0, 2 if q else 4) for a in range(len(SKEWS)) for b in range(len(OFFS))), run_adjust),
        Space("adjust-edge", "offsets within 2 us of the negated skewed start: 7 skews x 7 starts x 7 distances", lambda: prod(7, 7, 7), run_edge),
        Space("histories", "all sequences of 1..%d operations of %d (merge, retimings, writes) x 64 sets, %d read or special sets" % (2 if q else 3, len(OPS), 14),
              lambda: ((s, o) for s in range(64 + 14) for o in seqs(len(OPS), 1, 3 if s >= 64 and q else 2 if q else 3 if s < 64 else 5)), run_history),
        Space("merging-writers", "Legacy and SinglePositioning DFXP writers: lists of 1..%d captions x 1-2 languages" % (4 if q else 6),
              lambda: ((s, w, k) for s in seqs(4, 1, 4 if q else 6) for w in ("legacy", "single") for k in (0, 1)), run_writers),
    ]
