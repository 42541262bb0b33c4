"""C10: reading is a function of document and options; the sets it returns are isolated."""
import itertools

from mc import iso, pool
from mc.core import Mismatch, Space, prod

ASSUMPTIONS = [
    "equivalent caption sets = equal complete dumps (type and all attributes, recursively; languages, styles in order)",
    "a read that raises has to raise the same exception type and message in every history",
]

# reader configurations: format, constructor options, read arguments, documents
SCCS = ["SCC", "SCC_OPEN", "SCC_OPEN2", "SCC_ROLL", "SCC_PAINT", "SCC_LONG", "SCC_SHORT", "SCC_BAD", "SCC_MIX", "SCC_EMPTY"]
CONF = [("srt", {}, {}), ("srt", {}, {"lang": "fr"}), ("vtt", {}, {}), ("vtt", {"ignore_timing_errors": False, "time_shift_milliseconds": 500}, {"lang": "de"}),
        ("mdvd", {}, {}), ("mdvd", {}, {"lang": "xx"}), ("dfxp", {}, {}), ("dfxp", {"read_invalid_positioning": True}, {}), ("sami", {}, {}), ("scc", {}, {}),
        ("scc", {}, {"offset": 2, "lang": "fr"}), ("scc", {}, {"simulate_roll_up": True})]
BAD = {"srt": "1\n00:00:01,000 --> 00:00:02,000\nx\n\n2\n00:00:0x,000 --> 00:00:04\ny\n",
       "vtt": "WEBVTT\n\n00:01.000 --> 00:02.000\nx\n\n00:05.000 --> 00:04.000\ny\n\n00:0x --> z\nq\n",
       "mdvd": "{0}{0}30\n{30}{60}a\nnot a cue\n",
       "dfxp": '<tt xml:lang="en"><body><div><p begin="1s" end="2s"><span tts:fontStyle="italic">a</span></p><p begin="x" end="2s">b</p></div></body></tt>',
       "sami": '<SAMI><BODY><SYNC start=1000><P>x</P></SYNC><SYNC><P>y</P></SYNC></BODY></SAMI>',
       "scc": pool.SCC_BAD}
DOCS = {"srt": [pool.SRT, pool.SRT.replace("\n", "\r\n"), BAD["srt"], "", "1\n00:00:05,000 --> 00:00:06,000\nonly\n"],
        "vtt": [pool.VTT, BAD["vtt"], "WEBVTT\n\n", "WEBVTT\n\n00:00.000 --> 00:01.000 line:5%\nz\n", "WEBVTT\n\n10:00:05.000 --> 10:00:06.000\n<v A>a\n\n00:01.000 --> 00:02.000\nb"],
        "mdvd": [pool.MDVD, pool.MDVD2, BAD["mdvd"], "", "{0}{0}12.5\n{1}{5}x\n"],
        "dfxp": [pool.DFXP, pool.DFXP2, BAD["dfxp"], "<tt><body><div></div></body></tt>",
                 '<tt xmlns="x" xml:lang="es"><body><div xml:lang="es" tts:textAlign="right"><p begin="1s" end="2s" tts:origin="5% 5%">q <span>r</span></p></div>'
                 '<div><p begin="0s" end="9s">u</p></div></body></tt>'],
        "sami": [pool.SAMI, pool.SAMI2, pool.SAMI3, BAD["sami"], "<SAMI><BODY></BODY></SAMI>",
                 '<SAMI><HEAD><STYLE><!-- .X {lang: it; text-align: right;} --></STYLE></HEAD><BODY><SYNC start=5><P class=X>i <b>j'],
        "scc": [getattr(pool, n) for n in SCCS]}


def docs_of(ci):
    return DOCS[CONF[ci][0]]


def reader(ci):
    from mc import build as B
    return B.READERS[CONF[ci][0]](**CONF[ci][1])


def read(rd, ci, di):
    """(result object or None, dump)"""
    try:
        cs = rd.read(docs_of(ci)[di], **CONF[ci][2])
        return cs, iso.dump(cs)
    except Exception as e:
        return None, "RAISED %s: %s" % (type(e).__name__, e)


def reference(ci, di):
    return read(reader(ci), ci, di)[1]


_REF = {}


def prepare():
    keys = [(c, d) for c in range(len(CONF)) for d in range(len(docs_of(c)))]
    for k, (st, out) in zip(keys, iso.isolated_map(reference, keys)):
        if st != "ok":
            raise RuntimeError(out)
        _REF[k] = out
    keys = [(c, d) for c in range(len(CONF)) for d in range(len(MINI[CONF[c][0]]))]
    for k, (st, out) in zip(keys, iso.isolated_map(mini_ref, keys)):
        if st != "ok":
            raise RuntimeError(out)
        _MREF[k] = out


# ------------------------------------------------------------------ edits of a returned set
def first(cs):
    return cs.get_captions(cs.get_languages()[0])[0]


def some_layouts(cs):
    out = [cs.layout_info]
    for l in cs.get_languages():
        out.append(cs.get_layout_info(l))
        for c in cs.get_captions(l):
            out.append(c.layout_info)
            out += [n.layout_info for n in c.nodes]
    return [x for x in out if x is not None]


def e_add_style(cs):
    cs.add_style("planted", {"color": "planted"})


def e_caption_style(cs):
    first(cs).style["color"] = "planted"


def e_all_caption_styles(cs):
    for l in cs.get_languages():
        for c in cs.get_captions(l):
            c.style["planted"] = "x"
            c.style.pop("class", None)


def e_style_rules(cs):
    for _, rules in cs.get_styles():
        rules["planted"] = "x"


def e_nodes(cs):
    from mc import build as B
    for l in cs.get_languages():
        for c in cs.get_captions(l):
            c.nodes.append(B.CaptionNode.create_text("planted"))
            for n in c.nodes:
                if isinstance(n.content, str):
                    n.content += "!"
                elif isinstance(n.content, dict):
                    n.content["planted"] = True


def e_lists(cs):
    for l in cs.get_languages():
        cs.get_captions(l).append(first(cs))
        cs.get_captions(l).reverse()


def e_set_captions(cs):
    cs.set_captions("zz", cs.get_captions(cs.get_languages()[0]))
    cs.set_layout_info("zz", "planted")


def e_times(cs):
    cs.adjust_caption_timing(offset=5, rate_skew=2)
    for l in cs.get_languages():
        for c in cs.get_captions(l):
            c.start += 1


def e_layouts(cs):
    for x in some_layouts(cs):
        for attr in ("origin", "extent", "padding", "alignment", "webvtt_positioning"):
            setattr(x, attr, "planted")


def e_deep_layouts(cs):
    for x in some_layouts(cs):
        for attr in ("origin", "extent", "padding", "alignment"):
            y = getattr(x, attr, None)
            if y is not None:
                for k in list(vars(y)):
                    z = getattr(y, k)
                    if hasattr(z, "value") and hasattr(z, "unit"):
                        z.value = 77.0
                    setattr(y, k, "planted")


def e_set_layout(cs):
    cs.layout_info = "planted"
    for l in cs.get_languages():
        cs.set_layout_info(l, "planted")


def e_merge(cs):
    from pycaption.base import merge_concurrent_captions
    merge_concurrent_captions(cs)


def e_set_styles(cs):
    cs.set_styles({"planted": {"a": "b"}})


def e_styles_inplace(cs):
    cs.get_style("planted2").update({"x": "y"})
    getattr(cs, "_styles", {})["planted3"] = {}


EDITS = [e_add_style, e_caption_style, e_all_caption_styles, e_style_rules, e_nodes, e_lists, e_set_captions, e_times, e_layouts, e_deep_layouts, e_set_layout,
         e_merge, e_set_styles, e_styles_inplace]


# ------------------------------------------------------------------ histories
# ops: ("r", slot, conf, doc)  read with reader object `slot` (None: a new one)
#      ("w", writer, n)        write the set returned by read number n
#      ("e", edit, n)          edit the set returned by read number n
def play(ops):
    from mc import build as B
    readers, results = {}, []
    log = []
    for op in ops:
        if op[0] == "r":
            _, slot, ci, di = op
            key = slot, CONF[ci][0], repr(CONF[ci][1])      # constructor options belong to the object, read options to the call
            rd = reader(ci) if slot is None else readers.get(key) or reader(ci)
            if slot is not None:
                readers[key] = rd
            cs, d = read(rd, ci, di)
            results.append([cs, d, False])
            log.append(d)
        elif op[0] == "w":
            cs = results[op[2]][0] if op[2] < len(results) else None
            if cs is not None:
                try:
                    B.WRITERS[op[1]]().write(cs)
                except Exception:
                    pass
            log.append(None)
        else:
            cs = results[op[2]][0] if op[2] < len(results) else None
            if cs is not None:
                try:
                    EDITS[op[1]](cs)
                except Exception:
                    pass                     # an edit that makes no sense for this set
                results[op[2]][2] = True
            log.append(None)
        for k, (cs, d, edited) in enumerate(results):
            if cs is not None and not edited:
                now = iso.dump(cs)
                if now != d:
                    return log, (k, iso.diff(d, now))
    return log, None


def play_all(histories):
    out = []
    for ops in histories:
        out.append(play(ops))
        if out[-1][1]:
            break
    return out


def show(ops):
    out = []
    for op in ops:
        if op[0] == "r":
            out.append(("read", "fresh reader" if op[1] is None else "reader %r" % (op[1],), CONF[op[2]], docs_of(op[2])[op[3]]))
        elif op[0] == "w":
            out.append(("write", op[1], "result %d" % op[2]))
        else:
            out.append(("edit", EDITS[op[1]].__name__, "result %d" % op[2]))
    return out


def check_histories(histories, ctx, pristine=True):
    st, results = iso.isolated(play_all, histories)
    if st != "ok":
        raise Mismatch("history died: %s" % results, [show(ops) for ops in histories[:3]])
    for n, (ops, (log, changed)) in enumerate(zip(histories, results)):
        ctx.executions += len(log)
        ctx.step(len(log))
        before = "after %d other histories in the same process" % n if n else "in a fresh process"
        for k, d in enumerate(log):
            if d is None:
                continue
            want = _REF[ops[k][2], ops[k][3]]
            if d != want:
                raise Mismatch("read %d of the history differs from an isolated read: %s" % (k + 1, iso.diff(want, d)), (show(ops[:k + 1]), before),
                               repr(want)[:3000], repr(d)[:3000])
            ctx.outcome(d)
        if changed:
            raise Mismatch("operation %d changed the set returned by read %d: %s" % (len(log), changed[0] + 1, changed[1]), (show(ops[:len(log)]), before))
        ctx.state(repr(ops))


ALL = [(c, d) for c in range(len(CONF)) for d in range(len(docs_of(c)))]


def same_fmt(ci):
    return [(c, d) for c, d in ALL if CONF[c][:2] == CONF[ci][:2]]


def run_reuse(desc, ctx):
    """one reader object: every sequence with this beginning (read options may change between the reads)"""
    seq = list(desc)
    hs = []
    for last in same_fmt(seq[0][0]):
        s = seq + [list(last)]
        hs.append([("r", 0, c, d) for c, d in s])
    check_histories(hs, ctx)


def run_cross(desc, ctx):
    a, b = desc
    c = ALL[a]
    hs = []
    for d in ALL[b::8]:
        hs += [[("r", None) + c, ("r", None) + d, ("r", None) + c], [("r", 0) + c, ("r", 1) + d, ("r", 0) + c, ("r", 1) + d]]
    check_histories(hs, ctx)


def run_edit(desc, ctx):
    """two reads, an edit of one of them, further reads"""
    e, a = desc
    hs = []
    for b in [x for x in ALL if x[0] in (0, 2, 4, 6, 8, 9)]:
        c = ALL[a]
        if not hs:
            hs.append([("r", 0) + c, ("r", None) + b, ("e", e, 0), ("r", None) + b, ("r", None) + c, ("r", 0) + c])
        hs.append([("r", None) + b, ("r", 0) + c, ("e", e, 1), ("r", None) + b, ("r", 0) + c, ("e", e, 0), ("r", None) + b])
    check_histories(hs, ctx)


def run_write(desc, ctx):
    w, a = desc
    c = ALL[a]
    check_histories([[("r", 0) + c, ("w", w, 0), ("r", 0) + c, ("w", w, 1), ("r", None) + c], [("r", None) + c, ("w", w, 0)] + [("r", None) + x for x in ALL[a % 3::3]]], ctx)


def run_deep(desc, ctx):
    """longer histories over a small alphabet of operations"""
    fmt, seq = desc
    ci = [i for i, c in enumerate(CONF) if c[0] == fmt]
    alpha = [("r", ("obj", fmt), ci[0], 0), ("r", None, ci[0], 1), ("r", ("obj", fmt), ci[-1], 2), ("e", 0, 0), ("e", 2, 0), ("e", 4, 1), ("e", 9, 0), ("w", "dfxp", 0), ("w", "sami", 1)]
    if fmt == "scc":
        alpha[1] = ("r", ("obj", fmt), ci[0], 3)
        alpha[2] = ("r", ("obj", fmt), ci[0], 1)
    hs = []
    for last in range(len(alpha)):
        ops = [alpha[i] for i in seq] + [alpha[last]]
        if any(o[0] == "r" for o in ops):
            hs.append(ops + [("r", ("obj", fmt), ci[0], 0)])
    if hs:
        check_histories(hs, ctx)


# ------------------------------------------------------------------ small documents, one feature each: whatever a reader may keep
def _sami(body, css=".E {Name: x; lang: en;} .F {lang: fr; text-align: right;} #s {color: red; text-align: center;} .k {font-style: italic;}"):
    return '<SAMI><HEAD><STYLE TYPE="text/css"><!-- %s --></STYLE></HEAD><BODY>%s</BODY></SAMI>' % (css, body)


def _syncs(*ps):
    return _sami("".join("<SYNC start=%d>%s</SYNC>" % (1000 * (i + 1), p) for i, p in enumerate(ps)))


def _dfxp(body, head="", attrs=""):
    return ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xmlns:ttp="http://www.w3.org/ns/ttml#parameter" xml:lang="en" %s>'
            "<head>%s</head><body>%s</body></tt>") % (attrs, head, body)


def _p(text, attrs="", t=1):
    return '<p begin="%ds" end="%ds" %s>%s</p>' % (t, t + 1, attrs, text)


_LAY = ('<styling><style xml:id="a" tts:color="red"/><style xml:id="b" style="a" tts:fontStyle="italic"/></styling><layout><region xml:id="r" tts:origin="10% 20%" '
        'tts:extent="30% 40%" tts:textAlign="left" tts:displayAlign="before" tts:padding="1% 2% 3% 4%"/></layout>')


def _scc(*lines):
    return "Scenarist_SCC V1.0\n\n" + "".join("00:00:%02d;%02d\t%s\n\n" % (2 * i + 1, i, l) for i, l in enumerate(lines))


_POP = "94ae 94ae 9420 9420 9470 9470 %s 942f 942f"
MINI = {
    "sami": [_syncs("<P class=E>b</P>"), _syncs('<P class=E style="text-align:right">a</P>'), _syncs('<P class=E><span style="text-align:right">a</span></P>'),
             _syncs('<P class=E>a</P>', '<P class=E><span style="text-align:center">a</span></P>'), _syncs("<P class=F>f</P>"), _syncs("<P class=E>e</P><P class=F>f</P>"),
             _syncs("<P class=F>f</P><P class=E>e</P>"), _syncs('<P class=E id=s>x</P>'), _syncs('<P class=E><i>a'), _syncs('<P class=E><b>a</b><br>b</P>'),
             _syncs('<P class=E><span style="text-align:right"> </span></P>'), _syncs('<P class=E>a</P>', '<P class=E><span style="text-align:left">&nbsp;</span></P>'),
             _syncs("<P class=E>a</P>", "<P class=E>&nbsp;</P>"), _syncs("<P>no class</P>"), _syncs('<P class=E><span class=k>k</span></P>'),
             _sami("<SYNC start=1000><P class=E>x</P></SYNC>", ".E {lang: de; margin-left: 5%; margin-top: 10px; text-align: center;}"),
             _sami("<SYNC start=1000><P class=E>x</P></SYNC>", "P {color: blue; font-size: 9pt;} .E {lang: nl;}"), _sami("<SYNC start=zz><P class=E>x</P></SYNC>"),
             _sami("<SYNC start=1000><P class=E style='text-align:right'>x</P></SYNC><SYNC><P class=E>y</P></SYNC>"), "<SAMI><BODY></BODY></SAMI>", "",
             _sami("<SYNC start=1000><P class=E>q &amp;lt; &eacute; &foo; </P></SYNC>", ".E {lang: en"), "no captions at all"],
    "vtt": ["WEBVTT\n\n00:01.000 --> 00:02.000%s\n%s\n" % x for x in ((" line:5% position:7%,start align:right", "a"), ("", "<v A>a</v>"), ("", "<i>a\nb</i>"), (" size:33%", "x"), ("", "a\n\n00:00.500 --> 00:03.000\nb"),
                                                                   ("", "a\n\n00:05.000 --> 00:04.000\nb"), ("", "a\n\nNOTE x\n\n00:05.000 --> zz\nb"), ("", ""))] + ["WEBVTT\n", "", "x", "WEBVTT t\n\nSTYLE\n::cue{}\n\nid\n100:00:01.000 --> 100:00:02.000\nz"],
    "srt": ["1\n00:00:01,000 --> 00:00:02,000\n%s" % x for x in ("a\n", "a\nb\n\n\n", "\n", "", "a\n\n2\n00:00:0x --> 3\nb\n", "a\n\nx\n", "a\n\n2\n00:00:00,000 --> 00:00:00,001\n5\n")] + ["", "\n", "x"],
    "mdvd": ["{0}{0}10\n{10}{20}a\n", "{10}{20}a|b\n", "{1}{1}50\n{10}{20}x\n", "{0}{0}29.97\n{0}{3}x\n{9}{10}y\n", "{0}{0}60\n{x}{20}x\n", "{5}{6}\n{7}{8}q", "", "{0}{0}12\n", "zz\n{1}{2}a"],
    "dfxp": [_dfxp("<div>%s</div>" % _p("x")), _dfxp("<div>%s</div>" % _p("x", 'region="r"'), _LAY), _dfxp("<div>%s</div>" % _p("x", 'region="r"')), _dfxp("<div>%s</div>" % _p('<span style="b">x</span>y'), _LAY),
             _dfxp("<div>%s</div>" % _p('<span style="b">x</span>y')), _dfxp("<div>%s</div>" % _p("x", 'begin="15f"').replace('begin="1s" ', ""), "", 'ttp:frameRate="10"'),
             _dfxp("<div>%s</div>" % _p("x", 'begin="15f"').replace('begin="1s" ', "")), _dfxp('<div xml:lang="fr">%s</div><div xml:lang="de">%s</div>' % (_p("x"), _p("y"))),
             _dfxp('<div>%s</div><div>%s</div>' % (_p("x"), _p("y", t=4))), _dfxp('<div tts:textAlign="right" tts:origin="5% 6%">' + _p("x") + "</div>"),
             _dfxp("<div>" + _p('x<span tts:origin="5% 6%" tts:fontWeight="bold">y<br/></span>', 'tts:textAlign="center"') + "</div>"), _dfxp("<div>%s</div>" % _p("x", 'tts:origin="5 6"')),
             _dfxp("<div>%s%s</div>" % (_p("x", 'tts:fontStyle="italic"'), '<p begin="q">z</p>')), _dfxp("<div></div>"), _dfxp("<div><p begin='1s' end='2s'> </p></div>"), "<tt", "", _dfxp("<div>%s</div>" % _p("x"), _LAY, 'ttp:cellResolution="40 20"'),
             _dfxp('<div xml:space="preserve"><p begin="1s" dur="2s">a  b</p></div>', _LAY.replace('"r"', '"q"')), _dfxp('<div region="r">%s</div>' % _p("x"), _LAY.replace("left", "right"))],
    "scc": [_scc(_POP % "6161 6262", "942c 942c"), _scc(_POP % "6161"), _scc("94ae 94ae 9420 9420 9470 9470 6161"), _scc("94ae 9420 91ae 9470 97a2 6161 942f", "942c"), _scc("9425 9425 94ad 94ad 9470 9470 6161"),
            _scc("9425 9425 94ad 94ad 9470 9470 6161", "9425 9425 94ad 94ad 9470 9470 6262", "942c 942c"), _scc("9427 9427 94ad 94ad 94d0 94d0 6161", "94ad 94ad 94d0 94d0 6262", "94ad 94ad 94d0 94d0 e3e3"),
            _scc("9429 9429 9470 9470 6161"), _scc("9429 9429 91d0 91d0 91ae 91ae 6161", "6262", "942c 942c"), _scc(_POP % "6161", _POP % "6262"), _scc(_POP % "91ae 91ae 6161", "942c 942c"), _scc(_POP % "6161 91ae", "942c"),
            _scc("942f 942f"), _scc("942c 942c"), _scc("6161 6262"), _scc("9137"), _scc("9420"), _scc("9470"), _scc("97a1"), _scc("94a1 94a1"), _scc("92a1"), _scc("zz"), _scc(), "", "Scenarist_SCC V1.0\n\nbad\t9420\n",
            _scc(_POP % ("6161 " * 20), "942c"), _scc("9420 9470 6161 942f", "942c 942c", "9420 1340 6262 942f"), "Scenarist_SCC V1.0\n\n00:00:01:00\t" + _POP % "6161 94d0 94d0 6262" + "\n\n00:00:03:00\t942c\n"],
}
_MREF = {}


def mini_read(rd, ci, doc):
    try:
        cs = rd.read(doc, **CONF[ci][2])
        return cs, iso.dump(cs)
    except Exception as e:
        return None, "RAISED %s: %s" % (type(e).__name__, e)


def mini_ref(ci, di):
    return mini_read(reader(ci), ci, MINI[CONF[ci][0]][di])[1]


def mini_play(ci, seqs_):
    out = []
    for seq in seqs_:
        rd = reader(ci)
        kept, log = [], []
        for cj, di in seq:
            cs, d = mini_read(rd, cj, MINI[CONF[ci][0]][di])
            kept.append((cs, d))
            log.append(d)
            for k, (c, x) in enumerate(kept):
                if c is not None and iso.dump(c) != x:
                    return out + [log], (k, iso.diff(x, iso.dump(c)))
        out.append(log)
    return out, None


def run_mini(desc, ctx):
    """one reader object reads a sequence of small documents of its format, with every choice of read arguments"""
    ci, seq = desc
    docs = MINI[CONF[ci][0]]
    cs = [c for c in range(len(CONF)) if CONF[c][:2] == CONF[ci][:2]]
    hs = [[(ci, x) for x in seq] + [(c, d)] for c in cs for d in range(len(docs))]
    st, res = iso.isolated(mini_play, ci, hs)
    if st != "ok":
        raise Mismatch("history died: %s" % (res,), (CONF[ci], [docs[i] for i in seq]))
    for h, log in zip(hs, res[0]):
        inp = [(CONF[c], docs[d]) for c, d in h]
        ctx.executions += len(log)
        ctx.step(len(log))
        ctx.state(repr(h))
        for (c, d), got in zip(h, log):
            ctx.outcome(got)
            if got != _MREF[c, d]:
                raise Mismatch("a read with a reader used before differs from an isolated read: %s" % iso.diff(_MREF[c, d], got), inp, repr(_MREF[c, d])[:3000], repr(got)[:3000])
    if res[1]:
        raise Mismatch("a later read changed the set returned by read %d: %s" % (res[1][0] + 1, res[1][1]), [(CONF[c], docs[d]) for c, d in hs[len(res[0]) - 1]])


# ------------------------------------------------------------------ every small SCC stream after every other small document
WORDS = ["9420", "9429", "9425", "942c", "942f", "94ad", "94ae", "94a1", "9470", "1340", "97a1", "9137", "92a1", "91ae", "6180"]


def words_play(ci, lasts):
    """(polluter or None, document, dump) for documents whose result depends on what the reader read before"""
    docs = MINI["scc"]
    out, fresh = [], []
    for ws in lasts:
        doc = _scc(" ".join(WORDS[i] for i in ws) + " 6162 942f", "942c 942c")
        fresh.append((doc, mini_read(reader(ci), ci, doc)[1]))
    for k, pol in enumerate(docs):
        rd = reader(ci)
        for doc, want in fresh:
            mini_read(rd, ci, pol)
            got = mini_read(rd, ci, doc)[1]
            if got != want:
                out.append((k, doc, want, got))
                return out, len(docs) * len(fresh)
    rd = reader(ci)
    for n, (doc, want) in enumerate(fresh):                  # ... and after each other
        for doc2, want2 in fresh[n:n + 15]:
            for x, w in ((doc, want), (doc2, want2)):
                got = mini_read(rd, ci, x)[1]
                if got != w:
                    out.append((-1, (doc, doc2), w, got))
                    return out, 0
    return out, (len(docs) + 15) * len(fresh)


def run_words(desc, ctx):
    ci, pre = desc
    lasts = [pre + (k,) for k in range(len(WORDS))]
    st, res = iso.isolated(words_play, ci, lasts)
    if st != "ok":
        raise Mismatch("history died: %s" % (res,), (CONF[ci], [WORDS[i] for i in pre]))
    for k, doc, want, got in res[0]:
        raise Mismatch("a read with a reader used before differs from a fresh one: %s" % iso.diff(want, got), (CONF[ci], MINI["scc"][k] if k >= 0 else "(one of these before)", doc), repr(want)[:3000], repr(got)[:3000])
    ctx.executions += 2 * res[1]
    ctx.step(res[1])
    ctx.state(desc)


# ------------------------------------------------------------------ long histories
def unique_doc(fmt, k):
    """documents that all differ in texts, times, styles and positions"""
    if fmt == "sami":
        return _sami("<SYNC start=%d><P class=E%d style='text-align:%s'>t%d<i>u</i></P></SYNC>" % (1000 + k, k % 7, ["left", "right", "center"][k % 3], k), ".E%d {lang: l%d; margin-left: %d%%;}" % (k % 7, k, k % 60))
    if fmt == "vtt":
        return "WEBVTT\n\n%02d:01.%03d --> %02d:59.000 line:%d%%\n<v N%d>t%d\n" % (k % 60, k % 1000, k % 60, k % 100, k, k)
    if fmt == "srt":
        return "%d\n00:%02d:01,%03d --> 00:%02d:59,000\nt%d\n" % (k + 1, k % 60, k % 1000, k % 60, k)
    if fmt == "mdvd":
        return "{0}{0}%d\n{%d}{%d}t%d\n" % (20 + k % 30, k + 1, k + 40, k)
    if fmt == "dfxp":
        return _dfxp('<div xml:lang="l%d">%s</div>' % (k % 50, _p('t%d<span style="s%d" tts:fontStyle="italic">x</span>' % (k, k % 9), 'region="r%d"' % (k % 11), 1 + k % 50)),
                     '<styling><style xml:id="s%d" tts:color="c%d"/></styling><layout><region xml:id="r%d" tts:origin="%d%% %d%%" tts:extent="10%% %d%%"/></layout>' % (k % 9, k, k % 11, k % 80, k % 70, 1 + k % 20))
    return _scc(_POP % ("%s e380 %s" % (["91ae 91ae", "9170 9170", "9137 9137", "6161"][k % 4], "6262 " * (1 + k % 5))), "942c 942c", ["9425 9425 94ad 94ad 9470 9470 6161", "9429 9429 9470 9470 6161", ""][k % 3])


def play_long(ci, n, rot, other):
    """n different documents (and now and then another format) with one reader; in between the small documents in turn"""
    rd, fmt = reader(ci), CONF[ci][0]
    docs = MINI[fmt]
    others = [reader(c) for c in range(len(CONF)) if CONF[c][0] != fmt] if other else []
    out, kept = [], []
    for k in range(n):
        cs, d = mini_read(rd, ci, unique_doc(fmt, k))
        if cs is not None and k % 16 == 0:
            kept.append((cs, d))
        if others:
            c = k % len(others)
            try:
                others[c].read(unique_doc([x[0] for x in CONF if x[0] != fmt][c], k))
            except Exception:
                pass
        if k % 4 == 0:
            di = (k // 4 + rot) % len(docs)
            out.append((k, di, mini_read(rd, ci, docs[di])[1]))
    for cs, d in kept:
        if iso.dump(cs) != d:
            return out, iso.diff(d, iso.dump(cs))
    return out, None


def run_long(desc, ctx):
    ci, n, rot, other = desc
    st, res = iso.isolated(play_long, ci, n, rot, other)
    inp = dict(reader=CONF[ci], documents=n, rotation=rot, others=other)
    if st != "ok":
        raise Mismatch("history died: %s" % (res,), inp)
    ctx.state(desc)
    ctx.executions += n
    for k, di, got in res[0]:
        ctx.step()
        ctx.outcome(got)
        if got != _MREF[ci, di]:
            raise Mismatch("a read after %d others differs from an isolated read: %s" % (k, iso.diff(_MREF[ci, di], got)), dict(inp, document=MINI[CONF[ci][0]][di]), repr(_MREF[ci, di])[:3000], repr(got)[:3000])
    if res[1]:
        raise Mismatch("later reads changed a set: %s" % res[1], inp)


# ------------------------------------------------------------------ hash seeds
def all_dumps():
    return {k: reference(*k) for k in ALL} | {("family", i): family_dump(i) for i in range(len(FAMILY))}


def sami_family():
    """classes and languages in every order: the place where hash order shows"""
    out = []
    names = ["aa", "bb", "cc", "dd"]
    for perm in itertools.permutations(range(4)):
        css = " ".join(".%s {lang: %s;}" % (n.upper(), n) for n in names)
        ps = "".join("<P class=%s>%s</P>" % (names[i].upper(), names[i]) for i in perm)
        out.append('<SAMI><HEAD><STYLE TYPE="text/css"><!-- %s --></STYLE></HEAD><BODY><SYNC start=1000>%s</SYNC></BODY></SAMI>' % (css, ps))
    return out


FAMILY = [("sami", d) for d in sami_family()] + [
    ("dfxp", '<tt xmlns="x" xmlns:tts="y" xml:lang="en"><head><styling>%s</styling></head><body>%s</body></tt>' % (
        "".join('<style xml:id="%s" tts:color="%s" tts:textAlign="left" tts:fontStyle="italic" tts:fontSize="1c"/>' % (n, n) for n in p),
        "".join('<div xml:lang="%s"><p begin="1s" end="2s" style="%s" tts:color="x" tts:fontFamily="y">%s</p></div>' % (n, n, n) for n in p)))
    for p in itertools.permutations(["a", "b", "c"])] + [(f, d) for f in MINI for d in MINI[f]]


def family_dump(i):
    from mc import build as B
    fmt, doc = FAMILY[i]
    try:
        return iso.dump(B.READERS[fmt]().read(doc))
    except Exception as e:
        return "RAISED %s: %s" % (type(e).__name__, e)


def seed_dumps(wrap):
    return {k: v for k, v in all_dumps().items()}


_SEED0 = {}


def run_hashseed(desc, ctx):
    seed, = desc
    if not _SEED0:
        _SEED0.update(iso.interpreter("mc.checks.c10", "seed_dumps", (0,), 0))
    got = iso.interpreter("mc.checks.c10", "seed_dumps", (0,), seed)
    ctx.executions += len(got)
    ctx.step(len(got))
    ctx.state(seed)
    for k, v in _SEED0.items():
        if got.get(k) != v:
            inp = FAMILY[k[1]] if k[0] == "family" else show([("r", None) + k])
            raise Mismatch("the result of a read depends on the hash seed (%d against 0): %s" % (seed, iso.diff(v, got.get(k))), inp)
    for k in ALL:
        if got[k] != _REF[k]:
            raise Mismatch("the result of a read differs between interpreters: %s" % iso.diff(_REF[k], got[k]), show([("r", None) + k]))


def spaces(tier):
    q = tier == "quick"
    if not _REF:
        prepare()

    def reuse():
        for a in ALL:
            yield (a,)
            for b in same_fmt(a[0]):
                if not q or CONF[a[0]][0] == "scc" or b[0] == a[0]:
                    yield a, b

    def deep():
        for f in ("srt", "vtt", "mdvd", "dfxp", "sami", "scc"):
            for s in seqs9(1, 2 if q else 4):
                yield f, s

    def seqs9(lo, hi):
        for n in range(lo, hi + 1):
            yield from prod(*[9] * n)

    return [
        Space("reader-reuse", "one reader object: all sequences of 2..3 documents per format (%d reader/document pairs), read options varying" % len(ALL), reuse, run_reuse),
        Space("mini-documents", "one reader object: all sequences of 1..%s small documents (SCC: one less; one feature each: %s) of its format, then any other one, read options varying"
              % ("2" if q else "3", ", ".join("%d %s" % (len(v), k) for k, v in MINI.items())),
              lambda: ((c, x) for c in range(len(CONF)) for n in ((1, 2) if q and CONF[c][0] != "scc" else (1,) if q else (1, 2, 3) if CONF[c][0] != "scc" else (1, 2)) for x in prod(*[len(MINI[CONF[c][0]])] * n)), run_mini),
        Space("scc-words", "all SCC lines of <= %d words over %d codes and then a caption, read after each of %d small documents and after each other (%s)"
              % (3 if q else 4, len(WORDS), len(MINI["scc"]), "default options, simulate_roll_up" if q else "all options"),
              lambda: ((c, p) for c in range(len(CONF)) if CONF[c][0] == "scc" and (not q or "offset" not in CONF[c][2]) for n in range(0, 3 if q else 4) for p in prod(*[len(WORDS)] * n)), run_words),
        Space("long-histories", "%s different documents read with one reader, with or without readers of other formats in between; every fourth time a small document (4 rotations)" % (300 if q else "300 and 1500"),
              lambda: ((c, n, r, o) for c in range(len(CONF)) for n in ((300,) if q else (300, 1500)) for r in range(0, 28, 7) for o in (0, 1)), run_long),
        Space("cross", "all pairs of reads of any two formats, fresh and reused readers: A B A, A B A B", lambda: prod(len(ALL), 8), run_cross),
        Space("edits", "14 edits of a returned set x all reads: other sets and later reads unaffected",
              lambda: ((e, a) for e in range(len(EDITS)) for a in range(len(ALL)) if not q or (e + a) % 2 == 0), run_edit),
        Space("writes", "8 writers x all reads: reading after writing", lambda: ((w, a) for w in ("srt", "vtt", "dfxp", "legacy", "single", "sami", "mdvd", "scc")
                                                                           for a in range(len(ALL))), run_write),
        Space("deep", "all histories of %d operations over 9 (reads with one reader, edits, writes) per format, then a read" % (3 if q else 5), deep, run_deep),
        Space("hash-seeds", "hash seeds 0..%d in fresh interpreters x all documents" % (15 if q else 127), lambda: ((s,) for s in range(1, 16 if q else 128)), run_hashseed),
    ]
