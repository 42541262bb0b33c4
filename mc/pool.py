"""Caption sets (factories, so that every execution gets its own objects) and documents with unusual but legal features."""
US = 1000000


def _b():
    from mc import build as B
    return B


I = {"italics": True}


def L(i):
    B = _b()
    S = B.Size.from_string
    P = lambda a, b: B.Point(S(a), S(b))
    X = lambda a, b: B.Stretch(S(a), S(b))
    return [None,
            B.Layout(alignment=B.Alignment("center", "top")),
            B.Layout(origin=P("10%", "20%")),
            B.Layout(origin=P("10%", "20%"), extent=X("30%", "40%"), padding=B.Padding(S("1%"), S("2%"), S("3%"), S("4%"))),
            B.Layout(webvtt_positioning="align:left position:10%"),
            B.Layout(origin=P("64px", "36px"), extent=X("128px", "720px")),
            B.Layout(padding=B.Padding(S("1em"), S("1c"), S("3pt"), S("4px"))),
            B.Layout(origin=P("85%", "90%"), extent=X("50%", "50%")),
            B.Layout(alignment=B.Alignment("right", None)),
            B.Layout(padding=B.Padding(S("5%"), S("6%"), S("7%"), S("8%")), alignment=B.Alignment("left", "bottom"))][i]


NL = 10


def simple(lay=0):
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, "one\ntwo", layout=L(lay)), B.cap(2 * US, 3 * US, ["three"], node_layout=L(lay)), B.cap(5 * US, 6 * US, "four & <five>")]})


def styled():
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, ["a ", (True, I), "b", None, "c", (False, I), " d"], style={"class": "k"}),
                             B.cap(2 * US, 3 * US, [(True, {"class": "k", "bold": True}), "e", (False, {"class": "k", "bold": True})], style={"text-align": "left"})]},
                  styles={"k": {"color": "red", "italics": True, "text-align": "center"}, "p": {"font-family": "x"}, "z": {}, "en": {"lang": "en-US"}})


def unclosed():
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, [(True, I), "open"]), B.cap(2 * US, 3 * US, ["plain"])]})


def overclosed():
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, ["x", (False, I), "y"]), B.cap(2 * US, 3 * US, [(True, {"color": "red"}), "z", (False, {"color": "red"}), (False, I)])]})


def nested():
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, [(True, I), "a ", (True, {"bold": True}), "b", (False, {"bold": True}), " c", (False, I)]),
                             B.cap(3 * US, 4 * US, [(True, {}), "n", (False, {})])]})


def langs():
    B = _b()
    return B.cset({"fr": [B.cap(US, 2 * US, "un"), B.cap(3 * US, 4 * US, "deux")], "en": [B.cap(0, 2 * US, "one"), B.cap(3 * US, 5 * US, "two")],
                   "de": [B.cap(6 * US, 7 * US, "eins")]}, list_layouts={"fr": L(3), "de": L(1)}, styles={"frcc": {"lang": "fr"}})


def concurrent():
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, "a"), B.cap(US, 2 * US, "b", style={"color": "red"}), B.cap(US, 2 * US, ["c"], layout=L(2)),
                             B.cap(2 * US, 3 * US, "d"), B.cap(2 * US, 3 * US, [(True, I), "e", (False, I)])]})


def mixed_layouts():
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, [("a", L(2)), (None, L(2)), ("b", L(3)), ((True, I), L(1)), ("c", L(1)), ((False, I), L(1))], layout=L(9)),
                             B.cap(2 * US, 3 * US, ["d"], layout=L(7))]}, layout=L(9), list_layouts={"en-US": L(3)})


def pixels():
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, "ok", layout=L(2)), B.cap(2 * US, 3 * US, ["p"], layout=L(5)), B.cap(3 * US, 4 * US, [("q", L(6))])]})


def pixel_list():
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, ["p"])], "fr": [B.cap(US, 2 * US, ["q"], layout=L(5))]}, layout=L(6), list_layouts={"en-US": L(6)})


def aliased():
    """one list of captions, one layout, one style dictionary in several places"""
    B = _b()
    lay, st = L(5), {"color": "red", "class": "k"}
    c = B.Caption(US, 2 * US, [B.CaptionNode.create_text("x", layout_info=lay), B.CaptionNode.create_break(layout_info=lay)], style=st, layout_info=lay)
    d = B.Caption(3 * US, 4 * US, c.nodes, style=st, layout_info=lay)
    lst = B.CaptionList([c, d, c], layout_info=L(2))
    return B.CaptionSet({"en": lst, "fr": lst}, styles={"k": st, "j": st})


def default_style():
    """built without styles: the default arguments of the constructors"""
    B = _b()
    return B.CaptionSet({"en-US": B.CaptionList([B.Caption(US, 2 * US, [B.CaptionNode.create_text("x")]),
                                                 B.Caption(3 * US, 4 * US, [B.CaptionNode.create_text("y")])])})


def floats():
    B = _b()
    return B.cset({"en-US": [B.cap(1001000.0 / 3, 2002000.5, ["a"]), B.cap(2002000.5, 86399999999.0, "b")]})


def empty():
    B = _b()
    return B.cset({"en-US": []})


def partly_empty():
    B = _b()
    return B.cset({"en-US": [], "fr": [B.cap(0, US, "x")]}, list_layouts={"en-US": L(5)})


def selfref():
    """a style that refers to itself: resolving it does not end"""
    B = _b()
    return B.cset({"en-US": [B.cap(US, 2 * US, ["a"], layout=L(3)), B.cap(3 * US, 4 * US, ["x"], style={"class": "k"})]}, styles={"k": {"class": "k"}}, layout=L(9))


def bad_content():
    """a text node without text makes every writer raise half-way"""
    B = _b()
    c = B.cap(3 * US, 4 * US, ["x", (True, I), "y"], layout=L(3), style={"italics": True})
    c.nodes[2].content = None
    return B.cset({"en-US": [B.cap(US, 2 * US, [(True, I), "a", (False, I)], layout=L(2)), c]}, styles={"k": {"color": "red"}}, layout=L(9), list_layouts={"en-US": L(3)})


def bad_time():
    B = _b()
    c = B.cap(3 * US, 4 * US, ["x", (True, I), "y"], layout=L(3))
    c.end = None
    return B.cset({"en-US": [B.cap(US, 2 * US, [(True, I), "a"], layout=L(2)), c], "fr": [B.cap(0, US, "z", layout=L(1))]}, layout=L(9))


def wide():
    B = _b()
    return B.cset({"en-US": [B.cap(US, 3 * US, "w" * 40 + " \u266a caf\u00e9 \u4e2d"), B.cap(3 * US, 6 * US, "long line of text that has to be wrapped by the writer\nand more")]})


SETS = [simple, lambda: simple(2), lambda: simple(4), styled, unclosed, overclosed, nested, langs, concurrent, mixed_layouts, pixels, pixel_list, aliased,
        default_style, floats, empty, partly_empty, selfref, bad_content, bad_time, wide]
NAMES = ["simple", "simple+origin", "simple+vtt", "styled", "unclosed", "overclosed", "nested", "langs", "concurrent", "mixed_layouts", "pixels", "pixel_list",
         "aliased", "default_style", "floats", "empty", "partly_empty", "selfref", "bad_content", "bad_time", "wide"]


# ------------------------------------------------------------------ documents
SRT = ("1\n00:00:01,000 --> 00:00:02,000\nfirst\nsecond <i>x</i>\n\n2\n00:00:03,000 --> 00:00:04,500\nthird &amp; \u00e9\n")
VTT = ("WEBVTT\n\nNOTE hi\n\n00:01.000 --> 00:02.000 align:left position:10%\n<v Bob>Hello</v> <i>you</i>\nline\n\nid\n00:00:03.000 --> 00:00:04.000\nx &lt; y\n")
MDVD = "{0}{0}30\n{30}{60}a|b\n{60}{90}c\n"
MDVD2 = "{30}{60}a|b\n{60}{90}c\n"
DFXP = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><styling>'
        '<style xml:id="s" tts:color="red" tts:fontStyle="italic"/></styling><layout><region xml:id="r" tts:origin="10% 20%" tts:extent="30% 40%" '
        'tts:textAlign="center" tts:displayAlign="before"/></layout></head><body><div xml:lang="en" region="r"><p begin="00:00:01.000" end="00:00:02.000" '
        'style="s">a<br/><span tts:fontStyle="italic">b</span> c</p><p begin="3s" dur="1s">d</p></div><div xml:lang="fr"><p begin="1s" end="2s">e</p></div></body></tt>')
DFXP2 = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"><head/><body><div><p begin="1s" end="2s">a</p></div></body></tt>')
SAMI = ('<SAMI><HEAD><STYLE TYPE="text/css"><!-- P {margin-left: 5%; text-align: center;} .ENCC {Name: English; lang: en-US; color: #ff0000;} '
        '.FRCC {lang: fr;} .DECC {lang: de; margin-top: 2%;} #big {font-size: 20pt;} --></STYLE></HEAD><BODY><SYNC start=1000><P class=FRCC>un<P class=ENCC>'
        '<i>one</i><br/>more <span style="text-align:right;color:blue">sp</span></SYNC><SYNC start=2000><P class=ENCC>&nbsp;<P class=DECC id=big>eins</SYNC>'
        '<SYNC start=3000><P class=FRCC>deux<P class=ENCC style="text-align:left">two</SYNC></BODY></SAMI>')
SAMI2 = '<SAMI><BODY><SYNC start=1000><P>x<SYNC start=2000><P>&nbsp;</BODY></SAMI>'
SAMI3 = ('<SAMI><HEAD><STYLE TYPE="text/css"><!-- P {color: red;} .A {lang: aa;} .B {lang: bb;} .C {lang: cc;} .D {lang: dd;} .E {lang: ee;} --></STYLE></HEAD><BODY>'
         '<SYNC start=1000><P class=E>e</P><P class=C>c</P><P class=A>a</P><P class=D>d</P><P class=B>b</P></SYNC></BODY></SAMI>')
SCC = "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 94ae 9420 9420 9470 9470 c1c2 9120 91ae c8e5 942f 942f\n\n00:00:03:00\t942c 942c\n\n00:00:05:00\t94ae 9420 1340 c1c2 942f\n"
SCC_OPEN = "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 9420 9470 91ae c1c2\n"
SCC_OPEN2 = "Scenarist_SCC V1.0\n\n00:00:01;00\t94ae 9420 9470 c1c2 942f 94ae 9420 1370 91ae c2c2\n"
SCC_ROLL = "Scenarist_SCC V1.0\n\n00:00:01:00\t9425 9425 94ad 94ad 9470 9470 c1c2\n\n00:00:02:00\t9425 94ad 9470 c2c1\n\n00:00:04:00\t942c\n"
SCC_PAINT = "Scenarist_SCC V1.0\n\n00:00:01:00\t9429 9470 91ae c1c2\n\n00:00:03:00\t9429 1340 c2c1\n"
SCC_LONG = "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 9420 9470 %s 942f\n\n00:00:03:00\t942c\n" % " ".join(["c1c2"] * 18)
SCC_SHORT = "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 9420 9470 c1c2 942f 942c\n"
SCC_BAD = "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 9420 9470 91ae c1c2 942f\n\nnot a line\n\n00:00:03:00\t9425\n"
SCC_MIX = "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 9420 9470 c1c2 9425 94ad 9470 c2c1 9429 1340 c1c1\n"
SCC_EMPTY = "Scenarist_SCC V1.0\n\n"
