"""C18: geometry values are values: equality, hashing, parsing, printing."""
import itertools
import re
from decimal import Decimal
from fractions import Fraction

from mc import iso
from mc.core import Mismatch, Space, prod, seqs

ASSUMPTIONS = [
    "'a non-negative decimal number': one or more ASCII digits, optionally a dot and one or more ASCII digits",
    "a value exactly halfway between two printable values may be printed as either",
    "a value of one class is never equal to a value of another class (a point is not a stretch)",
]
UNITS = ["px", "em", "%", "c", "pt"]


def B():
    from mc import build
    return build


# ------------------------------------------------------------------ equality and hashing
# plain descriptions: size (value, unit); point/stretch (size, size); padding 4 sizes; alignment (h, v); layout (origin, extent, padding, alignment)
SIZES = [(v, u) for u in UNITS for v in (0.0, 1.0, 16.0, 0.5, 50.0, 0.001, 100.0 / 3)] + [(-0.0, "%"), (-1.0, "px"), (1e-9, "%"), (33.33, "%"), (1e6, "px"),
                                                                          (0.1 + 0.2, "%"), (0.3, "%"), (1e-12, "%"), (33.33333333333333, "%"), (33.333, "%"), (1.0 + 2 ** -52, "px"), (1e6 + 2 ** -30, "px")]
FEW = [(0.0, "%"), (0.0, "px"), (1.0, "%"), (1.0, "px"), (2.0, "%"), (50.0, "c"), (0.5, "em"), (0.375, "pt")]
PAIRS = list(itertools.product(FEW, FEW))
PADS = list(itertools.product(FEW[:4], repeat=4))
ALIGNS = list(itertools.product([None, "LEFT", "CENTER", "RIGHT", "START", "END"], [None, "TOP", "CENTER", "BOTTOM"]))
DIM = [None, (FEW[0], FEW[2]), (FEW[2], FEW[0]), (FEW[2], FEW[2]), (FEW[3], FEW[2]), (FEW[0], FEW[0]), (FEW[1], FEW[1])]
LPAD = [None, (FEW[0],) * 4, (FEW[1],) * 4, (FEW[2], FEW[0], FEW[0], FEW[0]), (FEW[0], FEW[2], FEW[0], FEW[0]), (FEW[0], FEW[0], FEW[2], FEW[0]), (FEW[0], FEW[0], FEW[0], FEW[2])]
LALI = [None, (None, None), ("LEFT", None), (None, "TOP"), ("LEFT", "TOP"), ("CENTER", "CENTER"), ("CENTER", None), (None, "CENTER"), ("START", None), ("END", "BOTTOM"), ("RIGHT", "BOTTOM")]


def mk_size(s, how=0):
    b = B()
    if how == 1 and s[0] >= 0 and "e" not in repr(s[0]) and repr(s[0]) != "-0.0":
        return b.Size.from_string(repr(s[0]) + s[1])
    if how == 2 and float(s[0]).is_integer() and repr(s[0]) != "-0.0":
        return b.Size(int(s[0]), b.UnitEnum(s[1]))
    return b.Size(s[0], b.UnitEnum(s[1]))


def mk(kind, d, how=0):
    b = B()
    if d is None:
        return None
    if kind == "size":
        return mk_size(d, how)
    if kind == "point":
        return b.Point(mk_size(d[0], how), mk_size(d[1], how))
    if kind == "stretch":
        return b.Stretch(mk_size(d[0], how), mk_size(d[1], how))
    if kind == "padding":
        x = [mk_size(z, how) for z in d]
        return b.Padding(before=x[0], after=x[1], start=x[2], end=x[3])
    if kind == "alignment":
        return b.Alignment(d[0] and b.H[d[0]], d[1] and b.V[d[1]])
    return b.Layout(origin=mk("point", d[0], how), extent=mk("stretch", d[1], how), padding=mk("padding", d[2], how), alignment=mk("alignment", d[3], how),
                    webvtt_positioning=d[4] if len(d) > 4 else None)


def pool_of(kind):
    if kind == "size":
        return SIZES
    if kind in ("point", "stretch"):
        return PAIRS + [(a, b) for a in SIZES[::5] for b in SIZES[::7]]
    if kind == "padding":
        return PADS
    if kind == "alignment":
        return ALIGNS
    if kind == "layout":
        return list(itertools.product(DIM[:5], DIM[1:3] + DIM[:1] + DIM[4:6], LPAD, LALI))
    return list(itertools.product(DIM, DIM, LPAD[:3], LALI))[::2]


_CACHE = {}


def built(kind):
    """two families of equal but separate objects, made along different roads"""
    if kind not in _CACHE:
        k = "layout" if kind.startswith("layout") else kind
        p = pool_of(kind)
        _CACHE[kind] = p, [mk(k, d, 0) for d in p], [mk(k, d, 1 + i % 2) for i, d in enumerate(p)]
    return _CACHE[kind]


def run_pairs(desc, ctx):
    kind, i = desc
    p, xs, ys = built(kind)
    x, d = xs[i], p[i]
    hx = hash(x)
    for j, y in enumerate(ys):
        eq = bool(x == y)
        want = d == p[j]
        if eq != want or bool(y == x) != want or bool(x != y) == want:
            raise Mismatch("== is %r, != is %r, swapped == is %r" % (eq, bool(x != y), bool(y == x)), (kind, d, p[j]), want)
        if want and hash(y) != hx:
            raise Mismatch("equal values with different hashes", (kind, d, p[j]), hx, hash(y))
    if hash(x) != hx:
        raise Mismatch("hash changed", (kind, d))
    ctx.executions += 3 * len(ys)
    ctx.step(len(ys))
    ctx.state((kind, d))
    for other in (None, 0, "", (), d, "x"):
        if bool(x == other) or not bool(x != other):
            raise Mismatch("equal to something that is no %s" % kind, (kind, d, other))


def run_tables(desc, ctx):
    """the use of equality and hash: sets and dictionaries hold one entry per different value"""
    kind, step = desc
    p, xs, ys = built(kind)
    idx = list(range(step % 3, len(p), 1 + step))
    table = {}
    for i in idx:
        table.setdefault(xs[i], p[i])
    ctx.executions += 3 * len(p)
    want = []
    seen = set()
    for i in idx:
        if p[i] not in seen:
            seen.add(p[i])
            want.append(p[i])
    if list(table.values()) != want:
        raise Mismatch("a dictionary keyed by the values holds other entries than the distinct values", (kind, step), len(want), len(table))
    for i in range(len(p)):
        got = table.get(ys[i])
        if got != (p[i] if p[i] in seen else None):
            raise Mismatch("lookup of an equal value finds another entry", (kind, p[i]), p[i], got)
    if len(set(xs) | set(ys)) != len(set(p)):
        raise Mismatch("set of the values", (kind,), len(set(p)), len(set(xs) | set(ys)))
    ctx.state(desc)


def run_cross(desc, ctx):
    """values of different classes"""
    a, b = [FEW[i] for i in desc]
    objs = [("size", a), ("point", (a, b)), ("stretch", (a, b)), ("padding", (a, a, b, b)), ("alignment", (None, None)), ("layout", ((a, b), None, None, None)),
            ("layout", (None, (a, b), None, None)), ("layout", (None, None, (a, a, b, b), None)), ("layout", (None,) * 4)]
    made = [mk(k, d) for k, d in objs]
    for i, x in enumerate(made):
        for j, y in enumerate(made):
            ctx.executions += 1
            if bool(x == y) != (i == j) or bool(x != y) != (i != j):
                raise Mismatch("== between values of different kinds", (objs[i], objs[j]), i == j, bool(x == y))
    ctx.state(desc)


# ------------------------------------------------------------------ size grammar
def parse_size(s):
    """the reference parser: (Fraction, unit) or None"""
    if s == "0":
        return Fraction(0), "px"
    for u in UNITS:
        if s.endswith(u):
            n = s[:len(s) - len(u)]
            whole, dot, frac = n.partition(".")
            if whole and all(c in "0123456789" for c in whole) and (not dot or frac and all(c in "0123456789" for c in frac)):
                return Fraction(n), u
    return None


def check_string(s, ctx, fn=None):
    from pycaption.exceptions import CaptionReadSyntaxError
    b = B()
    ctx.executions += 1
    want = parse_size(s)
    try:
        got = b.Size.from_string(s)
    except CaptionReadSyntaxError:
        if want is not None:
            raise Mismatch("valid size rejected", s, want)
        return
    except Exception as e:
        raise Mismatch("not the syntax error: %s: %s" % (type(e).__name__, e), s, want)
    if want is None:
        raise Mismatch("accepted, but is no size", s, "CaptionReadSyntaxError", repr(got))
    # a bare 0 is 0 in any unit; pycaption says pixels and documents nothing: only the number is judged
    if got.value != float(want[0]) or (got.unit.value != want[1] and s != "0"):
        raise Mismatch("wrong value", s, want, repr(got))
    ctx.outcome((got.value, got.unit.value))


ALPHA = "015.-+exp%cmt \n٣_"


def run_strings(desc, ctx):
    n, pre = desc
    head = "".join(ALPHA[i] for i in pre)
    if n < len(pre):
        check_string(head, ctx)
        ctx.state(head)
        return
    for tail in itertools.product(ALPHA, repeat=n - len(pre)):
        s = head + "".join(tail)
        check_string(s, ctx)
    ctx.step(len(ALPHA) ** (n - len(pre)))
    ctx.state(desc)


TOKENS = ["0", "1", "00", "12", "9.5", ".", ".5", "5.", "0.0", "-", "+", "e", "E3", "px", "em", "%", "c", "pt", "p", "x", "PX", "cm", " ", "\n", "\t", "٣", "²", ",", "_", "inf", "nan", "0x1", "|", "\x00", "ex", "in"]


def run_tokens(desc, ctx):
    head = [TOKENS[i] for i in desc]
    for t in TOKENS:
        for u in ["", "px", "%", "0"]:
            check_string("".join(head) + t + u, ctx)
    ctx.step(len(TOKENS) * 4)
    ctx.state(desc)


# ------------------------------------------------------------------ printing
def rounded(v):
    """the printable values nearest to the float: one, or two for an exact tie"""
    x = Fraction(v) * 100
    lo = x.numerator // x.denominator
    if x - lo == Fraction(1, 2):
        return [Fraction(lo, 100), Fraction(lo + 1, 100)]
    return [Fraction(lo if x - lo < Fraction(1, 2) else lo + 1, 100)]


def check_print(v, u, ctx):
    b = B()
    ctx.executions += 1
    s = b.Size(v, b.UnitEnum(u))
    t = str(s)
    m = re.fullmatch(r"([0-9]+(?:\.[0-9]{1,2})?)(px|em|%|c|pt)", t)
    if not m or m.group(2) != u or Fraction(m.group(1)) not in rounded(v):
        raise Mismatch("printed wrongly", (v, u), [str(Decimal(r.numerator) / Decimal(r.denominator)) + u for r in rounded(v)], t)
    if s.to_xml_attribute() != t:
        raise Mismatch("attribute value differs from the printed value", (v, u), t, s.to_xml_attribute())
    back = b.Size.from_string(t)
    if back.value != float(Fraction(m.group(1))) or back.unit.value != u or str(back) != t:
        raise Mismatch("re-parsing the printed value does not reproduce it", (v, u), t, repr(back))
    if Fraction(v) == Fraction(float(Fraction(m.group(1)))) and not back == s:
        raise Mismatch("value with two decimals does not survive printing and parsing", (v, u), t, repr(back))


def run_print(desc, ctx):
    u, base = desc
    for k in range(base, base + 1000):
        check_print(k / 1000.0, UNITS[u], ctx)
        check_print(k * 100.0 / 640, UNITS[u], ctx)
        check_print(k / 7.0, UNITS[u], ctx)
    ctx.step(3000)
    ctx.state(desc)


ODD = [0.0, 1e-9, 0.004999, 0.005, 0.00500001, 0.015, 0.025, 0.125, 0.375, 2.675, 1.005, 99.995, 99.9949, 99.99, 99.999, 100, 100.0, 999999.994, 999999.995, 1e6, 1e9 + 0.5, 1e15 + 0.25,
       123456789012.345, 2 ** 53, 2.0 ** 60, 1e21, 1e22, 1e100, 10, 20, 100, 1000, 1200, 0.1, 0.10, 0.2, 0.01, 0.001, 10.10, 100.5, 1 / 3, 2 / 3]


def run_print_odd(desc, ctx):
    check_print(ODD[desc[0]], UNITS[desc[1]], ctx)
    ctx.state(desc)


# ------------------------------------------------------------------ composite parse and print
STR = ["0", "0px", "1px", "2.5%", "10.25em", "3c", "4.125pt", "33.333%", "100%", "7.1%", "00%", "1.0px"]


def run_padding(desc, ctx):
    b = B()
    ss = [STR[i] for i in desc]
    attr = " ".join(ss)
    p = ctx.call(b.Padding.from_xml_attribute, attr)
    n = len(ss)
    before, end, after, start = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}[n]
    want = {"before": before, "end": end, "after": after, "start": start}
    for side, k in want.items():
        v, u = parse_size(ss[k])
        got = getattr(p, side)
        if got.value != float(v) or (got.unit.value != u and ss[k] != "0"):
            raise Mismatch("padding %s" % side, attr, ss[k], repr(got))
    out = p.to_xml_attribute().split(" ")
    if out != [str(getattr(p, s)) for s in ("before", "end", "after", "start")]:
        raise Mismatch("printed padding", attr, [str(getattr(p, s)) for s in ("before", "end", "after", "start")], out)
    again = b.Padding.from_xml_attribute(p.to_xml_attribute())
    exp = mk("padding", tuple((rounded_float(getattr(p, s).value), getattr(p, s).unit.value) for s in ("before", "after", "start", "end")))
    if not again == exp or hash(again) != hash(exp) or again.to_xml_attribute() != p.to_xml_attribute():
        raise Mismatch("re-parsed padding", attr, repr(exp), repr(again))
    ctx.state(attr)


def rounded_float(v):
    return float(rounded(v)[0]) if len(rounded(v)) == 1 else float(str(round(v, 2)))


def run_two(desc, ctx):
    b = B()
    a, c = STR[desc[0]], STR[desc[1]]
    for cls, names in ((b.Point, ("x", "y")), (b.Stretch, ("horizontal", "vertical"))):
        o = ctx.call(cls.from_xml_attribute, a + " " + c)
        for nm, s in zip(names, (a, c)):
            v, u = parse_size(s)
            got = getattr(o, nm)
            if type(o) is not cls or got.value != float(v) or (got.unit.value != u and s != "0"):
                raise Mismatch("%s.%s" % (cls.__name__, nm), (a, c), s, repr(o))
        t = o.to_xml_attribute()
        if t != "%s %s" % (getattr(o, names[0]), getattr(o, names[1])):
            raise Mismatch("printed", (a, c), None, t)
        again = cls.from_xml_attribute(t)
        if again.to_xml_attribute() != t or [getattr(again, n).value for n in names] != [rounded_float(getattr(o, n).value) for n in names]:
            raise Mismatch("re-parsed", (a, c), t, repr(again))
    ctx.state(desc)


BADS = ["", "1", "-1px", "+1px", "1 px", "1e2px", ".5px", "5.px", "1,5px", "1PX", "px", "1pxx", "1cm", "auto", "٣px", "1..5%", "%", "0.0", "00", "1px\n", "\n1px", "1_0px", "nan%"]
DOC = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><layout>'
       '<region xml:id="r" %s="%s"/></layout></head><body><div><p region="r" begin="1s" end="2s">x</p></div></body></tt>')


def run_bad_attr(desc, ctx):
    """an invalid size anywhere in an attribute is the syntax error; through the classes and through the DFXP reader"""
    from pycaption.exceptions import CaptionReadSyntaxError
    b = B()
    bad, attr, pos = BADS[desc[0]], ["tts:origin", "tts:extent", "tts:padding"][desc[1]], desc[2]
    n = 2 if desc[1] < 2 else 4
    if pos >= n:
        return
    vals = ["1%"] * n
    vals[pos] = bad
    s = " ".join(vals)
    if " " not in bad and bad:
        cls = [b.Point, b.Stretch, b.Padding][desc[1]]
        r, e = ctx.call_exc(cls.from_xml_attribute, s)
        if not isinstance(e, CaptionReadSyntaxError):
            raise Mismatch("%s accepts an invalid size" % cls.__name__, s, "CaptionReadSyntaxError", repr(r) if e is None else repr(e))
    if "\n" in bad:
        return                                  # attribute values are normalised by the XML parser
    r, e = ctx.call_exc(b.READERS["dfxp"]().read, DOC % (attr, s))
    if not isinstance(e, CaptionReadSyntaxError):
        raise Mismatch("the DFXP reader takes an invalid %s" % attr, DOC % (attr, s), "CaptionReadSyntaxError", repr(e) if e else repr(r.get_captions("en")[0].layout_info))
    ctx.state(desc)


def run_good_attr(desc, ctx):
    b = B()
    n, k = desc[0], desc[1:]
    vals = [STR[i] for i in k]
    attr = ["tts:origin", "tts:extent", "tts:padding"][n]
    cs = ctx.call(b.READERS["dfxp"]().read, DOC % (attr, " ".join(vals)))
    lay = cs.get_captions("en")[0].layout_info
    got = [lay.origin, lay.extent, lay.padding][n]
    want = [b.Point, b.Stretch, b.Padding][n].from_xml_attribute(" ".join(vals))
    if not got == want or hash(got) != hash(want):
        raise Mismatch("layout read from the region", DOC % (attr, " ".join(vals)), repr(want), repr(lay))
    ctx.state(desc)


# ------------------------------------------------------------------ receivers stay as they are
def run_immutable(desc, ctx):
    """relativizing / fitting / adding / printing: the receiver and its parts keep their values; the result is a value again"""
    from pycaption.exceptions import RelativizationError
    i, w, h = desc
    p, xs, _ = built("layout2")
    W, H = [None, 640, 1][w], [None, 360, 7][h]
    x = mk("layout", p[i])
    parts = [x] + [q for q in (x.origin, x.extent, x.padding) if q is not None]
    before, hashes = iso.dump(x), [hash(q) for q in parts]
    results = []
    for q in parts:
        r, e = ctx.call_exc(q.as_percentage_of, W, H)
        if e is not None and not (isinstance(e, RelativizationError) and (W is None or H is None)):
            raise Mismatch("relativizing raises", (p[i], W, H), None, repr(e))
        if e is None:
            if not r.is_relative():
                raise Mismatch("relativized value is not relative", (p[i], W, H), None, repr(r))
            results.append((r, iso.dump(r)))
            r2 = r.as_percentage_of(W, H)
            if not r2 == r or hash(r2) != hash(r):
                raise Mismatch("relativizing again changes the value", (p[i], W, H), repr(r), repr(r2))
        if isinstance(r, type(x)) and r is not None:
            f = ctx.call(r.fit_to_screen)
            results.append((f, iso.dump(f)))
            f2 = ctx.call(f.fit_to_screen)
            results.append((f2, iso.dump(f2)))
    for q in parts:
        str(q), repr(q), q.serialized() if hasattr(q, "serialized") else 0, bool(q), hash(q)
        if hasattr(q, "to_xml_attribute"):
            q.to_xml_attribute()
    if iso.dump(x) != before or [hash(q) for q in parts] != hashes or not x == mk("layout", p[i]):
        raise Mismatch("the receiver was modified: %s" % iso.diff(before, iso.dump(x)), (p[i], W, H))
    for r, d in results:
        if iso.dump(r) != d:
            raise Mismatch("an earlier result was modified: %s" % iso.diff(d, iso.dump(r)), (p[i], W, H))
    ctx.state(desc)


def run_sizes_ops(desc, ctx):
    b = B()
    a, c = SIZES[desc[0]], SIZES[desc[1]]
    x, y = mk_size(a), mk_size(c)
    before = iso.dump((x, y))
    for f in (lambda: x + y, lambda: x - y, lambda: abs(x), lambda: x < y, lambda: x == y, lambda: x.as_percentage_of(video_width=640),
              lambda: x.as_percentage_of(video_height=10), lambda: x.as_percentage_of(), lambda: b.Point(x, y).add_stretch(b.Stretch(y, x)), lambda: b.Point(x, y) - b.Point(y, x)):
        ctx.call_exc(f)
        if iso.dump((x, y)) != before:
            raise Mismatch("an operation modified its operand: %s" % iso.diff(before, iso.dump((x, y))), (a, c))
    ctx.state(desc)


def spaces(tier):
    q = tier == "quick"

    def pairs():
        for k in ("size", "point", "stretch", "padding", "alignment"):
            for i in range(len(pool_of(k))):
                yield k, i
        for k in ("layout", "layout2"):
            for i in range(0, len(pool_of(k)), 1 if not q else 5 if k == "layout" else 3):
                yield k, i

    def strings():
        yield 0, ()
        for n in range(1, (5 if q else 6) + 1):
            for pre in seqs(len(ALPHA), min(n, 2), min(n, 2)):
                yield n, pre

    def paddings():
        for n in range(1, 5):
            yield from itertools.product(range(len(STR) if n < 4 or not q else 6), repeat=n)

    nl2 = len(pool_of("layout2"))
    return [
        Space("pairs", "all pairs of sizes (%d), points, stretches (%d), paddings (%d), alignments (24); layouts: %s of %d x all (every None-ness; %d)" % (
            len(SIZES), len(pool_of("point")), len(PADS), "every 5th" if q else "all", len(pool_of("layout")), nl2), pairs, run_pairs),
        Space("tables", "dictionaries and sets over the pools, 7 subsets each", lambda: ((k, s) for k in ("size", "point", "stretch", "padding", "alignment", "layout", "layout2")
                                                                                     for s in range(7)), run_tables),
        Space("classes", "values of 9 different kinds made of the same sizes", lambda: prod(len(FEW), len(FEW)), run_cross),
        Space("strings", "all strings up to %d over %r" % (5 if q else 6, ALPHA), strings, run_strings),
        Space("tokens", "all sequences of up to %d of %d tokens, 4 endings" % (3 if q else 4, len(TOKENS)), lambda: seqs(len(TOKENS), 0, 2 if q else 3), run_tokens),
        Space("printing", "5 units x k/1000, k*100/640, k/7 for k < %d" % (20000 if q else 400000), lambda: ((u, k) for u in range(5) for k in range(0, 20000 if q else 400000, 1000)), run_print),
        Space("printing-odd", "%d rounding edges and magnitudes x 5 units" % len(ODD), lambda: prod(len(ODD), 5), run_print_odd),
        Space("padding", "paddings of 1..4 of 12 size strings (4 of %d)" % (6 if q else 12), paddings, run_padding),
        Space("two-dimensional", "points and stretches of 12 x 12 strings", lambda: prod(len(STR), len(STR)), run_two),
        Space("bad-attributes", "%d invalid sizes x 3 attributes x position" % len(BADS), lambda: prod(len(BADS), 3, 4), run_bad_attr),
        Space("dfxp-attributes", "valid origin, extent, padding attributes read from a document",
              lambda: itertools.chain(((n, a, b) for n in (0, 1) for a in range(12) for b in range(12)),
                                      ((2,) + k for n in range(1, 5) for k in itertools.product(range(len(STR)) if n < 3 else range(1, 6), repeat=n))), run_good_attr),
        Space("receivers", "layouts x widths x heights: relativize, fit, print, repeat", lambda: ((i, w, h) for i in range(0, nl2, 7 if q else 1) for w in range(3) for h in range(3)), run_immutable),
        Space("size-operations", "all pairs of sizes x 10 operations", lambda: prod(len(SIZES), len(SIZES)), run_sizes_ops),
    ]
