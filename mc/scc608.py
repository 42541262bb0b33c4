"""CEA-608 as specified (tables computed from the standard's layout, nothing taken from pycaption): a token language for
caption programs, its encoder to Scenarist words, and a reference decoder with a real 15x32 character memory."""
from fractions import Fraction


def par(b):
    return b if bin(b).count("1") % 2 else b | 0x80


def word(b1, b2):
    return "%02x%02x" % (par(b1), par(b2))


# ---- characters
BASIC = {c: chr(c) for c in range(0x20, 0x80)}
BASIC.update({0x2A: "á", 0x5C: "é", 0x5E: "í", 0x5F: "ó", 0x60: "ú", 0x7B: "ç", 0x7C: "÷", 0x7D: "Ñ", 0x7E: "ñ", 0x7F: "█"})
SPECIAL = dict(enumerate("®°½¿™¢£♪à\u00a0èâêîôû", 0x30))
EXT1 = dict(enumerate("ÁÉÓÚÜü‘¡*’—©℠•“”ÀÂÇÈÊËëÎÏïÔÙùÛ«»", 0x20))
EXT2 = dict(enumerate("ÃãÍÌìÒòÕõ{}\\^_¦~ÄäÖöß¥¤|ÅåØø┌┐└┘", 0x20))
CODE = {}
for _c, _v in BASIC.items():
    CODE[_v] = ("b", _c)
for _c, _v in SPECIAL.items():
    CODE[_v] = ("s", word(0x11, _c))
for _c, _v in EXT1.items():
    CODE[_v] = ("x", word(0x12, _c))
for _c, _v in EXT2.items():
    CODE[_v] = ("x", word(0x13, _c))
EXT_SET = set(EXT1.values()) | set(EXT2.values())

# the standard and its transcriptions disagree on which of these glyphs a code shows
SAME = str.maketrans({"¦": "|", "\u00a0": " ", "’": "'"})


def canon(s):
    return s.translate(SAME)


# ---- controls
RCL, BS, EDM, CR, ENM, EOC, RDC = (word(0x14, x) for x in (0x20, 0x21, 0x2C, 0x2D, 0x2E, 0x2F, 0x29))
RU = {2: word(0x14, 0x25), 3: word(0x14, 0x26), 4: word(0x14, 0x27)}
TO = {n: word(0x17, 0x20 + n) for n in (1, 2, 3)}
MID = [word(0x11, 0x20 + n) for n in range(16)]
MID_ITALIC = (14, 15)
ROWS = {1: (0x11, 0), 2: (0x11, 1), 3: (0x12, 0), 4: (0x12, 1), 5: (0x15, 0), 6: (0x15, 1), 7: (0x16, 0), 8: (0x16, 1), 9: (0x17, 0),
        10: (0x17, 1), 11: (0x10, 0), 12: (0x13, 0), 13: (0x13, 1), 14: (0x14, 0), 15: (0x14, 1)}


def pac(row, attr):
    """attr 0..31: 0-13 colours (even plain, odd underlined), 14/15 italics, 16.. indents of four columns"""
    h, n = ROWS[row]
    return word(h, 0x40 + 0x20 * n + attr)


PAC_OF = {pac(r, a): (r, 0 if a < 16 else (a - 16) // 2 * 4, a in MID_ITALIC) for r in ROWS for a in range(32)}
MID_OF = {w: i in MID_ITALIC for i, w in enumerate(MID)}
TO_OF = {w: n for n, w in TO.items()}
CONTROL = {RCL, BS, EDM, CR, ENM, EOC, RDC} | set(RU.values()) | set(TO_OF) | set(PAC_OF) | set(MID_OF)
SPECIAL_OF = {word(0x11, c): v for c, v in SPECIAL.items()}
EXT_OF = {word(0x12, c): v for c, v in EXT1.items()}
EXT_OF.update({word(0x13, c): v for c, v in EXT2.items()})
HEADER = "Scenarist_SCC V1.0"


def is_two_byte(w):
    return (int(w[:2], 16) & 0x7F) < 0x20


# ---- programs -> words
# tokens: ("t", text) ("pac", row, attr, tab) ("mid", i) ("bs",) ("ext", stand_in, char) ("w", word)
def encode(tokens, dbl):
    """words of a token list; dbl(kind) -> True when codes of this kind are sent twice.  kinds: ctl pac mid bs spec ext"""
    out = []
    half = [None]

    def flush():
        if half[0] is not None:
            out.append("%02x80" % par(half[0]))
            half[0] = None

    def emit(w, kind):
        flush()
        out.append(w)
        if dbl(kind):
            out.append(w)

    for t in tokens:
        k = t[0]
        if k == "t":
            for ch in t[1]:
                kind, code = CODE[ch]
                if kind == "b":
                    if half[0] is None:
                        half[0] = code
                    else:
                        out.append("%02x%02x" % (par(half[0]), par(code)))
                        half[0] = None
                elif kind == "s":
                    emit(code, "spec")
                else:
                    raise ValueError(ch)
        elif k == "ext":
            for ch in t[1]:
                code = CODE[ch][1]
                if half[0] is None:
                    half[0] = code
                else:
                    out.append("%02x%02x" % (par(half[0]), par(code)))
                    half[0] = None
            emit(CODE[t[2]][1], "ext")
        elif k == "pac":
            flush()
            unit = [pac(t[1], t[2])] + ([TO[t[3]]] if t[3] else [])
            out += unit * (2 if dbl("pac") else 1)
        elif k == "mid":
            emit(MID[t[1]], "mid")
        elif k == "bs":
            emit(BS, "bs")
        else:
            emit(t[1], "ctl")
    flush()
    return out


MIDCELL = "\x00"


class Decoder:
    """Pop-on reference decoder.  feed(word) one word at a time; memories are dicts (row, col) -> (char, italic).
    A mid-row code occupies one cell (MIDCELL).  addr[row] = cursor address given by the PAC/TO of that row."""

    def __init__(self):
        self.disp, self.non = {}, {}
        self.disp_addr, self.non_addr = {}, {}
        self.order, self.disp_order = [], []
        self.row, self.col, self.ital = 15, 0, False
        self.last = None
        self.fresh = False     # nothing written since the PAC

    def put(self, ch):
        self.non[(self.row, min(self.col, 31))] = (ch, self.ital)
        self.fresh = False
        if self.row not in self.non_addr:
            self.non_addr[self.row] = self.col
        if self.row not in self.order:
            self.order.append(self.row)
        self.col = min(self.col + 1, 32)

    def back(self):
        if self.col > 0:
            self.col -= 1
            self.non.pop((self.row, self.col), None)

    def feed(self, w):
        """-> None | 'eoc' | 'edm'"""
        if is_two_byte(w):
            if w == self.last:
                self.last = None
                return None
            self.last = w
        else:
            self.last = None
            for b in (int(w[:2], 16) & 0x7F, int(w[2:], 16) & 0x7F):
                if b >= 0x20:
                    self.put(BASIC[b])
            return None
        if w in PAC_OF:
            self.row, self.col, self.ital = PAC_OF[w]
            self.non_addr[self.row] = self.col
            self.fresh = True
        elif w in TO_OF:
            self.col = min(self.col + TO_OF[w], 31)
            self.non_addr[self.row] = self.col
        elif w in MID_OF:
            self.ital = MID_OF[w]
            self.put(MIDCELL)
        elif w in SPECIAL_OF:
            self.put(SPECIAL_OF[w])
        elif w in EXT_OF:
            self.back()
            self.put(EXT_OF[w])
        elif w == BS:
            self.back()
        elif w == ENM:
            self.non, self.non_addr, self.order = {}, {}, []
        elif w == EDM:
            self.disp, self.disp_addr, self.disp_order = {}, {}, []
            return "edm"
        elif w == EOC:
            self.disp, self.non = self.non, self.disp
            self.disp_addr, self.non_addr = self.non_addr, self.disp_addr
            self.disp_order, self.order = self.order, self.disp_order
            return "eoc"
        return None

    def screen(self):
        """displayed rows in screen order: [(row, col address, [(char, italic)...])], rows without a visible character left out"""
        out = []
        for r in sorted({r for r, c in self.disp}):
            cells = {c: v for (rr, c), v in self.disp.items() if rr == r}
            if not any(v[0].strip() and v[0] != MIDCELL and v[0] != "\u00a0" for v in cells.values()):
                continue
            lo, hi = min(cells), max(cells)
            out.append((r, self.disp_addr.get(r, lo), [cells.get(c, (" ", False)) for c in range(lo, hi + 1)]))
        return out


def group(rows):
    """consecutive screen rows -> blocks [(row, col, [cells of each line])]"""
    out = []
    for r, c, cells in rows:
        if out and out[-1][0] + len(out[-1][2]) == r:
            out[-1][2].append(cells)
        else:
            out.append((r, c, [cells]))
    return out


PUNCT = ".,!?"
BLANK = " \u00a0\x00"


def match_line(cells, got, italics=True):
    """Does the decoded line `got` = [(char, italic)] show what the screen cells show?  Blanks at both ends are invisible;
    a mid-row code is a blank cell which may coincide with a neighbouring blank and may be dropped before punctuation."""
    a = [(canon(c) if c != MIDCELL else c, i) for c, i in cells]
    b = [(canon(c), i) for c, i in got]
    while a and a[0][0] in BLANK:
        a.pop(0)
    while a and a[-1][0] in BLANK:
        a.pop()
    while b and b[0][0] == " ":
        b.pop(0)
    while b and b[-1][0] == " ":
        b.pop()
    i = j = 0
    while i < len(a):
        if a[i][0] in BLANK:
            k = i
            while a[k][0] in BLANK:
                k += 1
            mids = sum(1 for x in a[i:k] if x[0] == MIDCELL)
            reals = k - i - mids
            n = 0
            while j < len(b) and b[j][0] == " ":
                j += 1
                n += 1
            lo = reals if not mids else max(min(reals, 1), 0 if a[k][0] in PUNCT else 1)
            if mids and reals > 1:
                lo = reals
            if not lo <= n <= k - i:
                return "%d blanks instead of %d..%d before %r" % (n, lo, k - i, a[k][0])
            i = k
            continue
        if j >= len(b):
            return "character %r is missing" % (a[i][0],)
        if a[i][0] != b[j][0]:
            return "character %r instead of %r" % (b[j][0], a[i][0])
        if italics and a[i][1] != b[j][1]:
            return "character %r (%d) %s" % (a[i][0], i, "is not in italics" if a[i][1] else "is in italics")
        i += 1
        j += 1
    if j != len(b):
        return "surplus text %r" % ("".join(c for c, _ in b[j:]),)
    return None


def stamp(total_frames, drop):
    """timecode label (30 labels per second; drop-frame counts labels as in pycaption: hh*3600+mm*60+ss+ff/30)"""
    f = total_frames % 30
    s = total_frames // 30
    return "%02d:%02d:%02d%s%02d" % (s // 3600, s // 60 % 60, s % 60, ";" if drop else ":", f)


def instant(frames, drop, offset=0):
    """exact microseconds of a frame count, minus the offset (seconds), floored at zero"""
    t = Fraction(frames * 1000000, 30)
    if not drop:
        t = t * 1001 / 1000
    return max(Fraction(0), t - Fraction(offset) * 1000000)


def doc(lines):
    """[(stamp, words)] -> SCC document"""
    return HEADER + "\n\n" + "".join("%s\t%s\n\n" % (s, " ".join(w)) for s, w in lines)


def decode(lines, offset=0):
    """run the reference decoder over [(frames, drop, words)] -> cues [(start, end or None, screen)] in order of display"""
    d = Decoder()
    cues = []
    for frames, drop, words in lines:
        for n, w in enumerate(words):
            ev = d.feed(w)
            if ev:
                t = instant(frames + n, drop, offset)
                if cues and cues[-1][1] is None:
                    cues[-1][1] = t
                if ev == "eoc":
                    s = d.screen()
                    if s:
                        cues.append([t, None, s])
    return cues


def flags(caption):
    """caption nodes -> (lines of (char, italic), problem)"""
    from pycaption.base import CaptionNode
    out = [[]]
    on = 0
    for n in caption.nodes:
        if n.type_ == CaptionNode.TEXT:
            out[-1] += [(c, on > 0) for c in n.content]
        elif n.type_ == CaptionNode.BREAK:
            out.append([])
        elif n.content.get("italics"):
            on += 1 if n.start else -1
            if on not in (0, 1):
                return out, "unbalanced italic spans"
        else:
            return out, "unexpected style node %r" % (n,)
    return out, "italic span left open" if on else None
