"""Independent readers (and small writers) of the five text formats.  Nothing here uses pycaption."""
import html
import html.parser
import re
from fractions import Fraction

from lxml import etree


class Bad(Exception):
    """the document is not a well-formed document of its format"""


class Cue:
    """start/end: exact microseconds (Fraction or int) or None; chars: [(character, frozenset(styles))], '\\n' = line break"""

    __slots__ = ("start", "end", "chars", "lang", "settings", "extra", "raw")

    def __init__(self, start, end, chars, lang=None, settings=None, extra=None, raw=None):
        self.start, self.end, self.chars, self.lang, self.settings, self.extra, self.raw = \
            start, end, chars, lang, settings, extra, raw

    @property
    def text(self):
        return "".join(c for c, _ in self.chars)

    def lines(self):
        return split_lines(self.text)

    def __repr__(self):
        return "Cue(%s, %s, %r)" % (self.start, self.end, self.text)


def split_lines(text):
    """visible lines: stripped, blank (whitespace / nbsp only) lines dropped"""
    return [x for x in (y.strip() for y in text.split("\n")) if x]


def norm(s):
    return " ".join(s.split())


def norm_lines(text):
    return [x for x in (norm(y) for y in text.split("\n")) if x]


PLAIN = frozenset()


def plain(s):
    return [(c, PLAIN) for c in s]


def newline_split(doc):
    """the three line terminators the formats know"""
    return doc.replace("\r\n", "\n").replace("\r", "\n").split("\n")


# ------------------------------------------------------------------ SRT
SRT_TIME = re.compile(r"([0-9]{2,}):([0-5][0-9]):([0-5][0-9]),([0-9]{3})\Z")


def srt_time(s):
    m = SRT_TIME.match(s)
    if not m:
        raise Bad("SRT timestamp %r" % s)
    h, mi, se, ms = map(int, m.groups())
    return ((h * 60 + mi) * 60 + se) * 1000000 + ms * 1000


def parse_srt(doc):
    cues = []
    block = []
    for line in newline_split(doc) + [""]:
        if line.strip():
            block.append(line)
            continue
        if not block:
            continue
        if not re.match(r"[0-9]+\Z", block[0]):
            raise Bad("SRT block does not start with a counter: %r" % block)
        if int(block[0]) != len(cues) + 1:
            raise Bad("SRT counter %r where %d is due" % (block[0], len(cues) + 1))
        if len(block) < 2 or " --> " not in block[1]:
            raise Bad("SRT block without a timing line: %r" % block)
        a, b = block[1].split(" --> ", 1)
        cues.append(Cue(srt_time(a), srt_time(b), plain("\n".join(block[2:]))))
        block = []
    return cues


# ------------------------------------------------------------------ WebVTT
VTT_TIME = re.compile(r"(?:([0-9]{2,}):)?([0-5][0-9]):([0-5][0-9])\.([0-9]{3})\Z")


def vtt_time(s):
    m = VTT_TIME.match(s)
    if not m:
        raise Bad("WebVTT timestamp %r" % s)
    h, mi, se, ms = (int(x or 0) for x in m.groups())
    return ((h * 60 + mi) * 60 + se) * 1000000 + ms * 1000


VTT_TAGS = {"c", "i", "b", "u", "ruby", "rt", "v", "lang"}
VTT_STYLE = {"i": "i", "b": "b", "u": "u"}


def vtt_cue_text(payload):
    """WebVTT cue text -> [(char, flags)]; the tags have to be known, balanced and properly nested"""
    out = []
    stack = []
    i = 0
    buf = ""

    def flush():
        nonlocal buf
        if buf:
            flags = frozenset(VTT_STYLE[t] for t in stack if t in VTT_STYLE)
            out.extend((c, flags) for c in html.unescape(buf))
            buf = ""

    while i < len(payload):
        ch = payload[i]
        if ch != "<":
            buf += ch
            i += 1
            continue
        j = payload.find(">", i)
        if j < 0:
            raise Bad("unterminated WebVTT tag in %r" % payload)
        flush()
        tag = payload[i + 1:j]
        i = j + 1
        if tag[:1].isdigit():
            continue
        close = tag.startswith("/")
        name = re.split(r"[. \t\n]", tag.lstrip("/"))[0]
        if name not in VTT_TAGS:
            raise Bad("unknown WebVTT tag <%s> in %r" % (tag, payload))
        if close:
            if not stack or stack[-1] != name:
                raise Bad("WebVTT tag </%s> closes %r in %r" % (name, stack, payload))
            stack.pop()
        else:
            stack.append(name)
    flush()
    if stack:
        raise Bad("WebVTT tags %r left open in %r" % (stack, payload))
    return out


def parse_vtt(doc, raw_text=False):
    lines = newline_split(doc)
    if not re.match(r"\ufeff?WEBVTT([ \t].*)?\Z", lines[0]):
        raise Bad("no WEBVTT header: %r" % lines[0])
    i = 1
    if i < len(lines) and lines[i] != "":
        raise Bad("no blank line after the WebVTT header: %r" % lines[i])
    cues = []
    n = len(lines)
    while i < n:
        if lines[i] == "":
            i += 1
            continue
        block = []
        while i < n and lines[i] != "":
            block.append(lines[i])
            i += 1
        k = 0 if "-->" in block[0] else 1
        if k >= len(block) or "-->" not in block[k]:
            if re.match(r"(NOTE|STYLE|REGION)([ \t].*)?\Z", block[0]):
                continue
            raise Bad("WebVTT block without a timing line: %r" % block)
        m = re.match(r"(\S+)[ \t]+-->[ \t]+(\S+)(?:[ \t]+(.*))?\Z", block[k])
        if not m:
            raise Bad("WebVTT timing line %r" % block[k])
        body = block[k + 1:]
        for b in body:
            if "-->" in b:
                raise Bad("arrow inside WebVTT cue text: %r" % b)
        text = "\n".join(body)
        chars = plain(text) if raw_text else vtt_cue_text(text)
        cues.append(Cue(vtt_time(m.group(1)), vtt_time(m.group(2)), chars, settings=m.group(3) or "", raw=text))
    return cues


def vtt_settings(s):
    out = {}
    for part in s.split():
        k, _, v = part.partition(":")
        if not v or k in out or k not in ("align", "position", "line", "size", "vertical", "region"):
            raise Bad("WebVTT cue setting %r" % part)
        out[k] = v
    return out


# ------------------------------------------------------------------ MicroDVD
def parse_microdvd(doc):
    """-> cues with start/end = frame numbers"""
    cues = []
    for line in newline_split(doc):
        if line == "":
            continue
        m = re.match(r"\{([0-9]+)\}\{([0-9]+)\}(.*)\Z", line)
        if not m:
            raise Bad("MicroDVD line %r" % line)
        cues.append(Cue(int(m.group(1)), int(m.group(2)), plain(m.group(3).replace("|", "\n"))))
    return cues


# ------------------------------------------------------------------ DFXP
TTML = "http://www.w3.org/ns/ttml"
TTS = "{http://www.w3.org/ns/ttml#styling}"
XMLID = "{http://www.w3.org/XML/1998/namespace}id"
XMLLANG = "{http://www.w3.org/XML/1998/namespace}lang"
Q = "{%s}" % TTML


def ttml_time(s):
    """exact microseconds (Fraction) of a TTML time expression at the default frame rate"""
    m = re.match(r"([0-9]{2,}):([0-5][0-9]):([0-5][0-9])(?:\.([0-9]+)|:([0-9]{2,}))?\Z", s or "")
    if m:
        t = Fraction((int(m.group(1)) * 60 + int(m.group(2))) * 60 + int(m.group(3)))
        if m.group(4):
            t += Fraction(int(m.group(4)), 10 ** len(m.group(4)))
        if m.group(5):
            t += Fraction(int(m.group(5)), 30)
        return t * 1000000
    m = re.match(r"([0-9]+)(?:\.([0-9]+))?(h|ms|m|s|f)\Z", s or "")
    if m:
        t = Fraction(int(m.group(1)))
        if m.group(2):
            t += Fraction(int(m.group(2)), 10 ** len(m.group(2)))
        return t * {"h": 3600000000, "m": 60000000, "s": 1000000, "ms": 1000, "f": Fraction(1000000, 30)}[m.group(3)]
    raise Bad("TTML time expression %r" % s)


class DfxpDoc:
    """strictly parsed DFXP document"""

    def __init__(self, doc):
        try:
            self.root = etree.fromstring(doc.encode("utf-8"),
                                         etree.XMLParser(recover=False, resolve_entities=False, huge_tree=True))
        except etree.XMLSyntaxError as e:
            raise Bad("not well-formed XML: %s" % e)
        if self.root.tag != Q + "tt":
            raise Bad("root element is %s" % self.root.tag)
        heads = self.root.findall(Q + "head")
        bodies = self.root.findall(Q + "body")
        if len(heads) != 1 or len(bodies) != 1:
            raise Bad("%d heads, %d bodies" % (len(heads), len(bodies)))
        self.head, self.body = heads[0], bodies[0]
        self.lang = self.root.get(XMLLANG)
        self.styles = {}
        self.regions = {}
        self.ids = []
        for e in self.root.iter():
            if isinstance(e.tag, str):
                if not e.tag.startswith(Q):
                    raise Bad("element outside the TTML namespace: %s" % e.tag)
                if e.get(XMLID) is not None:
                    self.ids.append(e.get(XMLID))
        for e in self.head.iter(Q + "style"):
            if e.get(XMLID) is not None:
                self.styles.setdefault(e.get(XMLID), []).append(e)
        for e in self.head.iter(Q + "region"):
            if e.get(XMLID) is not None:
                self.regions.setdefault(e.get(XMLID), []).append(e)
        self.divs = self.body.findall(Q + "div")

    def check_consistency(self):
        if len(set(self.ids)) != len(self.ids):
            raise Bad("duplicate xml:id in %r" % (self.ids,))
        used = set()
        for e in self.root.iter():
            if not isinstance(e.tag, str):
                continue
            r = e.get("region")
            if r is not None:
                if len(self.regions.get(r, ())) != 1:
                    raise Bad("region=%r resolves to %d definitions" % (r, len(self.regions.get(r, ()))))
                used.add(r)
            s = e.get("style")
            if s is not None:
                for one in [s] if s in self.styles else s.split() or [s]:
                    if len(self.styles.get(one, ())) != 1:
                        raise Bad("style=%r resolves to %d definitions" % (one, len(self.styles.get(one, ()))))
        if set(self.regions) - used:
            raise Bad("unreferenced regions %r" % sorted(set(self.regions) - used))
        if self.head.findall(".//" + Q + "region") and None in [x.get(XMLID) for x in self.head.iter(Q + "region")]:
            raise Bad("region without an id")

    def cues(self):
        """[(lang, [Cue])] in document order; Cue.extra = the p element"""
        out = []
        for d in self.divs:
            cs = []
            for p in d:
                if not isinstance(p.tag, str):
                    continue
                if p.tag != Q + "p":
                    raise Bad("unexpected %s in div" % p.tag)
                if p.get("begin") is None or p.get("end") is None:
                    raise Bad("p without begin/end")
                cs.append(Cue(ttml_time(p.get("begin")), ttml_time(p.get("end")), self.chars(p), extra=p))
            out.append((d.get(XMLLANG), cs))
        return out

    def flags_of(self, e, inherited):
        fl = set(inherited)
        # referenced styles first, own attributes last
        def chain(x, seen):
            out = []
            for sid in (x.get("style") or "").split():
                if sid not in seen:
                    for s in self.styles.get(sid, ()):
                        out += chain(s, (*seen, sid))
            return out + [x]

        for s in chain(e, ()):
            for attr, on, flag in (("fontStyle", ("italic", "oblique"), "i"), ("fontWeight", ("bold",), "b")):
                v = s.get(TTS + attr)
                if v is not None:
                    fl.discard(flag)
                    if v in on:
                        fl.add(flag)
            v = s.get(TTS + "textDecoration")
            if v is not None:
                fl.discard("u")
                if "underline" in v.split():
                    fl.add("u")
        return frozenset(fl)

    def chars(self, p, annotate=None):
        """text of an element as [(char, flags)]; newline for br; source newlines become spaces"""
        out = []

        def walk(e, flags):
            if not isinstance(e.tag, str):
                if e.tag is etree.Comment or e.tag is etree.ProcessingInstruction:
                    return
                raise Bad("unresolved entity in text")
            if e.tag == Q + "br":
                out.append(("\n", flags))
                return
            if e.tag not in (Q + "p", Q + "span"):
                raise Bad("unexpected element %s in text" % e.tag)
            fl = self.flags_of(e, flags)
            out.extend((" " if c in "\n\r" else c, fl) for c in e.text or "")
            for k in e:
                walk(k, fl)
                out.extend((" " if c in "\n\r" else c, fl) for c in k.tail or "")

        walk(p, PLAIN)
        return out

    def region_attrs(self, rid):
        """tts attributes of a region (None: no region)"""
        if rid is None:
            return None
        rs = self.regions.get(rid, ())
        if len(rs) != 1:
            raise Bad("region=%r resolves to %d definitions" % (rid, len(rs)))
        return {k[len(TTS):]: v for k, v in rs[0].attrib.items() if k.startswith(TTS)}

    def char_regions(self, p):
        """[(char, region id)] of the text of a paragraph; the region is the nearest ancestor's"""
        out = []

        def inherited(e):
            while e is not None:
                if e.get("region") is not None:
                    return e.get("region")
                e = e.getparent()

        def walk(e, rid):
            if not isinstance(e.tag, str):
                return
            rid = e.get("region") or rid
            if e.tag == Q + "br":
                out.append(("\n", rid))
                return
            out.extend((" " if c in "\n\r" else c, rid) for c in e.text or "")
            for k in e:
                walk(k, rid)
                out.extend((" " if c in "\n\r" else c, rid) for c in k.tail or "")

        walk(p, inherited(p.getparent()))
        return out


def parse_dfxp(doc):
    return DfxpDoc(doc).cues()


# ------------------------------------------------------------------ SAMI
def css_rules(text):
    """[(selector, {prop: value})] of a very small CSS subset (what SAMI style blocks contain)"""
    text = text.replace("<!--", " ").replace("-->", " ")
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    out = []
    pos = 0
    for m in re.finditer(r"([^{}]*)\{([^{}]*)\}", text):
        if text[pos:m.start()].strip():
            raise Bad("junk in style sheet: %r" % text[pos:m.start()])
        pos = m.end()
        props = {}
        for d in m.group(2).split(";"):
            if d.strip():
                k, sep, v = d.partition(":")
                if not sep:
                    raise Bad("CSS declaration %r" % d)
                props[k.strip().lower()] = v.strip()
        out.append((m.group(1).strip(), props))
    if text[pos:].strip():
        raise Bad("junk in style sheet: %r" % text[pos:])
    return out


def css_flags(props, inherited):
    fl = set(inherited)
    v = props.get("font-style")
    if v is not None:
        fl.discard("i")
        if v in ("italic", "oblique"):
            fl.add("i")
    v = props.get("font-weight")
    if v is not None:
        fl.discard("b")
        if v == "bold":
            fl.add("b")
    v = props.get("text-decoration")
    if v is not None:
        if v == "underline":
            fl.add("u")
    return frozenset(fl)


def parse_decls(style):
    props = {}
    for d in style.split(";"):
        if d.strip():
            k, sep, v = d.partition(":")
            if not sep:
                raise Bad("CSS declaration %r" % d)
            props[k.strip().lower()] = v.strip()
    return props


class SamiDoc(html.parser.HTMLParser):
    """strict about balance: every element has to be closed in order"""

    VOID = ("br",)

    def __init__(self, doc):
        super().__init__(convert_charrefs=True)
        self.stack = []
        self.css = ""
        self.in_style = False
        self.rules = None
        self.syncs = []      # [(start string, [P])] ; P = Cue(lang=class, chars)
        self.cur_p = None
        self.flagstack = []
        self.body_seen = self.root_seen = 0
        self.doc = doc
        self.feed(doc)
        self.close()
        if self.stack:
            raise Bad("elements left open: %r" % self.stack)
        if self.root_seen != 1 or self.body_seen != 1:
            raise Bad("%d <sami>, %d <body>" % (self.root_seen, self.body_seen))

    def rule_list(self):
        if self.rules is None:
            self.rules = css_rules(self.css)
        return self.rules

    def class_props(self, name):
        out = {}
        for sel, props in self.rule_list():
            if sel.lower() == "." + name.lower():
                out.update(props)
        return out

    def class_lang(self, name):
        return self.class_props(name).get("lang")

    def handle_starttag(self, tag, attrs):
        names = [a for a, _ in attrs]
        if len(set(names)) != len(names):
            raise Bad("repeated attribute in <%s %r>" % (tag, attrs))
        attrs = dict(attrs)
        if tag in self.VOID:
            if self.cur_p is not None:
                self.cur_p.chars.append(("\n", self.flagstack[-1]))
            return
        self.stack.append(tag)
        if tag == "sami":
            self.root_seen += 1
        elif tag == "body":
            self.body_seen += 1
        elif tag == "style":
            self.in_style = True
        elif tag == "sync":
            if self.stack[:-1] != ["sami", "body"]:
                raise Bad("sync inside %r" % self.stack[:-1])
            self.syncs.append((attrs.get("start"), []))
        elif tag == "p":
            if self.stack[:-1] != ["sami", "body", "sync"]:
                raise Bad("p inside %r" % self.stack[:-1])
            self.cur_p = Cue(None, None, [], lang=attrs.get("class"), extra=attrs)
            fl = css_flags(self.class_props(attrs.get("class") or ""), PLAIN)
            for k in ("style", "p_style"):
                if attrs.get(k):
                    fl = css_flags(parse_decls(attrs[k]), fl)
            self.flagstack = [fl]
            self.syncs[-1][1].append(self.cur_p)
        elif tag in ("span", "i", "b", "u"):
            if self.cur_p is None:
                raise Bad("%s outside p" % tag)
            fl = self.flagstack[-1]
            if tag != "span":
                fl = fl | {tag}
            if attrs.get("class"):
                for rule, props in self.rule_list():
                    if rule.lower() in ["." + c for c in attrs["class"].lower().split()]:
                        fl = css_flags(props, fl)
            if attrs.get("style"):
                fl = css_flags(parse_decls(attrs["style"]), fl)
            self.flagstack.append(fl)
        elif tag not in ("head", "title"):
            raise Bad("unexpected element <%s>" % tag)

    def handle_endtag(self, tag):
        if tag in self.VOID:
            return
        if not self.stack or self.stack[-1] != tag:
            raise Bad("</%s> closes %r" % (tag, self.stack))
        self.stack.pop()
        if tag == "style":
            self.in_style = False
        elif tag == "p":
            self.cur_p = None
        elif tag in ("span", "i", "b", "u"):
            self.flagstack.pop()

    def handle_data(self, data):
        if self.in_style:
            self.css += data
        elif self.cur_p is not None:
            fl = self.flagstack[-1]
            self.cur_p.chars.extend((" " if c in "\n\r" else c, fl) for c in data)
        elif data.strip() and self.stack[-1:] != ["title"]:
            raise Bad("stray text %r inside %r" % (data, self.stack))

    def handle_comment(self, data):
        if self.cur_p is not None:
            raise Bad("comment in text: %r" % data)

    def handle_decl(self, d):
        raise Bad("declaration %r" % d)

    def handle_pi(self, d):
        raise Bad("processing instruction %r" % d)

    def unknown_decl(self, d):
        raise Bad("declaration %r" % d)

    def events(self):
        """[(ms, class, Cue)] in document order; blank paragraphs have blank text"""
        out = []
        for start, ps in self.syncs:
            if start is None or not re.match(r"[0-9]+\Z", start):
                raise Bad("sync start %r is not an integer number of milliseconds" % start)
            for p in ps:
                out.append((int(start), p.lang, p))
        return out
