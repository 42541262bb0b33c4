"""Construction of caption sets through pycaption's public API, and plain-data views of them."""
from pycaption import (CaptionList, CaptionNode, CaptionSet, DFXPReader, DFXPWriter, MicroDVDReader, MicroDVDWriter, SAMIReader,
                       SAMIWriter, SCCReader, SCCWriter, SRTReader, SRTWriter, WebVTTReader, WebVTTWriter)
from pycaption.base import Caption
from pycaption.dfxp import LegacyDFXPWriter, SinglePositioningDFXPWriter
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum, Layout, Padding, Point, Size, Stretch, UnitEnum,
                                VerticalAlignmentEnum)

H = HorizontalAlignmentEnum
V = VerticalAlignmentEnum

WRITERS = {"srt": SRTWriter, "vtt": WebVTTWriter, "dfxp": DFXPWriter, "legacy": LegacyDFXPWriter,
           "single": SinglePositioningDFXPWriter, "sami": SAMIWriter, "mdvd": MicroDVDWriter, "scc": SCCWriter}
READERS = {"srt": SRTReader, "vtt": WebVTTReader, "dfxp": DFXPReader, "sami": SAMIReader, "mdvd": MicroDVDReader, "scc": SCCReader}


def node(x, layout=None):
    """'text' | None (break) | (True|False, style dict) | (item, layout)"""
    if x is None:
        return CaptionNode.create_break(layout_info=layout)
    if isinstance(x, str):
        return CaptionNode.create_text(x, layout_info=layout)
    if x[0] is True or x[0] is False:
        return CaptionNode.create_style(x[0], dict(x[1]), layout_info=layout)
    return node(x[0], x[1])


def nodes(items, layout=None):
    return [node(x, layout) for x in items]


def cap(start, end, items, style=None, layout=None, node_layout=None):
    if isinstance(items, str):
        items = lines(items)
    return Caption(start, end, nodes(items, node_layout), style=dict(style or {}), layout_info=layout)


def lines(text):
    """text with \\n -> node items"""
    out = []
    for i, l in enumerate(text.split("\n")):
        if i:
            out.append(None)
        if l:
            out.append(l)
    return out


def cset(langs, styles=None, layout=None, list_layouts=None):
    """langs: {lang: [Caption]}"""
    d = {}
    for l, caps in langs.items():
        d[l] = CaptionList(caps, layout_info=(list_layouts or {}).get(l))
    return CaptionSet(d, styles={k: dict(v) for k, v in (styles or {}).items()}, layout_info=layout)


def dump_layout(l):
    return None if l is None else l.serialized() + (l.webvtt_positioning,)


def node_text(ns):
    out = ""
    for n in ns:
        if n.type_ == CaptionNode.TEXT:
            out += n.content
        elif n.type_ == CaptionNode.BREAK:
            out += "\n"
    return out


def view(cs, layouts=False):
    """plain data: [(lang, [(start, end, text)])]"""
    return [(l, [(c.start, c.end, node_text(c.nodes)) for c in cs.get_captions(l)]) for l in cs.get_languages()]
