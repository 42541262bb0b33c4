"""One interface to the independent parsers: written document -> cues."""
from mc import refs

TEXT_WRITERS = ["srt", "vtt", "mdvd", "dfxp", "legacy", "single", "sami"]


def parse_out(w, doc):
    """[(lang or None, [Cue])]; SAMI: non-blank paragraphs per class"""
    if w == "srt":
        return [(None, refs.parse_srt(doc))]
    if w == "vtt":
        return [(None, refs.parse_vtt(doc))]
    if w == "mdvd":
        return [(None, refs.parse_microdvd(doc))]
    if w == "sami":
        d = refs.SamiDoc(doc)
        out = {}
        for ms, c, p in d.events():
            lang = d.class_lang(c or "") or c
            out.setdefault(lang, [])
            if p.text.strip():
                p.start = ms * 1000
                out[lang].append(p)
        return list(out.items())
    return refs.parse_dfxp(doc)


def write(w, cs, ctx=None, opts=None, wargs=None):
    from mc.build import WRITERS
    wr = WRITERS[w](**(opts or {})) if w not in ("srt", "mdvd", "legacy") else WRITERS[w]()
    if ctx is None:
        return wr.write(cs, **(wargs or {}))
    return ctx.call(wr.write, cs, **(wargs or {}))
