"""Regenerate MANIFEST.json from the list of check modules (development helper)."""
import glob, json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
TECH = "exhaustive bounded model checking: enumeration of all {what} within stated bounds, each executed on the real code and compared with an independent reference model"
WHAT = {
 "C01": "documents (instants x time spellings x structures)", "C02": "caption-set timelines x writers x options",
 "C03": "captions over metacharacter token sequences and all printable code points x writers", "C04": "documents over token/entity/tag/wrapping sequences",
 "C05": "pop-on command sequences (CEA-608 decoder model as oracle)", "C06": "pop-on programs x timing choices (exact-arithmetic frame clock model)",
 "C07": "caption sets x DFXP writers x options", "C08": "format chains x caption sets (two passes)",
 "C09": "write histories on shared/fresh writers x hash seeds", "C10": "read/write/edit histories x hash seeds",
 "C11": "flat style-span placements x writers/readers", "C12": "layout placements at every level x writers",
 "C13": "unit/value/video-size/fit combinations x writers", "C14": "multi-language cue interleavings x readers/writers",
 "C15": "SCC streams over row lengths x modes x start-time collisions", "C16": "roll-up/paint-on programs",
 "C17": "caption sets over line/word lengths and cue spacings", "C18": "geometry value pairs and size strings",
 "C19": "caption lists x skews/offsets", "C20": "short strings, truncations and writer outputs",
}
NOTE = "Every case of the listed spaces is executed on the code in /repo and judged by an oracle written independently of pycaption; assurance is exhaustive within the bounds recorded in the evidence file, nothing is claimed beyond them. Trusted: CPython, lxml, html.parser and the reference models in mc/."
checks, na = [], []
for i in range(1, 21):
    p = "C%02d" % i
    if os.path.exists(os.path.join(ROOT, "mc", "checks", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH.format(what=WHAT[p]), "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "check not built yet (work in progress)"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
