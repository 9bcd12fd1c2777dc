#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the plans that exist"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = plans.VERIF
NOTE = {
 "P01": "TLC enumerates documents of LawDocs.tla (every element, attribute value, pair of children) and each is read by the library and compared with Parse of the specification.",
 "P02": "the value of each TLC state is written by the library and compared with Emit of the specification.",
 "P03": "three read/write cycles of each TLC document compared for equality; RoundTrip is also an invariant of the specification; corrupted documents that are accepted must round-trip too.",
 "P04": "TLC enumerates single injuries (missing/ill-valued attribute, missing/foreign/repeated child) of every element; the library must refuse what Parse refuses.",
 "P05": "TLC documents, whole and injured, every element under every other, plus random byte- and tree-level corruptions of them, read under a panic and time guard.",
 "P06": "texts of LawDocs.tla range over awkward texts in every text place and attribute; read, written and re-read exactly.",
 "P07": "TLC enumerates surface disturbances; SurfaceFree is an invariant and the library must read the same value.",
 "P08": "Sink.tla gives a writer that takes bytes in pieces and may fail, interrupt or refuse at every point; each run is replayed with real documents through the library's writer.",
 "P09": "Files.tla gives histories of a path (written, replaced, linked, removed, directory, names no file bears); each reading through the library is compared with reading the same bytes from memory.",
 "P10": "each TLC value goes through serde_json and back; layout compared with the specification's value, equality against hash and serialisation.",
 "P11": "numbers built step by step by LawNum.tla, written and read in attribute form, with single-character damage; Read is specified independently of Render.",
 "P12": "all numbers 1..9999 and branch/range compounds of LawNum.tla in every heading notation and paragraph numbers, with single-character damage.",
 "P13": "numbers of LawNum.tla in all 16 item notations, with single-character damage; the set of readings the specification allows is the oracle.",
 "P14": "TextLaw.tla grows texts line by line; TextParse.tla says which law each is (or that a line has no place). All short texts over the vocabulary, deep item nesting, plus random long texts whose recorded outcome TLC judges (TextTrace.tla).",
 "P15": "the words and numbers of each TextLaw text must be those of the parsed law, in order; NothingLost is an invariant of the specification; recorded random texts judged by TLC.",
 "P16": "TextLaw texts and random mutations of them with arbitrary characters and dates, under a panic and time guard.",
 "P17": "LineText.tla classifies a line from its characters alone; every vocabulary line and every single-character edit of one, in all layouts, plus recorded random lines judged by TLC.",
 "P18": "LawMeta.tla walks the calendar day by day through every era change; every day, partial dates, impossible dates, and all kinds, languages, numbers and titles.",
 "P19": "each accepted TextLaw text and LawMeta law is written, read back and compared.",
 "P20": "WalkLaw.tla grows bodies heading by heading and specifies which articles exist under which numbers; each body is built and listed by the library.",
 "P21": "WalkLaw.tla grows tables of contents entry by entry and specifies the listing; each is built and listed by the library.",
 "P22": "WalkText.tla grows paragraphs, items and sentences with every inline element and specifies the extracted text and its index; each is built and extracted by the library."
}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if hasattr(plans, i):
            checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick",
                           "thorough_cmd": f"python3 tools/check.py {i} thorough",
                           "technique": "TLA+ specification model-checked with TLC; its behaviours replayed into the library (conformance)",
                           "level": "model_checking", "level_note": NOTE.get(i, "see DESIGN.md")})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), ensure_ascii=False, indent=1)
    print(len(checks), "checks,", len(na), "not claimed")
if __name__ == "__main__": main()
