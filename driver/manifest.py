"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOC = ("TLA+ reference model of djot (TLC): every document of small token families is enumerated by TLC and replayed into the real "
       "parser, and every recorded {what} (also of random and structured documents) is validated by TLC against the model and the property's own law")
TECH = {
    "events": "explicit TLA+ specification checked with TLC; conformance: model-enumerated documents replayed into the parser, recorded event traces validated by TLC",
    "render": "explicit TLA+ specification of the renderer checked with TLC; conformance: model-generated documents and event streams replayed, recorded output validated by TLC",
    "total": "TLA+ consumer protocol checked with TLC; conformance: observations of runs on model-enumerated, random and extreme documents validated by TLC",
    "views": "TLA+ model of iterator handles checked with TLC; all its bounded histories replayed on real iterators and validated by TLC",
    "attrs": "TLA+ attribute machine checked with TLC; its strings (transition coverage and all short strings) replayed and results validated by TLC",
    "attrset": "TLA+ model of attribute sets checked with TLC; all its bounded histories replayed on real sets and validated by TLC",
    "context": "TLA+ law relating the event streams of a document and of the same document in a context, checked with TLC on the specification; model-enumerated documents replayed in every context, recorded pairs of streams validated by TLC",
    "sinks": "TLA+ writer/sink protocol checked with TLC; all bounded sink behaviours replayed as fault injection, recorded writes validated by TLC",
    "reuse": "TLA+ model of renderers in use checked with TLC on the specified renderer; all its bounded histories (abandoned and failing renderings included) replayed on real renderers and validated by TLC",
    "kinds": "TLA+ content model and classification checked with TLC; event streams generated by the model and recorded from the parser classified by the implementation, validated by TLC; conversions of all bytes and characters",
    "cli": "TLA+ model of a tool run checked with TLC; every scenario carried out with the real tool (including full, closed and limited outputs), outcomes validated by TLC",
}
KIND = {"C02": "total", "C04": "views", "C14": "attrs", "C15": "attrset", "C21": "sinks", "C22": "cli", "C23": "context", "C24": "reuse", "C25": "kinds",
        "C17": "render", "C18": "render", "C19": "render", "C20": "render"}
NOTE = {
    "events": "Exhaustive on the model-enumerated families of documents up to the stated depth (evidence lists them), sampled beyond. Trusts the specification's reading of djot, the harness's recording of the public events, and TLC.",
    "render": "Exhaustive on the model-enumerated documents, sampled beyond and on event streams drawn from the content model; three layouts each. Trusts the specification of the HTML, the harness and TLC.",
    "total": "Every run must end in the specified protocol: exhaustive on enumerated documents, sampled beyond, plus large repetitive ones. Stack exhaustion by about 15000 nested containers is a listed finding.",
    "views": "All histories of up to four operations on three handles (longer at random), on random documents, in builds with and without the deterministic feature.",
    "attrs": "All transitions of the attribute machine and all viable strings up to six bytes of a representative alphabet, longer ones at random.",
    "attrset": "All histories of three operations (longer at random) and all sets parsed from the strings of C14.",
    "context": "Nine contexts, and contexts within contexts, of every enumerated and random document; documents with unclosed fences or lazy lines are exempt where these matter (spec/Context.tla).",
    "sinks": "All sink behaviours of up to four answers at varying offsets, and a failure at every write of sampled documents.",
    "reuse": "All histories of three operations on two renderers and three documents (longer at random), with sampled documents, layouts, cuts and failing writes.",
    "kinds": "Every kind of element, every byte and every character; sampled event streams and documents.",
    "cli": "Every scenario of input, output and options, with sampled documents; output faults are produced with /dev/full, closed pipes and file size limits.",
}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(l)["id"]
    k = KIND.get(p, "events")
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH[k], "level": "model_checking", "level_note": NOTE[k]})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is observed through the public API and the command line tool. Known findings: known-findings.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
