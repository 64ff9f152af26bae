#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props
# what each check explores, validates and leaves out
TEXT = "TLA+ machine of JSON texts (cross-checked in TLC against a declarative grammar); TLC enumerates every text over aimed alphabets and the crate must answer each; recorded parses of large random texts are validated by TLC"
DOC = "TLA+ state machine of a value under operations with step properties; TLC enumerates documents x operations and the crate is stepped through every transition; recorded histories of the crate are validated by TLC step by step"
DER = "TLA+ model of struct declarations and their meaning; TLC enumerates declarations, which are rendered as Rust, compiled with the derives and driven with TLC-generated vectors; recorded executions are validated by TLC"
TECH = {
    "J01": TEXT, "J02": TEXT,
    "J03": "TLA+ model of decimals and rounding intervals in digit arithmetic; TLC-enumerated literals replayed; recorded parses and prints of edge doubles decided by TLC against exact neighbourhoods",
    "J04": "TLA+ printer of values; every code point and every value of a TLC-enumerated universe replayed; recorded prints of random values validated by TLC",
    "J05": "TLA+ printer and parser machine composed; TLC-enumerated values replayed; recorded round trips validated by TLC",
    "J06": "TLA+ model of native types and values; TLC-enumerated values per type replayed; recorded encodings validated by TLC",
    "J07": "TLA+ model of decoding directed by type; TLC-enumerated type x value replayed; recorded decodings validated by TLC",
    "J11": "TLA+ machine over path characters; every string over the syntax alphabet and every written path replayed through get/set/del; recorded parses of random paths validated by TLC",
    "J15": "TLA+ composition of parse, operation and print; TLC-enumerated calls replayed; recorded one-shot calls validated by TLC",
    "J16": "TLA+ model of macro construction and paths; TLC-enumerated entries and paths replayed through every macro form; recorded calls validated by TLC",
    "J17": DER, "J18": DER, "J19": DER,
    "J21": "TLA+ semantics of quote! templates; TLC enumerates (and simulates) templates, which are compiled and expanded inside rustc; TLC decides the recorded token streams",
    "J22": "TLA+ machine running scope commands; TLC enumerates (and simulates) command sequences, which are compiled and expanded inside rustc; TLC decides the recorded token streams",
    "J23": "TLA+ model of Rust items (written tokens, printed tokens, report); TLC enumerates (and simulates) items, which json_parse parses inside rustc; TLC decides the recorded reports and prints",
    "J24": "TLA+ grammar decides growing families of texts (lemma checked by TLC on small members), TLC-enumerated and random texts, paths, operations and conversions replayed under a time limit; recorded executions validated by TLC",
    "J25": "TLA+ definition of equality with its laws checked by TLC; every pair of a TLC-enumerated universe replayed; recorded comparisons of random values with slightly changed copies validated by TLC",
    "J26": "TLA+ parser machine with the error kinds a text may be reported with; TLC-enumerated invalid texts, failing operations, conversions and calls replayed; recorded failures validated by TLC",
    "J28": "TLA+ model of the parts of Rust items and of cutting token sequences; TLC enumerates (and simulates) items and takes them apart, json_parse parses each part inside rustc; TLC decides the recorded reports, prints, comparisons and cuts",
    "J27": "TLA+ model of declarations and which are refused; TLC enumerates declarations, rendered as Rust and compiled; the compiler's verdict on each is compared",
}
NOTE = {
    "J03": "Literals up to 6 digits exhaustively, edge cases sampled; nearness is decided by TLC from exact midpoints computed outside. Trusts num.py's midpoints and the projection.",
    "J21": "Templates up to 2-3 items at quick, sampled where larger; long ones by simulation. Trusts TLC, the rendering of templates as Rust and the compiler's token trees.",
    "J22": "Command sequences up to 3-6 at quick, sampled where larger; long ones by simulation; five environments. Trusts TLC, the rendering as Rust and the compiler's token trees.",
    "J23": "Items with up to 4 parts added to plain ones, sampled where larger; long ones by simulation. Trusts TLC, the rendering as Rust and the compiler's token trees.",
    "J28": "Parts of items with 1-2 parts added to plain ones, and of simulated items of up to 12, sampled per kind of part. Trusts TLC, the rendering as Rust and the compiler's token trees.",
    "J24": "Time is bounded by a limit per call on growing families, not proved polynomial. One known finding: nesting 20000 deep overflows a 2 MB stack.",
    "J27": "Exhaustive over the enumerated declarations only (no random ones). Trusts TLC, the rendering as Rust, and the compiler's attribution of errors to lines.",
    "default": "Bounded: exhaustive over the enumerated universes of the TLA+ specification, seeded random beyond them. Trusts TLC, the projection in the harness, and the specification as the meaning of the property.",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in props.CHECKS:
        checks.append(dict(property=p, quick_cmd=f"python3 bin/check.py {p} quick", thorough_cmd=f"python3 bin/check.py {p} thorough",
                           evidence_file=f"evidence/{p}.json",
                           technique=TECH.get(p, DOC),
                           level="model_checking", level_note=NOTE.get(p, NOTE["default"])))
    else:
        na.append(dict(property=p, reason="not built yet"))
m = dict(version=1, setup_cmd="bash bin/setup.sh",
         hooks=dict(guard="none", enable="no hooks: the harness crates use the public interface only", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
