#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
SAN = " in ASan/UBSan-instrumented runs"
TECH = {
 "P01": "runtime monitoring: reference minimum spanning forest against the barcode file of generated runs" + SAN,
 "P02": "runtime monitoring: reference matrix reduction against the barcode file of generated runs" + SAN,
 "P03": "runtime monitoring: enumerated Vietoris-Rips complex against the logged content and queries of the complex" + SAN,
 "P04": "runtime monitoring: differential monitor over the barcode files of several runs" + SAN,
 "P05": "runtime monitoring: recomputed distances against the logged table" + SAN,
 "P06": "runtime monitoring: metamorphic monitor over the barcode files of transformed runs" + SAN,
 "P07": "runtime monitoring: generated files with known content against the logged rows" + SAN,
 "P08": "runtime monitoring: round-trip and file-content monitor" + SAN,
 "P09": "runtime monitoring: trace monitor of open/read events against the known rows" + SAN,
 "P10": "runtime monitoring: settings model against logged settings and reported settings of runs" + SAN,
 "P11": "runtime monitoring: clustering conditions checked on the logged labels and representatives" + SAN,
 "P12": "runtime monitoring: exhaustive search against logged query results" + SAN,
 "P13": "runtime monitoring: density-clustering conditions checked on the logged labels" + SAN,
 "P14": "runtime monitoring: step-by-step model of the stream algorithm against logged statistics" + SAN,
 "P15": "runtime monitoring: conservation monitor over logged partitions" + SAN,
 "P16": "runtime monitoring: set-algebra oracle against logged results" + SAN,
 "P19": "runtime monitoring: history monitor comparing reused with fresh packets event by event" + SAN,
 "P20": "runtime monitoring: statistics rows checked against the stages run and enumerated counts" + SAN,
 "P21": "runtime monitoring: consistency monitor between interval table, text and distance table" + SAN,
 "P22": "runtime monitoring: window-trace monitor" + SAN,
 "P23": "runtime monitoring: recomputed statistics against the logged window state, invariance over rejected points" + SAN,
 "P25": "runtime monitoring: state files, log and results of runs at different debug levels against each other and the reference" + SAN,
 "P26": "runtime monitoring: differential monitor of faulty against well-formed requests and of the files around" + SAN,
 "P27": "runtime monitoring: metamorphic monitor over the barcode files of runs at several epsilons, dimensions and with data out of reach" + SAN,
 "P24": "runtime monitoring: reference persistent homology of every partition against printed list and files" + SAN,
}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p + ".py")):
        m = importlib.import_module("checks." + p)
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": getattr(m, "TECHNIQUE", None) or TECH[p],
                       "level": "exploration",
                       "level_note": getattr(m, "NOTE", "Holds on the executions observed (counts in the evidence file); trusts the reference model in lib/ref.py and the instrumented g++ build of /repo's sources.")})
    else:
        na.append({"property": p, "reason": "no check yet (work in progress)"})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py asan debug plain tsan", "checks": checks, "not_applicable": na,
           "notes": "check.py builds /repo's working tree itself (lib/build.py, cached in /verif/.build by content). VERIF_SEED selects the generated cases. Replay a reported violation with: python3 check.py <id> --replay <path>. /repo carries no hooks, only fix: commits (listed in known_findings.jsonl)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
