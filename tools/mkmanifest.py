"""writes MANIFEST.json from properties.jsonl and the list of claimed properties"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("All obligations generated from /repo's current source for the functions under contract are discharged by z3 (cvc5 as fallback), "
        "for all inputs and iterations. Trusted: the models of the Go standard library and of third-party packages named in the evidence, "
        "the front end and the symbolic executor; machine integers and floats are treated as mathematical.")
BOUNDED = {"C06": "Mixed: LoadItems, DecodeOverview, DecodeDetails, ParseItemField and ParseItemSection are proved against their contracts; DecodeItems is proved only not to crash and to leave a non-nil list of items with categories, what it stores is compared with an independent oracle on random encrypted vaults (bounded, not proved). "}
checks = [{"property": p["id"], "quick_cmd": "python3-vt engine/check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3-vt engine/check.py " + p["id"],
           "evidence_file": "evidence/%s.json" % p["id"], "technique": "contract-based deductive verification (symbolic execution of go/ssa with contracts and loop invariants, SMT)",
           "level": "other" if p["id"] in BOUNDED else "proof", "level_note": BOUNDED.get(p["id"], "") + NOTE} for p in props if p["id"] in CLAIMED]
REASON = {"C19": "a frame condition over every system call of every dependency: the library models cover only the calls the other properties need", "C21": "needs contracts on gocui callbacks registered as closures and a model of the screen, out of the engine's reach", "C22": "as C21: gocui views, cursor and scroll origin", "C23": "as C21: gocui views and their life cycle", "C24": "as C21: the text is written to a gocui view inside a closure"}
na = [{"property": p["id"], "reason": REASON[p["id"]]} for p in props if p["id"] not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "cd frontend && GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod go build -o ../bin/ssajson .",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: contracts live in /verif/contracts and are attached to the functions of the current source by name; see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
