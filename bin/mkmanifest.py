#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed, how they are decided."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
LOG = ("explicit TLA+ specification (Doc, Log), exhaustively model-checked with TLC over small histories (MCLog), bound to the Go code by "
       "TLC trace validation: TLC-generated and random call scripts run on the real library, every recorded step judged by module LogTrace")
LOGN = ("Model: exhaustive within the vocabulary and bounds in evidence (3 vocabularies, 2 operations x 2 versions). Implementation: every recorded call of the generated "
        "scripts is judged against the specification's relation; histories are sampled, not enumerated. Trusts TLC, the driver's projection of Go values and the generators' reach.")
def entry(p, tech, note, level="model_checking"):
    return {"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {p}",
            "technique": tech, "level": level, "level_note": note}
CLAIM = {f"C{i:02d}": (LOG, LOGN) for i in range(1, 13)}
PATCH = ("explicit TLA+ specification (Doc, Diff), exhaustively model-checked with TLC over all small documents and operations (MCPatch), bound to the Go code by "
         "replaying every model case plus random call scripts on the real library and judging every recorded step with module PatchTrace in TLC")
PATCHN = ("Model and replay: exhaustive over the small documents, operations and document pairs of MCPatch. Beyond: random documents and patches, sampled. "
          "Trusts TLC, the driver's projection of Go values and the generators' reach.")
TEXT = ("explicit TLA+ specification of the TSON grammar, conversions, equality and lookup (Text), exhaustively model-checked with TLC (MCText), bound to the Go code by "
        "replaying every model case plus random call scripts on the real library and judging every recorded step with module TextTrace in TLC")
TEXTN = ("Model and replay: exhaustive over the small texts, documents, pairs and patches of MCText. Beyond: random texts and documents, sampled. Decimal-to-binary number "
         "conversion is taken from Go's strconv. Strings are valid Unicode. Trusts TLC, the driver's projection of Go values and the generators' reach.")
CLAIM.update({f"C{i}": (PATCH, PATCHN) for i in range(13, 17)})
CLAIM.update({f"C{i}": (TEXT, TEXTN) for i in range(17, 22)})
DATA = ("explicit TLA+ specification of generated datasets (Dataset), exhaustively model-checked with TLC (MCDataset: chains of documents and patches), bound to the Go code by "
        "running the real generator on every schema and setting of the model plus random ones and validating every file and patch with module DatasetTrace in TLC")
DATAN = ("Model: exhaustive over chains of small documents. Implementation: schemas of at most two signals x all settings of the shares exhaustively, larger and the repository's own "
         "sampled; the generator draws its own random values. Trusts TLC, the TSON parser for reading files back (C18, C19) and the driver's projection.")
WEB = ("explicit TLA+ specification of datasets and their patched views (Dataset), model-checked with TLC (MCDataset, ViewIsFile), bound to the Go code by running the real web demo's "
       "handlers over generated datasets, in sequence and concurrently, and validating every response with module DatasetTrace in TLC")
CLAIM.update({"C22": (DATA, DATAN), "C27": (DATA, DATAN), "C23": (WEB, DATAN)})
SCN = ("explicit TLA+ specification of the scenario switch (Scenario), exhaustively model-checked with TLC (MCScenario), bound to the Go code by replaying model cases plus random "
       "histories of battery readings on the real vehicle and judging every step with module ScenarioTrace in TLC")
SCNN = ("Model: exhaustive over histories of at most 4 readings at 5 levels and 4 time steps. Implementation: model cases and random histories of up to 120 steps. "
        "Trusts TLC and the driver's projection.")
TJ = ("explicit TLA+ specification of the temporal JSON baseline (TJson), exhaustively model-checked with TLC (MCTJson), bound to the Go code by replaying every model case plus "
      "random streams of operations and queries on the real implementation and judging every answer with module TJsonTrace in TLC")
TJN = ("Model and replay: exhaustive over streams of at most 3 operations at 3 times. Beyond: random streams of up to 40 operations, sampled. Locations are never inside each other. "
       "Trusts TLC and the driver's projection.")
EX = ("explicit TLA+ specification of the patch experiment (Experiment), exhaustively model-checked with TLC on a small instance (MCExperiment), bound to the Go code by running the real "
      "experiments in a scratch directory and validating every recorded step, file and counter with module ExperimentTrace in TLC")
EXN = ("Model: exhaustive over every evolution of three small sensors. Implementation: complete runs of the three scenarios (5 simulated minutes each); the run draws its own random values, so "
       "runs are sampled. Numbers are compared in thousandths. Trusts TLC and the driver's projection.")
TQ = ("explicit TLA+ specification of what both baselines must answer (TJson, Experiment), model-checked with TLC (MCExperiment), bound to the Go code by running the real temporal query "
      "experiment over random recorded streams and over a real run, and judging every result file with modules TJsonTrace and ExperimentTrace in TLC")
VH = ("explicit TLA+ specification of how scenarios set a vehicle up (Vehicle), exhaustively model-checked with TLC (MCVehicle), bound to the Go code by running random sequences of "
      "scenarios and value changes on real vehicles and judging the whole vehicle after every step with module VehicleTrace in TLC")
VHN = ("Model: exhaustive over sequences of 4 moves of a vehicle with six signals. Implementation: random sequences over all defined signals; random values are judged by their ranges, numbers in "
       "thousandths. The definition table itself is taken as given. Trusts TLC and the driver's projection.")
CLAIM.update({"C30": (VH, VHN), "C24": (SCN, SCNN), "C25": (TJ, TJN), "C26": (EX, EXN), "C28": (EX, EXN), "C29": (TQ, TJN)})
PG = ("explicit TLA+ specification of the demo's page (Page), exhaustively model-checked with TLC (MCPage: every order of selections, presses, answers and failures), bound to index.html by "
      "replaying model behaviours plus random scripts on the real page, run in node with a small document object model, and judging what it shows after every event with module PageTrace in TLC")
PGN = ("Model: exhaustive over 7 events with 2 cars and 2 patches. Implementation: model behaviours and random scripts of up to 40 events, sampled. The document object model stands in for a "
       "browser: texts are judged, not their look. Trusts TLC and the driver.")
CLAIM.update({"C31": (PG, PGN), "C32": (PG, PGN)})
TG = ("explicit TLA+ specification of logs that share storage (MCTogether, every interleaving, model-checked with TLC) and of what the calls give (Log, Doc, Text), bound to the Go code by "
      "running scripts at the same time in one process built with Go's race detector, which observes conflicting accesses, and validating each recorded trace with LogTrace, PatchTrace and TextTrace in TLC")
TGN = ("Model: exhaustive over interleavings of three goroutines of up to 2 pushes and one published version each. Implementation: random scripts, schedules sampled (conflicting accesses are seen on "
       "any schedule which makes them). Mismatches that also occur without concurrency are left to the other properties. Trusts TLC, the race detector and the driver.")
CLAIM.update({"C33": (TG, TGN)})
RC = ("explicit TLA+ specification of what the experiments leave on disk (Recorder), exhaustively model-checked with TLC (MCRecorder), bound to the Go code by replaying the model's histories "
      "plus random ones on real storages and recorders and judging the files after every step with module RecorderTrace in TLC")
RCN = ("Model: exhaustive over 3 to 5 saves, recorded times and closings. Implementation: model histories and random ones of up to 400 steps, sampled; files are read through the file system, a crash is "
       "looking at them before the recorder is closed. Trusts TLC and the driver.")
CLAIM.update({"C34": (RC, RCN)})
exec(open(os.path.join(V, "bin", "claims.py")).read()) if os.path.exists(os.path.join(V, "bin", "claims.py")) else None
NA = {}
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [entry(p, *CLAIM[p]) for p in props if p in CLAIM],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CLAIM],
     "notes": "No hooks in /repo: drivers are compiled into the module with go build -overlay; the demo's page is run in node. Language: TLA+ checked with TLC."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
