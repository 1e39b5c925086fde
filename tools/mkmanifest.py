#!/usr/bin/env python3
"""Writes MANIFEST.json. Checks are listed for the properties in CHECKS."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "C01": "Seeded simulation of the real loaders over scratch files: short and interrupted reads, interleaved and concurrent loads, batch-size histories; compared record by record with the generated files.",
 "C02": "Seeded simulation with read errors at chosen calls, files cut at chosen bytes, unequal record counts and invalid labels.",
 "C03": "Seeded simulation of exports with failing, short and interrupted opens and writes and disk-full offsets; the file is parsed back and compared value by value.",
 "C04": "Seeded simulation of crashes at chosen writes (also torn) and of concurrent exports; every intermediate file state is compared with old content and prefixes of the new one.",
 "C05": "Seeded simulation of threads evaluating shared networks, preempted at element operations and allocations, with malformed calls and injected computation faults; answers compared bit for bit with a fresh copy asked alone.",
 "C06": "Seeded simulation of training histories, several networks interleaved; every parameter movement compared with an independent double-precision gradient model.",
 "C07": "Seeded simulation with computation faults, malformed points and unfitting layers at chosen places of call histories; state bits compared around the failure and with a twin that never saw it.",
 "C08": "Seeded simulation of whole pipelines alone, concurrently under benign I/O faults, and again in the same process; all products compared bit for bit.",
 "C09": "Seeded simulation of threads growing, training and querying a network through a lock; each answer compared with an independent model at the parameters of that moment.",
 "C10": "Seeded simulation of edit histories against a plain table, with parallel row iteration split and interleaved by the scheduler.",
 "C11": "Seeded simulation of concurrent random streams and layer initialisations, including seeds inverted to hit extreme draws; compared with solo draws and range conditions.",
 "C12": "Seeded simulation of signal generation split into calls and interleaved between generators; compared with one large solo call and the stated conditions.",
 "C13": "Seeded simulation of layer-addition histories mixed with training and failing calls; structure compared with the list of accepted layers.",
 "C14": "Seeded simulation of threads computing with complex numbers in every offered form, switched between machine instructions, with refused divisions in between; compared with definitions in double precision.",
 "C15": "Seeded simulation of threads evaluating activation functions and derivatives on single numbers and slices, switched between machine instructions; compared with definitions and independently derived Wirtinger derivatives.",
 "C16": "Seeded simulation of threads applying matrix operations to shared operands, with failing and re-entrant user functions; whole-number elements make every result exactly comparable with its definition.",
 "C17": "Seeded simulation of threads deriving and adjusting single layers, with unfitting values and injected computation faults; compared with an independent derivation and with solo answers.",
 "C18": "Seeded simulation of threads adding, reading and copying data sets; compared with the plain list of points added.",
 "C19": "Seeded simulation of threads computing losses, loss derivatives and one-hot targets, with refused calls in between, switched between machine instructions; compared with their definitions.",
}
NA = {}
m = {
 "version": 1,
 "setup_cmd": "bash /verif/check.sh --build-only",
 "hooks": {"guard": "none: no hooks are needed in /repo", "enable": "nothing to enable", "source_commits": []},
 "checks": [
  {"property": p,
   "quick_cmd": f"VERIF_TIER=quick bash /verif/check.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {p}",
   "evidence_file": f"/verif/evidence/{p}.json",
   "technique": "deterministic simulation with fault injection",
   "level": "exploration",
   "level_note": note + " Sampled, not exhaustive: executions are drawn from VERIF_SEED within the size bounds in DESIGN.md."}
  for p, note in CHECKS.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "See DESIGN.md. Known findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
