#!/usr/bin/env python3
# Writes MANIFEST.json.  Properties in CLAIMED have a check; the others are listed
# as not applicable with the reason.
import json, re
V = "/verif"
T = "deterministic simulation with fault injection: "
CLAIMED = {
 "C01": (T + "seeded writer histories and write faults on simulated storage, independent decoder and read-back against a model",
  "exploration", "Seeded sampling of writer histories, write/close failures and read deliveries; the real writer and reader run, only the files and the map seed are simulated. Trusts the model (writeops.go), the independent CDF decoder (cdfbuild.go) and the simulated storage."),
 "C02": (T + "seeded writer histories and write faults on simulated storage, read-back against a model",
  "exploration", "Seeded sampling of writer histories, write/close failures and read deliveries; HDF5 output is judged through the library's own reader (property C07 ties that reader to the reference tools)."),
 "C03": (T + "seeded create/write/close failures in writer histories, checked for reporting and handle lifecycle",
  "exploration", "Every failing call position is reachable by the sampler, histories are short; checks each call's result, the handle's lifecycle and that nothing is written after Close."),
 "C05": (T + "seeded histories with refused calls, differential against the same history without them",
  "exploration", "Byte-for-byte comparison with the file the accepted calls alone produce; the classes of invalid calls are those listed in gen.go badOp."),
 "C04": (T + "seeded crash points in writer histories and torn CDF files, tolerant comparison with the model",
  "exploration", "The writer dies after a chosen byte and only what was written survives; also torn copies of independently encoded files. The one allowed deviation (CDF fill values for wholly missing elements) is computed exactly from the layout. HDF5 files of the reference tools are not torn here (C13 damages them)."),
 "C06": (T + "files of an independent encoder, and of libnetcdf, under seeded delivery schedules, compared with the encoder's model",
  "exploration", "Seeded sampling of CDF files (versions 1, 2, 5; record and fixed variables, any order of data, gaps) and delivery schedules; trusts the encoder (cdfbuild.go), which shares no code with the reader."),
 "C07": (T + "files of the reference tools under seeded delivery schedules, compared with what the reference libraries read",
  "exploration", "About 420 files made by ncgen, nccopy, h5repack and the HDF5 and NetCDF C libraries, of fixed and of random content, with every value as the reference library reads it (fix/); the sampler draws the file and the delivery. Features the library doesn't support (fixtures tagged mayrefuse) may be refused at Open, never misread."),
 "C08": (T + "seeded slice histories under delivery schedules, against the same part of a whole read by a fresh handle",
  "exploration", "Differential: the whole value comes from a fresh handle on healthy storage (C06 and C07 tie that to the file's content)."),
 "C09": (T + "seeded reader histories with caller mutation, differential against fresh handles",
  "exploration", "Every call of a history is compared with the same call on a fresh handle; the caller overwrites what it is handed in half the runs."),
 "C10": (T + "seeded read, seek and open failures in reader histories, differential against healthy reads",
  "exploration", "Failures are placed by operation number over the whole history, transient or lasting; a call during which one fired must fail or be right, every other call must be right."),
 "C11": (T + "seeded cooperative scheduler over storage and lock operations, against sequential results; further runs with the race detector watching the simulated tasks",
  "exploration", "Two to four tasks with their own handles; switches happen at every seek, read, lock and unlock. Accesses between those points are judged by happens-before in a second, instrumented build, in which the simulator's own handoffs are invisible."),
 "C12": (T + "seeded open/close histories with failures and damaged files, handle ledger kept by the simulated storage",
  "exploration", "After every call the simulated storage's open handles are compared with the handles the caller holds."),
 "C13": (T + "seeded damage of stored bytes, every read call on what opens, with step, memory and process limits",
  "exploration", "Damage is one to five fields, random contents or truncation; runs in worker processes with a 12 GB address space, a budget per call of 6 GiB and a step limit."),
 "C14": (T + "seeded damage of checksummed bytes before and amid reader histories, differential against the undamaged file",
  "exploration", "One to eight bytes in a region drawn evenly from the kinds of checksummed structure in the file; regions come from an independent scanner and from libhdf5. Damage a checksum cannot show (0000 for ffff under fletcher32) is not made."),
 "C15": (T + "the same history under two map orders and with other files before it, compared result by result",
  "exploration", "Go's map random numbers come from the run's seed through a runtime overlay; results, their order and the written bytes must be equal."),
 "C16": (T + "copies of generated and reference-made files through reader and writer, with write faults, compared with what was read",
  "exploration", "Judged through the library's own reader on both sides (C06, C07 tie that to the files). What the writer may refuse is decided from the value alone (prop_copy.go tellsType). The names of user-defined types, and whether a list was of fixed or varying length inside a compound, are not part of a value and are not compared."),
 "C17": (T + "writer histories and copies with write faults; the bytes are decoded by an independent strict HDF5 decoder and compared with what was given to the writer",
  "exploration", "The decoder (sim/h5strict.go) is written from the format specification and was checked against libhdf5 and libnetcdf on about 1,000 of the files. It knows the structures a writer of new-style files uses (superblock 2 or 3, object headers of version 2, compact links and attributes, contiguous and compact data, global heaps, datatypes of versions 1 to 3); others count as invalid. User-defined types are not committed, so that netCDF-4 tools see no names for them; that is not part of the property."),
 "C18": (T + "seeded slice histories over computed files of up to terabytes, with read faults, compared with the function that computes them",
  "exploration", "CDF files are computed from their description as they are read; HDF5 files were made sparse by libhdf5 (nine of them, fix/mkhuge.py) and slices are drawn around what was written, the 2 and 4 GiB boundaries and anywhere. Slices of more than 1 MiB are not compared. A call that reads more than 64 MiB for such a slice is a violation. Reading only: C19 has the CDF writer."),
 "C19": (T + "seeded CDF writer histories that really write 2 to 6 GiB into simulated storage that may fail, every byte compared with a model of shared rows",
  "exploration", "Large variables repeat four distinct rows of 64 KiB to 4 MiB in a random order. CDF only: the HDF5 writer holds everything it writes and needs 20 GB for 4 GiB. No single dimension is beyond 2^31, which would need that much memory."),
}
PENDING = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = []
for p in props:
    if p["id"] not in CLAIMED:
        na.append({"property": p["id"], "reason": PENDING.get(p["id"], "no check is registered yet: its simulation is still being built")})
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "hooks": {"guard": "verif", "enable": "go build -tags verif (build.sh)", "source_commits": ["5752599e1c0e5c4d8a0b6d1ba4ab3bf1f55aebc7"]},
 "checks": [
  {"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
   "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n}
  for i, (t, l, n) in sorted(CLAIMED.items())],
 "not_applicable": na,
 "notes": "One simulator (sim/) decides all properties; see DESIGN.md.  Replay a violation: .build/sim replay FILE (after ./build.sh).",
}
import subprocess
m["hooks"]["source_commits"] = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^seam:"], capture_output=True, text=True).stdout.split()
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
