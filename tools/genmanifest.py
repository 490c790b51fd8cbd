#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when the claims change)."""
import json, os
N = {
"C01": "objects drawn from a grammar of git's object formats, read schedules (sizes, empty reads, late or early end of stream, scribbled buffers) and routes drawn per run; oracle: the independent formatter that made the bytes. Trusts that formatter.",
"C02": "as C01, every accessor of the node compared with the abstract object it came from. Trusts the reference model of the documented schema.",
"C03": "each drawn byte sequence (valid, mutated, arbitrary) decoded through many deliveries and routes; oracle: agreement with one whole delivery, and the model where it has an opinion.",
"C04": "read errors of a dozen kinds, at drawn positions, transient or lasting, with or without data, and failing assemblers; oracle: error wraps the injected one, no node, healthy retry succeeds.",
"C05": "per drawn object every cut position (objects up to 400 bytes), surplus and lying sizes; oracle: must fail.",
"C06": "per drawn node every byte position of the sink's failure (encodings up to 250 bytes; drawn positions beyond), histories of failing and healthy encodes; oracle: prefix of the model's bytes, wrapped error, full bytes afterwards.",
"C07": "per drawn node every access fails in turn (up to 80), plus defective nodes and equivalent forms; oracle: wrapped error and zero bytes written, or the model's bytes.",
"C08": "hostile bytes from hostile sources under statement, allocation and stack counters, bounds a multiple (about 4x the maximum ever seen) of bytes delivered; panics and hangs caught per process.",
"C09": "2-5 real goroutines released one at a time by a seeded scheduler that can switch between any two statements of the library; oracle: result equals the one computed alone. Does not cover preemption inside the standard library or the Go memory model.",
"C10": "histories of decodes, encodes, resets and buffer reuse with faults; every retained node re-read after every step.",
"C11": "real link system over a simulated disk (page cache, fsync, rename, crash, torn/lost writes, rot, full); oracle: object store model with durability tracking.",
"C12": "every bit flip and cut of small compressed streams and drawn damage of larger ones; oracle: independent inflation of the damaged stream to its end.",
"C13": "clone of a drawn repository over a discrete-event network with loss, duplication, reordering, corruption, partitions, crashes; oracle: reachability and bytes from the model, bounded completion after faults stop.",
"C14": "assembly histories with refused steps and failing sources; oracle: the decoded twin and a state model of what is assembled. Three recorded findings in the generated code are excluded by exact call and panic.",
"C16": "damage to the bytes of drawn objects, aimed at ids, sizes, persons, entries and ends as well as anywhere, header made to fit again in most cases, decoded by drawn routes and deliveries; oracle: an independent reader of git's formats that settles what must be refused and what must be read how; bytes it does not settle are only checked for invented links and text.",
"C17": "histories of edits by the generic transform over a real link system on a simulated disk with failing reads and writes, full disks and crashes, each edit retried until it succeeds; oracle: the model's objects with the same change applied, up to the root. Commits without all optional fields are edited as generic maps only (the generic transform cannot copy absent fields).",
}
m = dict(version=1,
  setup_cmd="bash check.sh --warm",
  checks=[dict(property=k, quick_cmd=f"bash check.sh {k}", thorough_cmd=f"bash check.sh {k} -tier thorough", evidence_file=f"evidence/{k}.json",
     technique="deterministic simulation with fault injection (seeded search over schedules and faults, reference-model oracle)",
     level="exploration", level_note="Seeded sampling, not proof: " + v) for k, v in N.items()],
  not_applicable=[dict(property="C15", reason="a pure function of one hand-built node: no schedule, fault, clock, crash or history takes part, so simulation has nothing to vary; checking it would be input generation in simulator vocabulary")],
  notes="No hooks in /repo: scheduling points, step counters and lock seams are put into a copy of /repo's current sources by a build overlay (sim/cmd/instr), so the shipped code is untouched. Replay of a reported violation: bash check.sh --replay <file>.")
here = os.path.dirname(os.path.abspath(__file__))
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
