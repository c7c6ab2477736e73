#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and notes below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based round trip with shrinking", "Generated ordered element streams written and read back, compared field by field. Sampled, not exhaustive; the oracle is the generated input itself."),
 "C02": ("property-based round trip, independent decoder and encoder of the header", "Generated header values; trusts the harness's own header codec."),
 "C03": ("differential fuzzing against an independent encoder of the PBF format", "Generated conforming files from an encoder written from the format description, with every optional choice varied; the expected elements come from the encoder's input."),
 "C04": ("property-based testing against an independent decoder", "Files of both writers decoded by a strict decoder written from the format description."),
 "C05": ("property-based differential test with randomised schedules", "Parallel against sequential iteration on generated files; thread schedules are sampled through random delays."),
 "C06": ("property-based testing over bounded-displacement permutations with randomised schedules", "Output decoded independently and compared with the sorted input; interleavings are sampled."),
 "C07": ("property-based testing over arbitrary permutations, success-implies-complete oracle", "Arbitrary orders; either a call fails or the independently decoded file is sorted and complete."),
 "C08": ("property-based testing of the order laws against key tuples", "All pairs of generated lists against the tuple (type, id, version)."),
 "C09": ("structure-aware mutation fuzzing with an independent decoder as oracle", "Mutations of generated conforming files (every truncation point reachable, framing, payload, references) and foreign bytes; allocation and hang monitors."),
 "C10": ("property-based testing of the gate against the set rule", "Generated feature lists in independently encoded headers."),
 "C11": ("property-based and metamorphic testing", "Calculator against extremes of generated files, merge against min/max, parser against an independent grammar."),
 "C12": ("property-based round trip", "Generated element sets of the database domain written as a dump and read back."),
 "C13": ("property-based model comparison of table rows", "Rows of every table parsed by an independent COPY parser, against rows computed from the elements."),
 "C14": ("property-based model comparison of table rows", "As C13 for the current_ tables."),
 "C15": ("metamorphic and differential testing with generated dumps", "Dumps produced by the harness with shuffled rows, columns and table numbers, alternative escapes; trusts the harness's COPY writer."),
 "C16": ("property-based invariant over tables", "Users and changesets against the set of references, ids and time ranges of the generated elements."),
 "C17": ("property-based testing against exact integer arithmetic", "Tiles from the node table against an exact rational computation of the OSM quadtile."),
 "C18": ("fault injection driven by generated cases", "Errors or panics at a generated callback invocation, creation failures of every output file, write failures at generated byte offsets (RLIMIT_FSIZE, /dev/full), and the failure of a generated single open, read or write (stand-ins for the C library's functions)."),
 "C19": ("property-based differential test", "Against an independent proleptic Gregorian calendar."),
 "C20": ("stateful model-based testing over real threads", "Histories of operations on several accumulators from several threads, in enforced and free order."),
 "C21": ("property-based round trip through both formats, idempotence", "Generated element sets through PBF, dump and PBF again with both writers."),
 "C22": ("metamorphic testing: repeated runs compared byte by byte", "The same input written twice or more under differing load and batching."),
 "C23": ("stateful testing of concurrently running pipelines against their own data", "Generated sets of pipelines in threads, interleaved on one thread or in sequence; interleavings are sampled."),
 "C25": ("structure-aware mutation fuzzing of dumps with a verdict per kind of damage", "Dumps of the independent writer with one generated piece of damage: missing or cut files, rows, columns, values, references, orphans, temporary files that cannot be written."),
 "C26": ("metamorphic testing of peak heap use, counting allocator", "Generated operations on n and 4n elements: the peaks agree for serial ones; parallel ones stay below a bound from block, buffer and queue lengths. Heap only; sampled."),
 "C27": ("stateful property-based testing, directory tree comparison", "Generated histories of reader operations and overwrites under generated path names; results against the data, directory trees, open files and threads before and after. Sampled."),
 "C28": ("property-based round-trip testing, nearest-value oracle", "Generated off-grid coordinates, box edges and times written in every way; what comes back must be the nearest representable value, and stay. Sampled."),
 "C29": ("property-based differential testing of pipelines against a model filter", "Generated files, filters, headers, chains and configurations; every output decoded independently. Thread schedules sampled with delays."),
 "C30": ("property-based testing of call histories against the calls' own results", "Generated sequences and divisions, files read back; sizes around the limit enumerated."),
 "C31": ("property-based testing against a reference grammar and reference extremes", "Generated texts and point lists."),
 "C32": ("property-based testing with enforced rendezvous of threads in callbacks", "Generated files, numbers of tasks, meeting points and nested uses; a meeting that never comes about is a hang. Schedules otherwise sampled."),
 "C33": ("property-based differential testing of two builds", "The same generated cases through one program built with and without the feature; the oracle is the other build."),
 "C34": ("property-based invariant checking against the schema parsed from the dump", "Generated consistent element sets; a model of types, keys and references of the declared SQL instead of PostgreSQL itself, which is not installed."),
 "C35": ("differential testing under generated disturbances of system calls", "Short transfers, EINTR and delays at generated calls, injected by stand-ins for the C library's open64, read, write and their vectored and positioned forms; memory-mapped access is not disturbed."),
 "C36": ("metamorphic testing of CPU time, generated data of scaled sizes", "CPU time of the calling thread on n and 8n: more than 26 times plus 60 ms in six measurements is a violation (linear 8, quadratic 64). Work of pool threads is not measured."),
 "C37": ("metamorphic and model-based property-based testing", "Element sets written in generated orders; tables parsed independently and compared with a model of the set, and read back. Current tables only for streams in order by type."),
 "C38": ("stateful model-based property-based testing", "Histories of operations on elements and file information against a model, all accessors compared after every step."),
 "C24": ("property-based differential test", "Block copies of independently encoded files decoded again independently."),
}
import subprocess
reg = subprocess.run([os.path.join(D, "harness/target/debug/verif"), "list"], capture_output=True, text=True, check=True).stdout.split()
ids = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "checks": [{
   "property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
   "technique": T[i][0], "level": "fault_enumeration" if False else "exploration", "level_note": T[i][1]} for i in ids if i in reg],
 "not_applicable": [{"property": i, "reason": "check not finished yet"} for i in ids if i not in reg],
 "notes": "No hooks: the checks use only the crate's public API, files and process-level fault injection. Harness: /verif/harness (proptest). See DESIGN.md.",
}
open(os.path.join(D, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), [x["property"] for x in m["not_applicable"]])
