#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand after changing this table."""
import json, os
T = {
 'C01': ('online round-trip monitor over model-generated, archived and git-made objects', ''),
 'C02': ('field-by-field monitor of decoded commits against a reference model', ''),
 'C03': ('field-by-field monitor of decoded tags against a reference model', ''),
 'C04': ('entry, order and lookup monitor of trees against a reference model; accept-implies-identity monitor on damaged trees', ''),
 'C05': ('byte and verdict monitor of blobs against an exact acceptance oracle', ''),
 'C06': ('identity monitor: four texts, rendering and re-encoding against the originals', ''),
 'C07': ('hostile workloads under panic, stack-overflow and hang monitors, every result inspected and encoded', ''),
 'C08': ('fault injection (every cut point, suffixes, size fields) with a refuse-all oracle', 'fault_enumeration'),
 'C09': ('resource monitor: exact allocation counters and thread CPU time over growing inputs', ''),
 'C10': ('differential monitor over all entry points and delivery schedules', ''),
 'C11': ('fault injection at every read offset and every byte of compressed streams, error identity monitor', 'fault_enumeration'),
 'C12': ('fault injection at every write offset and in every call to nodes and builders, error identity and prefix monitor', 'fault_enumeration'),
 'C13': ('link and hash monitor in every reference position and node form', ''),
 'C14': ('differential monitor over node forms, key orders and encoders', ''),
 'C15': ('monitor of encodings of assembled nodes against an independent serializer and git', ''),
 'C16': ('Go race detector under concurrent stress in many processes, plus result monitor against a sequential reference', ''),
 'C17': ('history monitor: shadow state of every live node checked after each operation, captured output streams', ''),
 'C18': ('node-contract monitor of the whole node interface against a schema reference model', ''),
 'C19': ('builder monitor of assembly sequences (valid and defective) against a schema reference model', ''),
 'C20': ('traversal trace monitor against git', ''),
 'C21': ('registry, store/load and block verdict monitor', ''),
 'C24': ('leak monitor: memory referenced after collection, goroutines and open files while hundreds of thousands of objects are worked through', ''),
 'C25': ('differential monitor: logs of processes in different surroundings, with an instrumented standard library, and the other monitors in a 32-bit build', ''),
 'C23': ('monitor of copy-on-write updates, of one object and through links, against model updates and git; originals watched', ''),
 'C22': ('offline comparison of event logs of shipped, regenerated and reference bindings', ''),
}
NOTE = {
 'C25': 'One 32-bit platform (386) is run, no big-endian one. Surroundings are those listed; environment variables are answered with three values each.',
 'C24': 'Growth below 50 bytes per object, or of a cache with a bound, passes. The operations and kinds are enumerated, their objects generated so that no part occurs twice.',
 'C16': 'Sound for the schedules that ran: the race detector sees every unsynchronised pair of accesses it happens-before orders no other way, and every result is compared. Schedules are sampled, not enumerated. Trusts the Go race detector and the reference model.',
 'C08': 'For each object in the workload every cut point (up to 3000 bytes; sampled above) and every listed size text is injected through all entry points; objects themselves are sampled. Trusts the reference serializer.',
 'C11': 'For each object in the workload every read offset is failed in every mode, and every byte of its compressed stream damaged; objects are sampled.',
 'C12': 'For each object in the workload and each node form every write offset (up to 1500; sampled above) and, in further suites, every fallible call to the node or the builder is failed; objects are sampled.',
 'C09': 'Allocation is measured exactly and CPU time per thread; bounds are generous constants, so only growth faster than linear or large constant factors are reported. Layouts are those enumerated in the harness.',
 'C20': 'Repositories are generated by git; paths and references of each are enumerated. Trusts git.',
 'C22': 'Trusts the go-ipld-prime generator, which also made the reference bindings from a second copy of the schema.',
}
DEF = 'Holds on every execution observed; inputs are drawn from a reference model with hostile lengths, bytes and layouts, seeded by VERIF_SEED, and not exhaustive. Trusts the reference model and the go-ipld-prime library.'
checks = []
for p, (t, lv) in sorted(T.items()):
    checks.append(dict(property=p, quick_cmd=f'./run.sh {p} quick', thorough_cmd=f'./run.sh {p} thorough',
        evidence_file=f'evidence/{p}.json', technique='runtime monitoring: ' + t, level=lv or 'exploration', level_note=NOTE.get(p, DEF)))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
  notes='No hooks in /repo: the monitors observe the exported API, the race detector, the coverage counters and the process. Known findings and fixes are listed in known-findings.txt.')
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
