#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in reversed(log.splitlines()) if l.split(' ', 1)[1].startswith('sim:')]
DST = "deterministic simulation: seeded search over "
C = {
 'C01': ("schedules of reads, interruptions and refill boundaries x contents, differential against the undelayed string", ""),
 'C02': ("model documents x presentations x deliveries, refinement against the written model", "Trusts the document writer (doc.rs) to write what YAML says."),
 'C03': ("injected read faults (kind, payload, offset, call) x deliveries, history compared with the fault-free twin", ""),
 'C04': ("faults and malformed contents x histories of later polls through every handle", ""),
 'C05': ("histories of keeping, cloning, dropping events across refills, faults and source panics, on a poisoning heap", "The heap never reuses a freed block within a run and overwrites it at once; reads of freed memory show as changed data or a fault."),
 'C06': ("model documents x deliveries, borrow ranges checked against where the text was written", ""),
 'C07': ("schedules of lazy evaluations (order, time, thread) x deliveries x faults, differential against eager parsing", ""),
 'C08': ("hostile bytes x deliveries x faults x consumption, with debug assertions and overflow checks on", "Undefined behaviour which neither panics, faults nor changes data is not seen."),
 'C09': ("hostile bytes x deliveries, progress bounded in polls, reads and CPU", ""),
 'C10': ("hostile bytes x deliveries x faults, a grammar automaton run on every prefix", ""),
 'C11': ("encoded and corrupted contents x splits inside characters, against the standard library's decoder", ""),
 'C12': ("schedules of several consumers' creation, turns and drops, against each one alone", "Threads run one at a time at poll granularity; data races inside a poll are excluded by the types (shared sources are immutable)."),
 'C13': ("cut offsets of model documents x deliveries, expected ending known from the model", "Trusts the document writer's record of which constructs are open where."),
 'C14': ("endless streams x deliveries x polls, bytes taken compared with the event's position", ""),
 'C15': ("sequences of documents x deliveries, each compared with the document alone", ""),
 'C16': ("histories of handle switches x faults x deliveries, compared with one uninterrupted pass", ""),
 'C18': ("families of contents at two lengths x deliveries, exact counts of executed branches, bytes moved and heap use compared", "No clock is involved: branches are counted by the compiler's coverage instrumentation in a second build of the same sources."),
 'C20': ("model documents with one rule broken at a known place x source kind x deliveries, refinement against what was written before it", "Trusts the document writer to know what breaks a rule; 19 kinds of defects."),
 'C21': ("model documents x deliveries, marks checked against where the text was written", ""),
 'C22': ("arbitrary bytes and cut documents x deliveries x faults, each error's category checked against what the simulated source did and what the content is", ""),
 'C23': ("histories of sessions x deliveries x faults and source panics, the simulated heap's balance and the byte source's drops compared before and after", "Memory taken outside the global allocator would not be seen; the library takes none."),
}
NA = {
 'C17': "the library never attaches a position to an error (Error::line/column/at are always 0 and has_context is false), so there is no behaviour to decide yet",
 'C19': "a property of the types of programs that must not compile: nothing runs, so there is nothing to simulate",
}
try:
    exec(open(os.path.join(here, 'tools', 'manifest_extra.py')).read())
except FileNotFoundError:
    pass
m = {
 "version": 1,
 "setup_cmd": "bash ./build.sh && bash ./build.sh cost",
 "hooks": {"guard": "cfg yary_sim", "enable": "RUSTFLAGS=\"--cfg yary_sim\" cargo build (set by /verif/build.sh)", "source_commits": hooks},
 "checks": [{
   "property": k, "quick_cmd": "./check.sh %s quick" % k, "thorough_cmd": "./check.sh %s thorough" % k,
   "evidence_file": "evidence/%s.json" % k,
   "technique": DST + t, "level": "exploration",
   "level_note": ("Seeded sampling of the whole library, unmodified apart from the refill size seam, in one process: a clean batch is evidence over the runs made, not proof. " + n).strip(),
 } for k, (t, n) in sorted(C.items())],
 "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items())],
 "notes": "Replays: target/release/yary-sim replay FILE. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
