#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after changing either)."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {
 'C20': 'A pure function of its input: no schedule, clock, fault or other party is involved in encoding one result, so simulation has nothing to decide.',
 'C21': 'A pure function of its input text; its behaviour under sharing and concurrency is C16. Generating texts would be input fuzzing, not simulation.',
 'C22': 'A pure function of its input word: no schedule, clock, fault or other party is involved.',
}
ORACLE = {
 'C01': 'Wing-Gong linearizability search of every recorded history (all results, plus a final audit of all names) against a sequential reference repository',
 'C02': 'document ownership audit against the reference repository: histories of puts with unique documents must be linearizable in what is stored where',
 'C03': 'deadlock detection at every step, a step bound per call under fair schedules, progress of writers under a stream of searches and of readers under a stream of puts',
 'C04': 'Go race detector inside the simulator (the simulator itself adds no happens-before edges), panics, fatal errors and lock misuse',
 'C05': 'streams kept open, read late and closed early or twice must yield the snapshot that the linearizability search assigns to their search',
 'C06': 'reference evaluation of the matching documents, hit counts and agreement of both engines, on repositories and stand-alone indices, concurrently',
 'C07': 'linearizability of puts and searches through aliases against the reference repository',
 'C08': 'linearizability of renames against the reference repository plus observers that must find exactly one name',
 'C09': 'exactly-once count of successful drops plus linearizability against the reference repository',
 'C10': 'repeated searches while the data is unchanged must be equal element by element; order against the reference',
 'C11': 'panics injected into tokenizers, filters, engines, indices and builders; all other calls checked against the reference repository',
 'C12': 'listings are overwritten and re-read by their callers while the repository changes; linearizability of what they listed',
 'C13': 'searches stalled in engines and analyzers, and printings stalled in an index, while no writer exists; every other call must return before the stall ends',
 'C14': 'alias invariants at every instant as seen by listings, and exact results of alias calls',
 'C15': 'linearizability of mixes dominated by refused calls',
 'C16': 'every token list must equal the one of a solo run; lists handed to filters and callers are overwritten',
 'C17': 'every concurrent search result must equal its solo result; results and postings are overwritten by callers',
 'C18': 'readers of the swapped alias must see complete old, both or new contents and never go back',
 'C23': 'engines examine the index they were given before, during and after injected stalls: nothing may change, postings must agree with the documents; linearizability of what they saw',
 'C24': 'a workload with abandoned streams, stalls and panics is repeated in one run; the number of simulated goroutines after each repetition must not grow',
 'C25': 'instrumented caller-supplied indices report every overlap of a Put with another method',
 'C26': 'counts of builder calls, index Puts and engine runs, attributed to calls, must fit a linearization against the reference repository; no index is built for nothing',
 'C27': 'the printed text is parsed and must be the contents of one state of a linearization against the reference repository',
 'C28': 'a workload with ever new names, documents and terms is repeated in one run and what it stored is removed each time; the number of strings handed over that are still reachable (weak pointers, after a collection) must not grow with the repetitions',
 'C19': 'histories of each repository are checked alone against the reference, with shared components',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} quick',
        'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'deterministic simulation with fault injection: seeded schedules of the real code; ' + ORACLE[i],
        'level': 'exploration',
        'level_note': 'Evidence, not proof: seeded search over programs, schedules at synchronisation operations and between statements, and injected stalls'
            + (' and panics' if i in ('C04', 'C11', 'C03', 'C24', 'C25', 'C26', 'C28') else '') +
            '. Trusted: the build-time source rewriter, the simulated scheduler and primitives, the reference model, the Go toolchain and race detector.',
    })
json.dump({
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: the seam is a build-time rewrite of the current source (sim/cmd/simgen) used through go build -overlay. ./replay.sh FILE re-executes a replay file. Repairs of genuine defects are listed in known-findings.txt.',
}, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
