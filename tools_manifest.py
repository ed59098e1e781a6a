#!/usr/bin/env python3
# writes MANIFEST.json from the table below
import json, sys
T = {
 'C01': ('exhaustive enumeration of expression trees on the real evaluator against a reference interpreter', 'every expression tree, operand vector, layout and context within the stated bounds is executed; assumes the reference interpreter (mc/ref) states the language correctly'),
 'C02': ('exhaustive enumeration of branch programs against a reference interpreter', 'every @if program within the bounds is executed on the implementation and compared byte for byte; trusts mc/ref'),
 'C03': ('exhaustive enumeration of loop programs against a reference interpreter', 'every loop program within the bounds is executed on the implementation and compared byte for byte; trusts mc/ref'),
 'C04': ('exhaustive enumeration of assignment/scope programs against a reference interpreter', 'every scope program and type pair within the bounds is executed; programs that depend on unspecified scoping are not compared; trusts mc/ref'),
 'C05': ('exhaustive enumeration of byte strings and lexeme sequences against an independent text scanner', 'every string of the enumerated spaces is rendered and compared byte for byte with an independent scanner'),
 'C06': ('exhaustive enumeration of layouts x pages x inserts in generated template trees against a reference layout expansion', 'every tree within the bounds is written to disk, loaded and rendered by the implementation and compared byte for byte; trusts mc/ref'),
 'C07': ('exhaustive enumeration of component files x uses x arguments x slots in generated template trees against a reference component expansion', 'every tree within the bounds is written to disk, loaded and rendered by the implementation and compared byte for byte; trusts mc/ref'),
 'C08': ('exhaustive enumeration of lexeme sequences, prefixes and token edits on the real lexer, parser and loader with a watchdog outside of the code under test', 'every source within the bounds is lexed, parsed and (through the string API or as a page, layout or component file) loaded; acceptance is checked against an independent balance scanner and by construction for prefixes and illegal characters'),
 'C09': ('exhaustive enumeration of expression programs and Go data on the real evaluator with crash, hang and error-form monitors', 'every program and data value within the bounds is rendered by the implementation; a panic, a hang, an abort or a malformed error is a violation; where the reference interpreter defines the result the verdict is compared too'),
 'C10': ('exhaustive enumeration of literal contents, data strings and print sites against the escaping rules', 'every string of the enumerated spaces at every print site is rendered and compared byte for byte, and decoded back by an independent HTML decoder'),
 'C11': ('exhaustive enumeration of receivers and arguments for every built-in against an independent model of each built-in', 'every call within the bounds is executed on the implementation and compared with the model; trusts mc/ref/builtin.go'),
 'C12': ('exhaustive enumeration of run-time built Go types x value variants x access paths against a model written by construction', 'every Go type and value within the bounds is passed to the implementation and every path into it read back; data compared with an identically built twin after every render'),
 'C13': ('exhaustive enumeration of sources and template trees with a marked fault', 'every combination of preceding multi-line tokens, context and fault within the bounds is executed on the implementation; the expected line is counted from a mark in the source'),
 'C14': ('exhaustive enumeration of probes x orders of every map iteration in an instrumented build of the real code, and repetition in one and several processes', 'for every probe within the bounds every map iteration of the library is run in several orders (all permutations of small maps, one iteration at a time, and global orders); the observation has to be the same; orders of two iterations at a time in the thorough tier'),
 'C15': ('stateless exploration of all schedules of two and three concurrent calls within a preemption bound on an instrumented build of the real code under the race detector', 'all schedules with at most 1 (thorough: 2) preemptions at accesses to shared state; results compared with the call alone; races reported by the race detector on every explored schedule'),
 'C16': ('exhaustive enumeration of call histories on the real code from a fresh state, against the result of each call in a process of its own', 'all pairs of calls, all short histories, walks in which every call follows every call, and programs of the other checks rendered repeatedly with several data; trusts that a call alone in its process is right (other checks)'),
 'C17': ('exhaustive enumeration of failing and working pages x error page configurations x debug mode against a model of Response', 'every combination within the bounds is executed; body and returned error compared with the model; message, path and line are those of String for the same call'),
 'C18': ('exhaustive enumeration of directory trees x spellings x extensions and of file faults, cuts and edits of a site, with load histories, on the real loader', 'every tree, spelling and fault within the bounds is put on disk and loaded by the implementation; which names exist follows from the paths alone; whether a source is wrong is taken from the parser (checked by C08)'),
 'C19': ('exhaustive enumeration of lexeme sequences against the tiling invariant', 'every lexeme sequence within the bounds is tokenised by the real lexer and the tiling, position and containment invariants are checked for every cursor'),
 'C20': ('exhaustive enumeration of registration/call/load histories against a model of the registry, and of receivers, arguments and results against their Go values', 'every history within the length bound starts from a fresh registry in an instrumented build; values within the pools and generated Go types are passed through real calls'),
}
checks = []
for k in sorted(T):
    t, n = T[k]
    checks.append({'property': k, 'quick_cmd': f'./check.sh {k} quick', 'thorough_cmd': f'./check.sh {k} thorough', 'evidence_file': f'evidence/{k}.json', 'technique': 'model checking: ' + t, 'level': 'model_checking', 'level_note': n})
allp = [f'C{i:02d}' for i in range(1, 21)]
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public API of the working tree; C14-C17 and C20 build an instrumented scratch copy of the sources through go build -overlay (mc/instr)', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in allp if p not in T],
     'notes': 'See DESIGN.md. Every check builds mc/ against /repo as it is, enumerates exhaustively within stated bounds and writes evidence/<id>.json.'}
open('/verif/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
