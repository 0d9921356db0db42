#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/table.py, properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = {}
def reg(pid, *a, **k): CH[pid] = (a, k)
exec(open(V + '/checks/table.py').read())
T = {
 'bfs': 'explicit-state breadth-first exploration of all operation sequences of the real code to a depth bound, each transition compared with a reference set model',
 'enum': 'exhaustive enumeration of a bounded operation/operand space on the real code, each execution compared with a reference set model',
 'fault': 'exhaustive fault injection: every allocation point fails (once, and from there on) on the real code',
 'sched': 'stateless model checking of the real code: every interleaving up to a preemption bound under a controlled scheduler with a happens-before race monitor',
}
N = {
 'C01': ('bfs', 'All update histories over 9 themed alphabets up to the stated depth, merged by a hash of the full concrete state. Trusts the interval-set model.'),
 'C02': ('enum', 'All ordered pairs of a catalogue of contents x representations x 3 instruction-set levels, all subset algebras over boundary atoms, all merge orders.'),
 'C03': ('enum', 'All lists up to a length bound and all lazy chains over a catalogue.'),
 'C04': ('enum', 'Every catalogue bitmap x query x boundary argument (pair).'),
 'C05': ('bfs', 'All cursor-operation sequences to a depth over catalogue bitmaps.'),
 'C06': ('enum', 'All catalogue bitmaps x key layouts x formats x readers with guarded buffers.'),
 'C07': ('enum', 'All catalogue bitmaps against an independent codec written from the published specification, in both directions.'),
 'C08': ('enum', 'All truncations, all single-byte and field mutations of base streams, all short buffers, under AddressSanitizer with exact-size buffers.'),
 'C09': ('bfs', 'All histories over several bitmaps sharing storage, including every release order.'),
 'C10': ('sched', 'All interleavings of small multi-thread programs up to a preemption bound; sequentially consistent exploration plus a vector-clock race check that honours the memory orders used.'),
 'C11': ('enum', 'Validation of every result of the pair and history explorations, plus exhaustive small malformed contents that must be rejected.'),
 'C12': ('enum', 'The same exhaustive workload run in every configuration (3 instruction-set levels x build options), transcripts compared execution by execution.'),
 'C13': ('enum', 'Counting allocator behind the memory hooks over the pair, history and API explorations; raw allocator calls are detected at link level.'),
 'C14': ('fault', 'Every allocation index of every scenario failed once and failed forever.'),
 'C15': ('bfs', 'All 64-bit update histories over themed alphabets up to the stated depth.'),
 'C16': ('enum', 'All ordered pairs of a catalogue x key layouts x representations.'),
 'C17': ('bfs', 'All queries at boundary arguments over the catalogue and all cursor-operation sequences to a depth.'),
 'C18': ('enum', 'All catalogue bitmaps round-tripped in guarded buffers; all truncations and single-byte/field mutations of base streams.'),
 'C19': ('bfs', 'All insert/remove orders over key universes that exercise every index node size, checked by enumeration, seeks and validation after each step.'),
 'C20': ('bfs', 'All operation sequences over small bitsets and all pairs of a size/capacity catalogue.'),
 'C21': ('bfs', 'All method sequences over C++ objects to a depth and all method x operand combinations of a catalogue.'),
 'C22': ('bfs', 'All method sequences over C++ 64-bit maps to a depth and all method x operand combinations of a catalogue.'),
 'C23': ('enum', 'All boundary (min,max,step), flip ranges and offsets over a catalogue.'),
 'C24': ('bfs', 'Re-encoding operations at every state of the explored histories.'),
 'C25': ('bfs', 'All sequences of bulk operations over alphabets of values with shared contexts, against one-by-one handling.'),
 'C26': ('enum', 'All operations x operand pairs incl. aliased; operands compared byte for byte, results and operands then mutated independently.'),
 'C27': ('enum', 'All catalogue bitmaps x representations x sharing states x conversions.'),
}
LV = {'fault': 'fault_enumeration', 'bfs': 'model_checking', 'enum': 'model_checking', 'sched': 'model_checking'}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 run.py build',
  hooks=dict(guard='none', enable='no hooks are needed: the checks compile /repo sources directly and intercept allocation and CPU detection at link time', source_commits=[]),
  checks=[], not_applicable=[],
  notes='Every check compiles /repo/src from the working tree, runs a forked pool of workers over an enumerated space and writes evidence/<id>.json. See DESIGN.md.')
for p in props:
    if p in CH:
        k, note = N[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 run.py check ' + p,
            thorough_cmd='python3 run.py check %s --tier thorough' % p, evidence_file='evidence/%s.json' % p,
            technique=T[k], level=LV[k], level_note=note + ' Bounded: nothing is claimed beyond the enumerated space.'))
    else:
        m['not_applicable'].append(dict(property=p, reason='check not built yet'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'claimed')
