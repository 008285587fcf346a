#!/usr/bin/env python3
import json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
T={
'default':'run-time monitoring: every call of the real code judged online by an independent scalar oracle, in 7 build configurations',
'C08':'run-time monitoring with scalar oracle, panic monitor and AddressSanitizer builds',
'C09':'run-time monitoring: guard pages, memory-image oracle, panic monitor, AddressSanitizer builds',
'C13':'run-time monitoring with scalar oracle, plus AddressSanitizer builds for out-of-range indices',
'C14':'run-time monitoring: guard pages under disabled lanes, memory-image oracle, AddressSanitizer builds',
'C15':'run-time monitoring with raw-pointer oracle, AddressSanitizer builds',
'C12':'run-time monitoring of per-run generated shuffle programs with a lane-selection oracle',
'C19':'run-time monitoring: formatted output compared with the scalar formatter per lane and flag set',
'C20':'run-time monitoring: event logs of generated programs compared across builds and fused vs stepwise',
'C21':'run-time monitoring: raw representation and trait results of scalar masks judged by the bool oracle',
}
N='Holds on every event observed: boundary-value grids, random and single-deviating-lane workloads over all vector types, in debug and optimised builds for SSE2 to AVX-512. Trusts the scalar operations of the pinned Rust toolchain, the CPU of the sandbox and (C17) glibc libm. Not exhaustive for lanes wider than 8 bits (16 bits for unary operations).'
ids=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
m=dict(version=1,setup_cmd='bash setup.sh',checks=[dict(property=i,quick_cmd=f'python3 check.py {i} quick',thorough_cmd=f'python3 check.py {i} thorough',technique=T.get(i,T['default']),level='exploration',level_note=N) for i in ids],not_applicable=[],
 notes='No hooks in /repo: everything is observable through the public API. /repo carries fix: commits only (see known-findings.txt).')
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
