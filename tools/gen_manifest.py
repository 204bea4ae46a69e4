#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import main
props = main.load()
TECH = {
 'thread': 'deterministic simulation of the real event loop under a seeded thread scheduler; history checks against the one-thread run',
 'mpi': 'deterministic simulation of all MPI processes and their network in one process; history checks against the processes\' own results',
 'fault': 'deterministic simulation with seeded file-system, allocation and crash faults; refinement against the fault-free run',
 'py': 'deterministic simulation of Python sessions with seeded schedules and failing allocations; checks against a model of a session',
 'twin': 'deterministic simulation of two set-ups of the real code with the same seeded randomness and schedules; differential checks of their histories',
 'rand': 'deterministic simulation with seeded randomness and extreme draws; conservation invariants and statistics over recorded histories'}
KIND = dict(C27='twin', C28='twin', C29='twin', C01='thread', C02='thread', C03='thread', C04='thread', C05='thread', C06='py', C07='py', C24='py', C08='mpi', C09='mpi', C10='mpi', C23='mpi',
            C11='fault', C12='fault', C13='fault', C14='fault', C15='fault', C19='fault', C25='fault')
NOTE = {
 'thread': 'Sampled schedules (random, lock-step, PCT, race-directed, stalls) of instrumented real code; sequentially consistent memory assumed; a clean run is evidence, not proof.',
 'mpi': 'Sampled message timings, buffering modes and process schedules of the real program on a simulated MPI library; assumes that library follows the MPI standard.',
 'fault': 'Sampled fault kinds and positions at the file and allocator seams of the real program and real HDF5; assumes the disk model of DESIGN.md.',
 'py': 'Sampled call histories and schedules of the real RunManager and bindings in CPython; allocation failures only in set-up.',
 'twin': 'Sampled configurations, entropy and schedules; where the two sides draw random numbers differently only their deterministic parts or statistics are compared.',
 'rand': 'Sampled histories of the real processes; statistical statements are tested at six standard deviations with fixed seeds.'}
NA = {
 'N01': 'A pure function of time and position: no schedule, clock, I/O, randomness or fault for a simulator to decide; unit tests and proofs fit it.',
 'N02': 'Pure text-to-value mapping; only its I/O side depends on faults and that is claimed as C13. Value correctness over inputs is not a matter of simulation.',
 'N03': 'Pure numerical functions without any nondeterminism; accuracy is a matter of analysis or unit tests.',
 'N04': 'Geant4 and TensorFlow are not installed, so this part cannot be built or run here; no code under test to simulate.'}
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl')) as f:
    for l in f:
        p = json.loads(l)['id']
        if p in props:
            k = KIND.get(p, 'rand')
            checks.append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p, evidence_file='evidence/%s.json' % p,
                               technique=TECH[k], level=props[p].level, level_note=NOTE[k]))
        else:
            na.append(dict(property=p, reason=NA.get(p, 'check under construction')))
m = dict(version=1, setup_cmd='python3-vt lib/build.py', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='No hooks in the repository: every seam (memory accesses, OpenMP, MPI, file calls, clocks, random_device, operator new) is supplied from outside at compile or link time.', source_commits=[]),
         notes='One simulator (sim/), one driver (lib/), one command per property. VERIF_SEED selects the random choices. ./check replay FILE replays a violation.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
