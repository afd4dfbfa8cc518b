#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below (committed outputs; run after editing)."""
import json
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, observe, level='exploration', note='', state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files, mech=mech, observe=observe, level=level, note=note, state=state))

prop('C01', 'Results do not depend on ranks, threads, schedule or tuning',
 'For the same lattice, physics options and initial field, an evolution gives bitwise the same field and velocity, the same string and wall counts, the same energies and energy maps up to summation rounding, and the same written configuration file, whatever the number of MPI ranks the lattice is split over, the number of OpenMP threads, the block sizes used (tuned or not) and the order in which ranks, threads and messages are scheduled.',
 ['schedules', 'configurations', 'inputs'], 'all field types (saxion, axion, axion modulus, paxion), precisions, stencil orders, potentials, layouts with at least 2*Ng slices per rank, thread counts, schedules, with or without tuning, with or without the conversion to theta',
 'The repository tests run fixed rank and thread counts under the scheduler they happen to get and only look at the exit code; the property quantifies over layouts and schedules and compares values.',
 ['lib/propagator', 'include/propagator', 'lib/scalar', 'lib/energy', 'lib/strings', 'lib/io', 'lib/comms'],
 [('halo exchange overlapped with the bulk update', 'include/propagator/propClass.h'), ('block tuner', 'lib/propagator/propagator.cpp'), ('reductions', 'lib/energy/energy.cpp, lib/strings/strings.cpp')],
 ['field and velocity arrays', 'energies', 'string counts', 'HDF5 configuration file'],
 note='Seeded search; two simulated jobs per episode (1 rank/1 thread against a drawn layout and schedule), compared bitwise. Trusts the simulated MPI/OpenMP runtime to be as strict as the standards.')

prop('C02', 'Each time step solves the documented equations of motion',
 'One call of the time integrator advances field, velocity, conformal time, scale factor and axion mass exactly (up to rounding) as the chosen symplectic scheme applied to the documented equations of motion: chosen stencil order, potential, damping, projection (only radial or only angular motion), expansion law, string tension convention and axion-mass law, with periodic boundaries on all sides.',
 ['inputs', 'configurations', 'schedules'], 'all saxion potentials and damping/projection modes, axion fields with the four angular potentials and the modulus field, both precisions, stencil orders 1-4, integrators, block sizes, layouts, schedules',
 'The tests run two or three physics configurations and check no number; the property quantifies over the option space and over initial fields.',
 ['include/propagator', 'lib/propagator', 'lib/cosmos', 'lib/scalar/scalarField.cpp'],
 [('vectorised kernels', 'include/propagator/propXeon.h, include/propagator/propThetaXeon.h'), ('integrators', 'include/propagator/propClass.h'), ('background', 'lib/cosmos/cosmos.cpp, lib/scalar/scalarField.cpp')],
 ['field and velocity arrays', 'conformal time, scale factor, axion mass'],
 note='Seeded search against an independent scalar reference implementation of the equations, at tolerances of a few hundred roundings; assumes the reference.')

prop('C03', 'Block tuning always ends and never changes a run',
 'The tuning of the block sizes and the launch sizes of the propagator always terminates, leaves the field, the velocity and the conformal time as they were, and leaves every rank with the same valid block sizes; a missing, unwritable, damaged or foreign tuning cache, or a clock that stalls or jumps, never crashes or hangs the run and never alters the evolution. A cache entry for the same run configuration is reused without tuning again, and otherwise exactly one such entry is added by the run.',
 ['schedules', 'fault_sequences', 'configurations', 'inputs'], 'field types, precisions, lattice shapes, ranks, threads, schedules, contents of the cache file, failing opens and writes of it, clock jumps and stalls',
 'The tests tune under the one clock and the one cache file they happen to meet and look at the exit code only.',
 ['lib/propagator/propagator.cpp', 'include/utils/profiler.h', 'lib/utils'], [('tuner and cache file', 'lib/propagator/propagator.cpp: tunePropagator')], ['field and velocity arrays', 'block sizes of every rank', 'tuneCache.dat', 'exit status'],
 note='Seeded search over clocks, caches, faults and schedules; the tuned run is compared with the same evolution at fixed blocks.')

prop('C04', 'Halo exchange delivers exactly the neighbouring slices',
 'After the boundary exchange of a field (or of a single block of slices), the halo of every rank holds exactly the adjacent slices of its two periodic neighbours, for every halo width, and nothing else changes, however the messages are delayed, reordered or the ranks scheduled; no request is left open.',
 ['schedules', 'configurations', 'inputs'], 'all field types, precisions, halo widths, numbers of ranks and threads, one-shot and split (start, test, wait) exchanges, message timings',
 'The tests never look at halos, and exercise the split exchange only under the timing of one machine.',
 ['lib/scalar/scalarField.cpp', 'include/scalar/scalarField.h', 'lib/comms'],
 [('ghost exchange', 'lib/scalar/scalarField.cpp: sendGhosts, exchangeGhosts')], ['halo regions', 'field arrays', 'open requests at exit'],
 note='Seeded search with index-coded fields; every byte of the arrays is compared.')

prop('C18', 'Folding and unfolding only permute the lattice',
 'Folding the field into the vector layout and unfolding it again gives back every value bit for bit on every rank; extracting a slice in either layout gives exactly that slice of the lattice; and folding an already folded (or unfolding an already unfolded) field changes nothing.',
 ['inputs', 'configurations', 'schedules'], 'all field types, precisions, lattice sizes, halo widths, ranks and threads; field, velocity and auxiliary field; slices along z and x',
 'No test compares a folded with an unfolded field.',
 ['lib/scalar/folder.cpp', 'include/scalar/folder.h'], [('fold/unfold', 'lib/scalar/folder.cpp')], ['field, velocity and auxiliary arrays, slices'],
 note='Seeded search with index-coded fields against the documented permutation.')
exec(open('meta_more.py').read()) if __import__('os').path.exists('meta_more.py') else None

with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['tests'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
        assert len(p['title']) <= 80, p['title']
m = dict(version=1, setup_cmd='python3 sim/build.py',
    hooks=dict(guard='none', enable='No hook in /repo is needed: the sources are compiled as they are and linked against simulated MPI, OpenMP, clock, random-number and file-system entry points (symbol interposition per rank).', source_commits=[]),
    checks=[dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'], technique='deterministic simulation (seeded schedules and faults)', level=p['level'], level_note=p['note']) for p in P],
    not_applicable=[], notes='See DESIGN.md. ./check replay FILE replays a recorded violation.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
