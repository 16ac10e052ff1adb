#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFERENCE = 'online reference-model monitor on the public entry points (80-bit reference, %s)'
T = {
 'C01': ('invariant monitor on every table of probabilities returned, hostile generated workloads', 'shape, finiteness, range and normalization of what was returned'),
 'C02': (REFERENCE % 'electronic Boltzmann factors', 'weights and probabilities against the definition'),
 'C03': (REFERENCE % 'products of frequencies', 'weights and probabilities against the definition'),
 'C04': (REFERENCE % 'quantum oscillator, cross-examined with mpmath', 'weights and probabilities against the definition'),
 'C05': (REFERENCE % 'moments and symmetry orders', 'weights and probabilities against the definition'),
 'C06': ('reference monitor over random multisets and groupings of built-in and user-defined contributions', 'products, sums, order and grouping independence'),
 'C07': ('reference monitor at 0 K and along sequences T -> 0+', 'one known finding (zero-point energies at exactly 0 K) is listed and printed'),
 'C08': ('reference monitor along sequences T -> infinity', 'limits decided by bounds that tighten with T'),
 'C09': (REFERENCE % 'heat capacity, 60-digit numerical derivatives, finite differences of U', 'C against three independent oracles'),
 'C10': ('invariant and limit monitor on heat capacities, from 0 K to far above every quantum', 'finiteness, sign, limits'),
 'C11': ('reference monitor on W and V with analytic and numerical derivatives', 'derivatives of every contribution class'),
 'C12': ('reference monitor on ensemble averages with undefined observables at null probabilities', 'weighted means, linearity, bounds'),
 'C13': ('metamorphic monitor: relabelled executions compared', 'permutations, repeated minima'),
 'C14': ('metamorphic monitor: shifted and scaled executions compared', 'common offsets and factors'),
 'C15': ('metamorphic monitor: the same temperature observed in different arrays', 'independence of the other temperatures'),
 'C16': ('history monitor: shadow copies of arguments, results and superpositions over random call histories', 'immutability and history independence over the histories run'),
 'C17': ('controlled thread scheduler (line-level preemption) and stress, results compared with the sequential ones', 'distinct schedules counted; native numpy code is not preempted inside a call'),
 'C18': ('offline checker: files from an independent writer against what was loaded', 'parsed values, order and moments'),
 'C19': ('metamorphic monitor: moved and reordered geometries compared after loading', 'one known finding (60-atom shells of group I) is listed and printed'),
 'C20': ('reference monitor: brute-force rotation counter on a library of structures', 'two known findings are listed and printed'),
 'C21': ('offline checker of the written tables against the library and the reference, in process and real processes', 'bit equality with the library for the same file'),
 'C22': ('offline checker of the temperature column of the written tables', 'grids of generated ranges'),
 'C23': ('file-system monitor: tree snapshots and an audit hook that refuses foreign writes', 'names and contents of every file around the run'),
 'C24': ('file-system and exit-status monitor under malformed requests and damaged files', 'no result file, error status or message'),
 'C25': ('monitor on FigureCanvasBase.print_figure plus inspection of the image files', 'curves, labels, limits, size, format at the moment of writing'),
 'C26': ('monitor on every entry point of empty and inconsistent superpositions', 'None or refusal, never numbers'),
 'C27': (REFERENCE % 'thermal and averaging primitives', 'values and shapes against the definitions'),
 'C28': ('reference monitor over pairs with one known difference, and comparison histories', 'truth value, exceptions, immutability'),
 'C29': ('cross-consistency monitor between entry points, also over random sessions', 'agreement of what was reported, no external reference'),
 'C30': ('response monitor: numerical derivatives and integrals of reported probabilities against reported W', 'derivatives, integrals over finite intervals, monotonic energies'),
 'C31': ('fault injection in forked runs (file size limits, full devices, obstacles, exceptions at any line, signals) with a monitor of exit status and output files', 'completeness of what a successful run left'),
 'C32': ('runs in varied environments, in sequences and simultaneously with injected delays, tables compared with those of a run alone', 'equality of the numbers written'),
 'C33': ('monitor of the process state around every call and import, and differential runs in random process settings', 'state of the process and equality of results'),
 'C34': ('resource monitor (tracemalloc, live objects, descriptors, threads, weak references) over long series of calls', 'growth in every one of up to 16 blocks of calls'),
 'C35': ('differential monitor of deep copies, pickles and worker processes against the original', 'equality of results and independence of copies'),
 'C36': ('fault injection (exceptions at random lines of the library, failing contributions) with monitors of arguments, process state and later results', 'what an interrupted call left behind'),
 'C37': ('metamorphic executions: a system and its parts', 'conditional probabilities, law of total expectation and of total variance'),
 'C38': ('metamorphic executions: independent systems and their composite', 'products of probabilities, sums of heat capacities and derivatives'),
 'C39': ('resource monitors (peak memory, function calls, lines, processor time) on pairs of problems of different size', 'growth at most in proportion, with slack'),
 'C40': ('differential monitor: equal inputs in random representations (dtype, byte order, layout, memory maps)', 'equality of all the results'),
}
checks = []
for c in sorted(T):
    tech, note = T[c]
    checks.append({'property': c, 'quick_cmd': './check ' + c, 'thorough_cmd': './check %s --tier thorough' % c, 'evidence_file': 'evidence/%s.json' % c,
                   'technique': 'runtime monitoring: ' + tech, 'level': 'exploration',
                   'level_note': 'Held on the executions counted in the evidence file, nothing beyond them. Decides: %s. Trusts NumPy, the reference in rtm/ and the tolerances stated in DESIGN.md.' % note})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in the repository: the monitors attach at run time. Known findings and repairs: known_findings.txt. See DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
