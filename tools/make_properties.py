#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
PF = 'occuprob/partitionfunctions.py'
SA = 'occuprob/superpositions.py'
UT = 'occuprob/utils.py'
IO = 'occuprob/io.py'
CLI = 'occuprob/cli.py'
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
               'observe_at': observe, 'hook_needed': hook}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': anchors})


p('C01', 'Occupation probabilities form a distribution at every temperature',
  'For every set of minima, every combination of electronic, vibrational and rotational contributions and every temperature from 0 K upwards (down to 1e-300 K, where 1/kT is still a number), '
  'the occupation probabilities are one finite number in [0, 1] per minimum and temperature, and they add up to 1 '
  'at each temperature. This holds even where the partition functions themselves are far too small or too large '
  'to be represented, e.g. stiff molecules near 0 K or clusters with hundreds of modes.',
  ['inputs', 'configurations'],
  'all energies, multiplicities, positive frequencies, moments, symmetry orders, any number of minima, modes and '
  'temperatures in any order and dtype, all subsets of {electronic, classical or quantum vibrations, rotations}',
  'The tests evaluate two minima at two temperatures; the failures live in underflow/overflow regions, broadcasting '
  'corner shapes (N=M, N=1, M=1) and dtype combinations.',
  [SA, PF], [('normalization of the logarithms of the combined weights', SA + ': calc_probability'),
             ('per-contribution logarithms', PF + ': calc_log_part_func')],
  ['SuperpositionApproximation.calc_probability return value, wherever it is called from'])

p('C02', 'Electronic weights are the exact Boltzmann factors',
  'With the electronic contribution, the weights of two minima at T > 0 (as reported in the partition functions and in '
  'the occupation probabilities) are in the ratio of their spin multiplicities times exp(-(energy difference)/(kB T)), '
  'with energies in eV, kB = 8.617333262145e-5 eV/K. This is so at every temperature including the infinite one, for any '
  'sign, offset, order or degeneracy of the energies.',
  ['inputs'], 'all energies (eV), multiplicities, temperatures > 0',
  'The tests only look at T = 0 and T = infinity, where neither kB, nor the exponent, nor its sign beyond the first minimum matters.',
  [PF, UT], [('electronic partition function', PF + ': ElectronicPF'), ('beta and exponent', UT + ': calc_beta, calc_exponent')],
  ['calc_probability', 'calc_partition_functions'])

p('C03', 'Classical vibrational weights are the inverse products of frequencies',
  'With the classical harmonic contribution alone, each minimum is weighted by the inverse of the product of its vibrational '
  'frequencies, at every temperature, both in the reported partition functions (up to a factor common to all the minima) and in the occupation '
  'probabilities. The order of the modes is irrelevant, and the number of modes is unlimited.',
  ['inputs'], 'all positive frequencies, numbers of modes, minima and temperatures',
  'One two-minima example in which a single frequency differs; nothing is checked about precision, many modes or many minima.',
  [PF, UT], [('classical harmonic partition function', PF + ': ClassicalHarmonicPF'), ('geometric mean', UT + ': calc_geometric_mean')],
  ['calc_probability', 'calc_partition_functions'])

p('C04', 'Quantum vibrational weights are exact, from zero-point to classical regime',
  'With the quantum harmonic contribution at T > 0, each minimum is weighted by the product over its modes of '
  'exp(-x)/(1 - exp(-2x)), x = h nu/(2 kB T), with h = 4.135667696e-3 eV/THz and frequencies in THz, in the reported partition functions '
  '(up to a common factor) and in the occupation probabilities. Zero-point energies are thus included, and for h nu << kB T '
  'the occupation probabilities approach those of the classical harmonic contribution.',
  ['inputs'], 'all positive frequencies, numbers of modes, minima, temperatures > 0',
  'The tests compare one case at 1e5 K with an absolute tolerance of 0.1 and look at T = 0, where the contribution is bypassed.',
  [PF, SA], [('quantum harmonic partition function', PF + ': QuantumHarmonicPF')],
  ['calc_probability', 'calc_partition_functions'])

p('C05', 'Rotational weights are sqrt(I1 I2 I3)/sigma',
  'With the rotational contribution alone, each minimum is weighted at every temperature by the square root of the product of its principal '
  'moments of inertia divided by the order of its rotational subgroup, in the reported partition functions (up to a common '
  'factor) and in the occupation probabilities. A moment that vanishes, exactly or within round-off of either sign, as for a linear isomer, counts as one.',
  ['inputs'], 'all moments (including linear isomers with noise), symmetry orders, temperatures',
  'In the tests the product of the moments is one for every minimum, so any power of it passes.',
  [PF], [('rotational partition function', PF + ': RotationalPF')], ['calc_probability', 'calc_partition_functions'],
  state=[('moments', 'principal moments with vanishing ones replaced by one', PF + ': RotationalPF.__init__')])

p('C06', 'Contributions combine as independent degrees of freedom',
  'For any collection of contributions, built-in, user-defined or repeated, the partition function of every minimum is the product of its '
  'contributions, and the logarithmic derivatives are the sums of theirs. '
  'The result (including the probabilities and heat capacity) does not depend on the order in which the contributions were added, nor on whether they were added '
  'one by one or as a list, tuple or iterator.',
  ['inputs', 'histories', 'configurations'], 'all sequences of additions and all subsets of contributions, including user-defined ones',
  'The tests always add a single list in the same order with at most three contributions.',
  [SA], [('adding contributions', SA + ': add_partition_functions'), ('combining them', SA + ': combine_contributions')],
  ['calc_probability', 'calc_partition_functions', 'combine_contributions', 'calc_heat_capacity'],
  state=[('partition_functions', 'the contributions added so far', SA)])

p('C07', 'Occupation at 0 K is the limit of low temperatures',
  'The occupation probabilities at T = 0 are the limit of those at T -> 0+: only the minima of lowest energy (including the zero-point energy '
  'if vibrations are quantum) are occupied. Degenerate ground-state minima share the occupation in proportion to their spin, classical-vibrational and rotational weights.',
  ['inputs'], 'all landscapes evaluated at T = 0, alone or anywhere in a temperature grid',
  'The tests have one unique ground state, first in the list, without ties and without zero-point reordering.',
  [PF, UT, SA], [('masked evaluation at T = 0', UT + ': calc_beta, calc_exponent'), ('masked evaluation at T = 0', PF + ': QuantumHarmonicPF')],
  ['calc_probability'])

p('C08', 'Occupation at high temperature is entropy-controlled',
  'As the temperature increases without bound (including an infinite temperature, for electronic, classical and rotational contributions) the '
  'occupation probabilities tend to the normalized products of spin multiplicity, inverse frequencies and sqrt(I1 I2 I3)/sigma of the contributions '
  'included, whatever the energies. For quantum vibrations the same limit is reached as kB T exceeds every energy and vibrational quantum.',
  ['inputs', 'configurations'], 'all landscapes and contribution subsets at very high or infinite temperature',
  'Tests use two minima with unit multiplicity and unit moments.',
  [PF, UT, SA], [('beta -> 0', UT + ': calc_beta, calc_exponent')], ['calc_probability'])

p('C09', 'Heat capacity is the temperature derivative of the internal energy',
  'At every T > 0 the heat capacity in units of kB equals beta^2 times the second derivative with respect to beta of the logarithm of the total '
  'partition function, sum over minima of g exp(-beta E) times the vibrational and full (T^(3/2)) rotational partition functions included. '
  'This covers the coupling between electronic, zero-point and thermal vibrational energies, at low temperatures and for large energy offsets too.',
  ['inputs', 'configurations'], 'all landscapes, contribution subsets and temperatures > 0',
  'No existing test computes a heat capacity.',
  [SA, PF], [('variance of W plus average of V', SA + ': calc_heat_capacity'), ('W and V of each contribution', PF + ': calc_part_func_w, calc_part_func_v')],
  ['calc_heat_capacity'])

p('C10', 'Heat capacity is finite, non-negative and respects equipartition',
  'The heat capacity is a finite non-negative number at every T >= 0 (0 K itself, and down to 1e-300 K, where 1/kT is still a number), one per temperature. At T = 0 it is the low-temperature limit: zero for electronic and '
  'quantum vibrational contributions, one kB per mode for classical vibrations and 3/2 kB for rotations; far above every energy and vibrational quantum it reaches '
  'the number of modes plus 3/2 if rotations are included.',
  ['inputs', 'configurations'], 'all landscapes, contribution subsets and temperatures >= 0',
  'No existing test computes a heat capacity; cancellation only shows at low temperature.',
  [SA, PF], [('variance of W plus average of V', SA + ': calc_heat_capacity')], ['calc_heat_capacity'])

p('C11', 'Reported W and V are the logarithmic derivatives of the partition functions',
  'For every contribution at T > 0 the first reported derivative is beta d(ln Z)/d(beta) of its partition function, up to an energy origin common to all the minima '
  'in the electronic case, and the second is beta^2 times the derivative of the first divided by beta, one value per minimum and temperature. Classical vibrations thus give '
  'minus and plus the number of modes, rotations minus and plus 3/2, quantum modes -x coth(x) and (x csch(x))^2, electronic energies -beta E and 0.',
  ['inputs'], 'all parameters and temperatures > 0 for each contribution',
  'Only the electronic derivatives are tested, and only at T = 0 and infinity.',
  [PF], [('derivatives', PF + ': calc_part_func_w, calc_part_func_v')], ['calc_part_func_w', 'calc_part_func_v'])

p('C12', 'Ensemble averages are probability-weighted means',
  'The ensemble average of an observable is, at each temperature, the sum over minima of its value times the occupation probability: linear in the observable, equal to the constant '
  'for a constant observable and between the extreme values over the occupied minima. Minima of exactly zero probability never contribute, even where the observable is infinite or undefined for them; '
  'the result has shape (1, number of temperatures).',
  ['inputs'], 'all landscapes, temperatures, and observables of any magnitude, sign and dtype',
  'No existing test calls the ensemble average.',
  [SA], [('masked weighted sum', SA + ': calc_ensemble_average')], ['calc_ensemble_average'])

p('C13', 'Labels do not matter',
  'Reordering the minima reorders the occupation probabilities in the same way and leaves the heat capacity and ensemble averages unchanged; reordering the modes or the principal axes of a minimum changes nothing. '
  'Listing a minimum k times is the same as listing it once with k times the spin multiplicity.',
  ['inputs'], 'all landscapes, permutations and duplications',
  'The tests always list the ground state first and never reorder or duplicate.',
  [PF, SA, UT], [('relative energy', PF + ': ElectronicPF.__init__'), ('sums over minima', SA)],
  ['calc_probability', 'calc_heat_capacity', 'calc_ensemble_average'])

p('C14', 'Only relative quantities matter',
  'Adding one constant to all the energies, multiplying all the spin multiplicities, all the moments of inertia, all the symmetry orders or (classical vibrations) all the frequencies by a common factor leaves the occupation probabilities, '
  'heat capacity and ensemble averages unchanged. Multiplying energies, frequencies and temperatures by the same factor leaves them unchanged too.',
  ['inputs'], 'all landscapes (with nonzero moments), shifts and scale factors that do not lose precision by themselves',
  'The tests use energies that start at zero and never compare two gauges.',
  [PF, SA], [('relative energy', PF + ': ElectronicPF.__init__'), ('normalization', SA + ': calc_probability')],
  ['calc_probability', 'calc_heat_capacity', 'calc_ensemble_average'])

p('C15', 'Each temperature is evaluated independently',
  'The values reported at one temperature (partition functions, derivatives, probabilities, averages, heat capacity) do not depend on which other temperatures are in the '
  'array, on their order, repetition or number, or on whether the array is of integer or floating type.',
  ['inputs'], 'all temperature grids: subsets, permutations, repetitions, integer and float dtypes, containing 0 K or not',
  'Each test uses a single fixed grid of one or two temperatures.',
  [PF, SA, UT], [('elementwise evaluation', PF), ('reductions over minima only', SA)], ['all calc_* methods'])

p('C16', 'Results depend only on the arguments, not on the history of calls',
  'Constructions and calculations never modify the arrays they are given, and repeating one gives the same values no matter what was calculated, added to other superpositions, or done to '
  'earlier results or to temperatures and observables passed before. Results already returned never change, separate superpositions do not share contributions, and contributions added after a calculation are taken into account.',
  ['histories', 'inputs'], 'all sequences of constructions, additions, calculations and in-place changes by the caller',
  'Each test builds fresh objects and calls one method once.',
  [SA, PF, UT], [('no state beyond the list of contributions', SA + ': SuperpositionApproximation.__init__')],
  ['arguments and results of all calc_* methods'], state=[('partition_functions', 'per-instance list of contributions', SA)])

p('C17', 'Concurrent calculations give the sequential results',
  'Calculations run simultaneously from several threads, on shared or separate superpositions and contributions, return the same values as when run one at a time.',
  ['schedules', 'inputs'], 'all interleavings of calculations by several threads',
  'The tests are single-threaded.',
  [SA, PF, UT], [('no shared mutable state in calculations', SA + ', ' + PF)], ['results of calc_* methods in each thread'])

p('C18', 'Extended XYZ files are loaded faithfully',
  'Loading an Extended XYZ file returns, in file order and one entry per isomer, exactly the energies, multiplicities and frequencies (each in the order written) '
  'in the file, and the principal moments of inertia of its coordinates and elements in amu Angstrom^2. This holds for any number of isomers, atoms and frequencies, number format, and order of the keys.',
  ['inputs'], 'all well-formed files with the required keys',
  'The test file has two isomers with identical values of all the keys and three equal frequencies.',
  [IO], [('reading the keys', IO + ': load_properties_from_extxyz')], ['load_properties_from_extxyz return value'])

p('C19', 'Loaded properties are invariant to rigid motions and atom order',
  'Rotating, translating or listing in a different atom order the geometry of an isomer in the input file leaves its loaded moments of inertia and symmetry order unchanged, '
  'and with them the occupation probabilities and heat capacity with rotations included. This covers linear isomers in any orientation.',
  ['inputs'], 'all rigid motions and atom permutations of structures whose symmetry is exact or clearly broken',
  'The test file has two fixed geometries along the axes.',
  [IO, PF], [('symmetry analysis', IO + ': calc_symmetry_order'), ('null moment of linear molecules', PF + ': RotationalPF.__init__')],
  ['load_properties_from_extxyz return value', 'calc_probability'])

p('C20', 'Symmetry orders are the orders of the rotational subgroups',
  'For every non-linear structure whose point-group symmetry is exact or clearly broken, the symmetry order is the number of proper rotations, including the identity, '
  'that map the structure onto itself with elements preserved. Reflections, inversions and improper rotations are not counted.',
  ['inputs'], 'structures of the point groups C1, Cs, Ci, Cn, Cnv, Cnh, Dn, Dnh, Dnd, S2n, T, Td, Th, O, Oh, I, Ih in any orientation',
  'The test has one linear and one C3v-like triangle.',
  [IO], [('determinant of the symmetry operations', IO + ': calc_symmetry_order')], ['calc_symmetry_order return value', "load_properties_from_extxyz 'symmetry'"])

p('C21', 'The command line writes what the library computes',
  'For every valid combination of contribution flags (either letter case, combined or separate), the command line writes two tables whose columns are the temperature '
  'and, in file order, the occupation probability of each isomer, and the temperature and heat capacity, equal to the library results for the same file and contributions '
  '(unit multiplicities with -e, those of the file with -s) and readable back without loss of double precision.',
  ['inputs', 'configurations'], 'all input files, flag combinations and temperature ranges',
  'The command line has no tests at all.',
  [CLI, IO], [('flags to contributions', CLI + ': main'), ('tables', CLI + ': save_results')], ['the files written by the command'])

p('C22', 'The command line covers exactly the requested temperature range',
  'The tables start at the minimum temperature (0 K by default) and go up in steps of 1 K, containing every such temperature up to and including the maximum (500 K by default) and none above it.',
  ['inputs', 'configurations'], 'all ranges with minimum <= maximum, whole or fractional',
  'The command line has no tests at all.',
  [CLI], [('temperature grid', CLI + ': main')], ['first column of the tables'])

p('C23', 'The command line writes only its own output files',
  'Besides the two tables (and with --plot one image each, with the extension of the requested format), named after the output prefix if given or otherwise after the input file '
  'without .xyz and followed by _P or _C, a run creates, changes or removes no file, and the input file is left untouched. This holds for any path names, including directories or names that contain "dat" or ".xyz". Requests for help or the version succeed and write nothing.',
  ['inputs', 'configurations', 'histories'], 'all path names, prefixes, plot formats and flag combinations, including repeated runs in the same folder',
  'The command line has no tests at all.',
  [CLI, IO], [('output names', CLI + ': main'), ('saving images', IO + ': plot_results')], ['file system events of the run (audit hook)', 'directory contents before and after'])

p('C24', 'Invalid requests produce no results',
  'A request that cannot be honoured (mutually exclusive or no contributions, unknown or malformed arguments, a missing or truncated input file, an isomer lacking energy, multiplicity or frequencies or with a different number of frequencies) '
  'ends with an error status or message and writes no result file.',
  ['inputs', 'fault_sequences'], 'all corruptions of a valid input file and all invalid flag combinations and arguments',
  'The command line has no tests at all, and the loader is only tested with a valid file.',
  [CLI, IO], [('flag groups', CLI + ': main'), ('reading the keys', IO + ': load_properties_from_extxyz')], ['exit status, output and files of the run'])

p('C25', 'Figures show the computed data',
  'Every figure produced, from the library function or the command line, has one curve per row of results with exactly the computed values against the temperature, labelled in order when labels are used, '
  'over exactly the temperature range given, and is written to the requested file with the requested size and format. On the command line no part of a curve falls outside the vertical limits.',
  ['inputs', 'configurations'], 'all results, labels, limits, sizes and formats, and sequences of several figures',
  'No test draws a figure.',
  [IO, CLI], [('drawing', IO + ': plot_results'), ('format of each kind of plot', CLI + ': plot_results')], ['the figure at the moment it is saved', 'the file written'])

p('C26', 'Empty or inconsistent superpositions yield no numbers',
  'A superposition without contributions returns no result (None) for every quantity, instead of failing. One whose contributions disagree on the number of minima never returns occupation probabilities, '
  'partition functions, averages or heat capacities as if they were valid.',
  ['inputs', 'configurations'], 'all empty superpositions and all mismatched sets of contributions (two or more minima in each)',
  'Only the probability of an empty superposition is tested.',
  [SA], [('stacking of contributions', SA + ': combine_contributions'), ('None results', SA)], ['all calc_* methods'])

p('C27', 'Thermal and averaging primitives are exact',
  'The inverse temperature is 1/(kB T), infinite at 0 K; the exponent is energy/(kB T), zero for a null energy even at 0 K and infinite for a positive energy at 0 K, for any number of '
  'energies, with two- and three-dimensional energies broadcast against the temperatures along the last axis. The geometric mean of each row is the exponential of the mean logarithm, within the range of the row, zero if any entry is zero, and does not overflow or underflow.',
  ['inputs'], 'all temperatures >= 0, energies of either sign and arrays of non-negative numbers',
  'The tests use two or three values each.',
  [UT], [('masked arithmetic', UT)], ['calc_beta', 'calc_exponent', 'calc_geometric_mean'])

p('C28', 'Dictionary comparison is equality of keys, shapes and values',
  'Comparing two dictionaries of numeric arrays gives true exactly if they have the same keys, in any order, and for each key arrays of the same shape whose entries agree within round-off. '
  'Any clear difference in one key, shape or entry gives false, without raising, and the arguments are not modified.',
  ['inputs'], 'all pairs of dictionaries of numeric arrays',
  'The tests use three pairs with everything or nothing equal.',
  [UT], [('comparison', UT + ': compare_numpy_dictionaries')], ['compare_numpy_dictionaries return value'])

p('C29', 'The reported quantities agree with one another',
  'Wherever the partition functions are representable, the occupation probabilities are the partition functions divided by their sum over minima; ensemble averages are sums of observable times reported probability; '
  'and the heat capacity is the reported average of V plus the variance of the reported W under the reported probabilities.',
  ['inputs', 'configurations'], 'all landscapes, contribution subsets (user-defined ones included) and temperatures > 0',
  'The tests look at probabilities only.',
  [SA, PF], [('common normalization', SA)], ['calc_partition_functions', 'calc_probability', 'calc_ensemble_average', 'calc_heat_capacity', 'combine_contributions'])

p('C30', 'Probabilities and averages respond to temperature thermodynamically',
  'At every T > 0 the derivative of the logarithm of an occupation probability with respect to ln(beta) is the reported W of that minimum minus its ensemble average, so that the derivative of the ensemble average of a '
  'temperature-independent observable is its covariance with W. In particular with electronic energies only, the mean energy never decreases with temperature.',
  ['inputs', 'configurations'], 'all landscapes, contribution subsets and temperatures > 0',
  'The tests never compare two nearby temperatures.',
  [SA, PF], [('probabilities', SA + ': calc_probability'), ('W', PF + ': calc_part_func_w')], ['calc_probability', 'calc_ensemble_average', 'combine_contributions'])

p('C31', 'Success is reported only for complete results',
  'A run of the command line that ends with success has left every table and image it was asked for in place, complete and with the same contents as without any fault. '
  'If one of them cannot be written (full device, file size limit, missing or forbidden folder, a folder in its place) or the run is interrupted or runs out of memory before, it ends with an error status.',
  ['fault_sequences', 'crash_points'], 'all limits on the bytes written, obstacles at any of the outputs, interruptions at any point of the run',
  'The command line has no tests at all, and no test makes a file operation fail.',
  [CLI, IO], [('saving tables', CLI + ': save_results'), ('saving images', IO + ': plot_results'), ('loop over results', CLI + ': main')], ['exit status and output files of the run'])

p('C32', 'Runs are reproducible and do not disturb one another',
  'The tables written for a request hold the same numbers whatever the environment of the process (hash seed, locale, time zone, number of threads, terminal, home and current folder, umask, standard input), '
  'whatever runs were made before in the same folder, even on an earlier file of the same name, size and time, and whatever other runs with other output prefixes are going on in that folder at the same time.',
  ['schedules', 'histories', 'configurations'], 'all environments, sequences of runs and interleavings of simultaneous runs on the same or different inputs',
  'The command line has no tests at all, and the tests run in a single process.',
  [CLI, IO], [('no state outside of the process', CLI + ': main'), ('no intermediate files', CLI + ': save_results')], ['tables written by each run'])

p('C33', 'Calls leave the process as they found it and do not depend on its settings',
  'Importing the package (once its dependencies have been) and calling it, calculations, loading, comparisons, figures and the command line alike, leave the settings of the process as they were: handling of floating-point '
  'errors, random states, print options, warning filters, locale, current folder, environment, signal handlers, standard streams, figure defaults and the figures of the caller. The results do not depend on those settings '
  '(settings that turn numerical warnings into exceptions excepted).',
  ['configurations', 'inputs'], 'all settings of the process and all calls',
  'The tests run in one process with default settings and never look at its state.',
  [PF, SA, UT, IO, CLI], [('no global settings', 'occuprob/__init__.py'), ('figures', IO + ': plot_results')], ['state of the process before and after each call', 'results in default and other settings'])

p('C34', 'Repeated use accumulates nothing',
  'Memory, objects, open files, threads and temporary files in use do not grow with the number of calculations, comparisons, failed calls, files loaded or command line runs without plots made by a process (bounded caches aside); '
  'superpositions and contributions that are no longer referred to, and their results, are released.',
  ['histories'], 'all long sequences of calls',
  'The tests make each call once.',
  [SA, PF, UT, IO, CLI], [('no state kept by calculations', SA + ', ' + PF)], ['memory, live objects, open files and threads after each block of calls'])

p('C35', 'Copies and worker processes behave as the original',
  'A superposition or contribution that is deep-copied, or pickled and restored in the same, a forked or a new process, before or after it has been used, gives the same results as the original, '
  'and extending one of them does not affect the other.',
  ['inputs', 'histories'], 'all superpositions and contributions, ways of copying and points of their history',
  'The tests neither copy nor pickle anything.',
  [SA, PF], [('state of superpositions', SA + ': __init__'), ('state of contributions', PF)], ['results of copies, in worker processes too, and of the originals'])

p('C36', 'Interrupted or failed calls leave no trace',
  'A calculation, construction, comparison or loading that is interrupted at any point or runs out of memory, or in which a contribution of the user fails, leaves its arguments, the superposition, its contributions and the '
  'settings of the process as they were, so that later calls give the same results as if it had never been made.',
  ['crash_points', 'fault_sequences'], 'all points of interruption of all calls, several in sequence',
  'No test interrupts a call.',
  [SA, PF, UT, IO], [('no intermediate state', SA + ', ' + PF)], ['arguments, contributions, process state and later results'])

p('C37', 'Parts of an ensemble behave like ensembles of their own',
  'The ratios of the weights of a set of minima do not depend on the presence of others: the probabilities in a system made of some of the minima are those in the whole system divided by their sum, derivatives (up to the common reference '
  'energy) are the same, and averages and heat capacities of the whole follow from those of its parts (laws of total expectation and variance). Minima too high to be occupied change nothing.',
  ['inputs'], 'all systems, all ways to divide them into parts, all temperatures',
  'The tests never compare two systems.',
  [SA, PF], [('normalization', SA + ': calc_probability'), ('weights of each minimum', PF)], ['results for the whole and for each part'])

p('C38', 'Independent subsystems multiply probabilities and add heat capacities',
  'For a system composed of independent ones (minima: all the combinations; energies added, multiplicities and symmetry orders multiplied, vibrational modes joined), the probabilities and partition functions are the products, '
  'the derivatives and the heat capacity the sums of those of the subsystems, and averages of sums and products of their observables follow, at all temperatures.',
  ['inputs'], 'all pairs and triples of systems, contributions and temperatures',
  'The tests never compare systems.',
  [SA, PF], [('products and sums of contributions', SA + ': combine_contributions'), ('products and sums over modes', PF)], ['results for the subsystems and for the composite'])

p('C39', 'Memory and work grow in proportion to the problem',
  'The memory, function calls and processor time needed by calculations, comparisons, loading and command line runs without plots grow no faster than in proportion to each of: number of minima, modes, temperatures, contributions, arrays compared, isomers, and number of calls made.',
  ['inputs', 'histories'], 'all sizes of the problem in each of its dimensions',
  'The tests use problems with two minima and two temperatures.',
  [SA, PF, UT, IO, CLI], [('arrays of size minima x modes x temperatures at most', PF + ', ' + SA)], ['peak memory, function calls, lines and processor time of pairs of calls'])

p('C40', 'The representation of equal inputs in memory is irrelevant',
  'Arrays of equal values give the same results (within round-off) and comparisons, whether they are integers of at least 32 bits, doubles or long doubles, in native or swapped byte order, contiguous or not, aligned or not, '
  'fields of records, memory-mapped, broadcast or read-only, and are not modified. This holds for each argument independently of the others.',
  ['inputs', 'configurations'], 'all arguments of all entry points and all representations of their values',
  'The tests only use contiguous doubles and integers.',
  [PF, SA, UT], [('conversions', PF + ': QuantumHarmonicPF.__init__'), ('masked operations', UT)], ['results for equal values in different representations'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
