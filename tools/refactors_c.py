"""Still more edits that keep the behaviour (used by refactors.py)."""
PF, SA, UT, IO, CLI = ('occuprob/%s.py' % n for n in ('partitionfunctions', 'superpositions', 'utils', 'io', 'cli'))
R = {}

EXPO = """        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
"""

# one weighted sum for everything
R['weights-once'] = [
 (SA, """        most_probable = np.argmax(self.calc_probability(temperature), axis=0)
        part_func_d['w'] = part_func_d['w'] - np.take_along_axis(
            part_func_d['w'], most_probable[np.newaxis, :], axis=0)

        mean_w = self.calc_ensemble_average(temperature, part_func_d['w'])

        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                         self.calc_ensemble_average(temperature,
                                                    (part_func_d['w'] - mean_w)**2))

        return heat_capacity
""", """        probability = self.calc_probability(temperature)
        columns = np.arange(temperature.size)
        w_terms = part_func_d['w'] - part_func_d['w'][np.argmax(probability, axis=0), columns]
        mean_w = self._weighted_sum(w_terms, probability)

        return (self._weighted_sum(part_func_d['v'], probability) +
                self._weighted_sum(np.square(w_terms - mean_w), probability))

    @staticmethod
    def _weighted_sum(values, probability):
        \"\"\" Sum of the values of the occupied minima. \"\"\"
        terms = np.where(probability > 0, values, 0.) * probability
        return np.sum(terms, axis=0, keepdims=True)
"""),
]
# additions one at a time, contributions looked up first
R['additions-in-a-loop'] = [
 (SA, """        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
""", """        try:
            contributions = iter(partition_functions)
        except TypeError:
            contributions = iter([partition_functions])
        for contribution in contributions:
            self.partition_functions.append(contribution)
"""),
 (SA, """            contributions = [getattr(partition_function, method)(temperature) for
                             partition_function in self.partition_functions]
            combined_contributions = combiner(np.stack(contributions), axis=0)
""", """            calculators = [getattr(partition_function, method)
                           for partition_function in self.partition_functions]
            contributions = [calculate(temperature) for calculate in calculators]
            combined_contributions = combiner(np.stack(contributions, axis=0), 0)
"""),
]
# helpers shared by the contributions
R['common-base'] = [
 (PF, """class ElectronicPF(PartitionFunction):
""", """class TemperatureIndependentPF(PartitionFunction):
    \"\"\" Contributions whose degrees of freedom are classical. \"\"\"

    def _table(self, value, temperature):
        return np.full((self._size(), len(temperature)), value, dtype=float)

    @abstractmethod
    def _size(self):
        \"\"\" Number of minima. \"\"\"


class ElectronicPF(PartitionFunction):
"""),
 (PF, "class RotationalPF(PartitionFunction):\n", "class RotationalPF(TemperatureIndependentPF):\n"),
 (PF, "class ClassicalHarmonicPF(PartitionFunction):\n", "class ClassicalHarmonicPF(TemperatureIndependentPF):\n"),
 (PF, """        part_func_w = -1.5 * np.ones([self.symmetry_order.size,
                                      temperature.size])

        return part_func_w
""", """        return self._table(-1.5, temperature)

    def _size(self):
        return len(self.symmetry_order)
"""),
 (PF, """        part_func_w = -self.num_vib * np.ones([self.frequencies.shape[0],
                                               temperature.size])

        return part_func_w
""", """        return self._table(-self.num_vib, temperature)

    def _size(self):
        return len(self.frequencies)
"""),
]
# guard first, formula after
R['positive-columns-only'] = [
 (PF, EXPO + """        coth = 1. / np.tanh(exponent)

        aux_w = np.multiply(exponent, coth, where=temperature > 0,
                            out=np.zeros_like(exponent))
        part_func_w = -np.sum(aux_w, axis=1)

        return part_func_w
""", """        part_func_w = np.zeros((len(self.frequencies), temperature.size), dtype=np.longdouble)
        warm = temperature > 0
        exponent = self._exponent(temperature[warm])
        part_func_w[:, warm] = -np.sum(exponent / np.tanh(exponent), axis=1)

        return part_func_w

    def _exponent(self, temperature):
        \"\"\" h nu / (2 kB T) of every mode. \"\"\"
        quanta = 0.5 * H * self.frequencies
        return calc_exponent(quanta[..., np.newaxis], temperature)
"""),
 (PF, EXPO + """        csch = 1. / np.sinh(exponent)

        aux_v = np.multiply(exponent, csch, where=temperature > 0,
                            out=np.zeros_like(exponent))
        part_func_v = np.sum(aux_v**2, axis=1)

        return part_func_v
""", """        part_func_v = np.zeros((len(self.frequencies), temperature.size), dtype=np.longdouble)
        warm = temperature > 0
        exponent = self._exponent(temperature[warm])
        part_func_v[:, warm] = np.sum((exponent / np.sinh(exponent))**2, axis=1)

        return part_func_v
"""),
 (PF, """        part_func_w = -np.multiply(beta, self.relative_energy[:, None],
                                   where=self.relative_energy[:, None] != 0.,
                                   out=np.zeros([self.relative_energy.size,
                                                 beta.size]))

        return part_func_w
""", """        part_func_w = np.zeros((self.relative_energy.size, beta.size))
        for row, energy in zip(part_func_w, self.relative_energy):
            if energy != 0.:
                row[:] = -beta * energy

        return part_func_w
"""),
]
# the table and its file
R['text-of-the-table'] = [
 (CLI, """    outdata = np.vstack((temperature, results)).T
    np.savetxt(outfile, outdata)
""", """    rows = np.column_stack([temperature, np.transpose(results)])
    lines = [' '.join(repr(float(number)) for number in row) for row in rows]
    with open(outfile, 'wb') as stream:
        stream.write(('\\n'.join(lines) + '\\n').encode('ascii'))
"""),
 (CLI, """        if args.out_file:
            outfile = args.out_file + '_' + key + '.dat'
        else:
            outfile = re.sub(r'\\.xyz$', '', args.in_file) + '_' + key + '.dat'

        save_results(results[key], temperature, outfile)

        if args.plot:
            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
            plot_results(results[key], key, temperature, plotfile, args.size)
""", """        save_results(results[key], temperature, f'{prefix}_{key}.dat')

        if args.plot:
            plot_results(results[key], key, temperature,
                         f'{prefix}_{key}.{args.plot_format.lower()}', args.size)
"""),
 (CLI, """    # Save the calculated occupation probabilities""", """    prefix = args.out_file
    if not prefix:
        prefix = args.in_file[:-4] if args.in_file.endswith('.xyz') else args.in_file

    # Save the calculated occupation probabilities"""),
 (CLI, "import argparse\nimport re\n", "import argparse\n"),
]
# checks of the arguments before anything else
R['refused-early'] = [
 (CLI, """    properties = io.load_properties_from_extxyz(args.in_file)

""", """    if not (args.e or args.s or args.c or args.q or args.r):
        parser.error('you must include at least one partition function')

    try:
        properties = io.load_properties_from_extxyz(args.in_file)
    except OSError as error:
        parser.exit(1, f'{parser.prog}: {error}\\n')

"""),
 (CLI, """    else:
        print('You must include at least one partition function.')

        results = {}
""", ""),
]
# the geometries by other means
R['rotations-by-angle'] = [
 (IO, """    symmetry_matrices = np.array([matrix.as_dict()['matrix'] for matrix in
                                  point_group.get_symmetry_operations()])

    symmetry_matrices_det = np.linalg.det(symmetry_matrices)

    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)

    return symmetry_order
""", """    symmetry_order = 0

    for operation in point_group.get_symmetry_operations():
        first, second, third = operation.rotation_matrix
        if np.dot(np.cross(first, second), third) > 0:
            symmetry_order += 1

    return symmetry_order
"""),
 (IO, """    energies = []
    spin_multiplicity = []
    frequencies = []
    moments_of_inertia = []
    symmetry_order = []

    # Reads the values from the input file
    for atoms in isomers:
        energies.append(atoms.info['Energy'])
        spin_multiplicity.append(atoms.info['Multiplicity'])
        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))
        moments_of_inertia.append(atoms.get_moments_of_inertia())
        symmetry_order.append(calc_symmetry_order(atoms))

    properties = {'energy': np.stack(energies),
                  'multiplicity': np.stack(spin_multiplicity),
                  'frequencies': np.stack(frequencies).astype(np.longdouble),
                  'moments': np.stack(moments_of_inertia),
                  'symmetry': np.stack(symmetry_order)}

    return properties
""", """    def frequencies(atoms):
        return atoms.info['Frequencies'].T.ravel().astype(np.longdouble)

    readers = {'energy': lambda atoms: atoms.info['Energy'],
               'multiplicity': lambda atoms: atoms.info['Multiplicity'],
               'frequencies': frequencies,
               'moments': lambda atoms: atoms.get_moments_of_inertia(),
               'symmetry': calc_symmetry_order}

    return {name: np.stack([reader(atoms) for atoms in isomers])
            for name, reader in readers.items()}
"""),
]
# defaults of the figure in one place
R['figure-defaults'] = [
 (IO, """    labels = plot_format['labels'] if 'labels' in plot_format else None
    ylabel = plot_format['ylabel'] if 'ylabel' in plot_format else None
    ylims = plot_format['ylims'] if 'ylims' in plot_format else None
    size = plot_format['size'] if 'size' in plot_format else (8., 6.)
    linewidth = plot_format['linewidth'] if 'linewidth' in plot_format else 2
    hline_pos = plot_format['hline_pos'] if 'hline_pos' in plot_format else []

    plt.figure(figsize=size)
""", """    settings = {'labels': None, 'ylabel': None, 'ylims': None, 'size': (8., 6.),
                'linewidth': 2, 'hline_pos': []}
    settings.update((name, value) for name, value in plot_format.items() if name in settings)
    labels, ylabel, ylims = settings['labels'], settings['ylabel'], settings['ylims']
    linewidth, hline_pos = settings['linewidth'], settings['hline_pos']

    plt.figure(figsize=settings['size'])
"""),
 (IO, """    for i, result in enumerate(results):
        if labels:
            plt.plot(temperature, result, label=labels[i], lw=linewidth)
        else:
            plt.plot(temperature, result, lw=linewidth)
""", """    lines = plt.plot(temperature, np.transpose(results), linewidth=linewidth)
    for line, label in zip(lines, labels or []):
        line.set_label(label)
"""),
]
