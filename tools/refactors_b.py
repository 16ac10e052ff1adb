"""More edits that keep the behaviour (used by refactors.py)."""
PF, SA, UT, IO, CLI = ('occuprob/%s.py' % n for n in ('partitionfunctions', 'superpositions', 'utils', 'io', 'cli'))
R = {}

EXPO_Q = """        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
"""

R['probabilities-by-library'] = [
 (SA, "import numpy as np\n", "import numpy as np\nfrom scipy.special import logsumexp\n"),
 (SA, """        # A common factor doesn't change the probabilities
        partition_functions = np.exp(log_partition_functions -
                                     np.amax(log_partition_functions, axis=0))

        # The total partition function is the sum of all the individual
        # contributions of each local minimum considered
        total_partition_function = np.sum(partition_functions, axis=0)

        # The probability of finding the system in each local minimum is
        # calculated by dividing their individual contributions by the total
        # partition function
        occupation_probability = partition_functions / total_partition_function

        return occupation_probability
""", """        shifted = log_partition_functions - np.amax(log_partition_functions, axis=0)

        # Normalization in logarithms
        return np.exp(shifted - logsumexp(shifted, axis=0))
"""),
 (SA, """        weighted_observable = np.multiply(observable, probability,
                                          where=probability > 0,
                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))
        ensemble_average = np.sum(weighted_observable, axis=0)

        return ensemble_average.reshape(1, -1)
""", """        with np.errstate(invalid='ignore'):
            product = observable * probability
        product = np.where(probability > 0, product, 0.)

        return np.sum(product, axis=0, keepdims=True)
"""),
]

R['stored-at-construction'] = [
 (PF, """        self.frequencies = frequencies
        self.num_vib = frequencies.shape[1]  # Number of vibrational modes
""", """        self.frequencies = frequencies
        self.num_minima, self.num_vib = frequencies.shape
        self.frequencies_gmean = calc_geometric_mean(frequencies)
        self.log_weights = -self.num_vib * np.log(self.frequencies_gmean)
"""),
 (PF, """
        frequencies_gmean = calc_geometric_mean(self.frequencies)

        partition_function = np.outer(np.power(frequencies_gmean, -self.num_vib),
                                      np.ones_like(temperature))
""", """        weights = np.power(self.frequencies_gmean, -self.num_vib)
        partition_function = np.outer(weights, np.ones_like(temperature))
"""),
 (PF, """        frequencies_gmean = calc_geometric_mean(self.frequencies)

        log_part_func = np.outer(-self.num_vib * np.log(frequencies_gmean),
                                 np.ones_like(temperature))
""", """        log_part_func = np.outer(self.log_weights, np.ones_like(temperature))
"""),
 (PF, """        self.frequencies = frequencies.astype(np.longdouble)
""", """        self.frequencies = np.array(frequencies, dtype=np.longdouble)
        self.half_quanta = 0.5 * H * self.frequencies[:, :, None]
"""),
 (PF, EXPO_Q + "        coth", "        exponent = calc_exponent(self.half_quanta, temperature)\n        coth"),
 (PF, EXPO_Q + "        csch = 0.5", "        exponent = calc_exponent(self.half_quanta, temperature)\n        csch = 0.5"),
 (PF, EXPO_Q + "        csch = 1.", "        exponent = calc_exponent(self.half_quanta, temperature)\n        csch = 1."),
 (PF, EXPO_Q + "        log_csch", "        exponent = calc_exponent(self.half_quanta, temperature)\n        log_csch"),
]

R['figure-objects'] = [
 (IO, """    labels = plot_format['labels'] if 'labels' in plot_format else None
    ylabel = plot_format['ylabel'] if 'ylabel' in plot_format else None
    ylims = plot_format['ylims'] if 'ylims' in plot_format else None
    size = plot_format['size'] if 'size' in plot_format else (8., 6.)
    linewidth = plot_format['linewidth'] if 'linewidth' in plot_format else 2
    hline_pos = plot_format['hline_pos'] if 'hline_pos' in plot_format else []

    plt.figure(figsize=size)

    plt.xlabel(r'$T$ [K]')
    plt.ylabel(ylabel)

    xmin, xmax = temperature[0], temperature[-1]

    for position in hline_pos:
        plt.hlines(position, xmin, xmax, colors='silver', linestyles='--', lw=2)

    for i, result in enumerate(results):
        if labels:
            plt.plot(temperature, result, label=labels[i], lw=linewidth)
        else:
            plt.plot(temperature, result, lw=linewidth)

    plt.xlim((xmin, xmax))
    plt.ylim(ylims)

    if labels:
        plt.legend()

    plt.tight_layout()
    plt.savefig(outfile)
""", """    defaults = {'labels': None, 'ylabel': None, 'ylims': None, 'size': (8., 6.),
                'linewidth': 2, 'hline_pos': []}
    options = {**defaults, **plot_format}
    labels = options['labels']

    fig, axes = plt.subplots(figsize=options['size'])
    axes.set(xlabel=r'$T$ [K]', ylabel=options['ylabel'])

    limits = (temperature[0], temperature[-1])

    if len(options['hline_pos']) > 0:
        for position in options['hline_pos']:
            axes.plot(limits, (position, position), color='silver', linestyle='--', lw=2)
        axes.set_prop_cycle(None)

    lines = axes.plot(temperature, np.transpose(results), lw=options['linewidth'])
    if labels:
        for line, label in zip(lines, labels):
            line.set_label(label)

    axes.set_xlim(limits)
    if options['ylims'] is not None:
        axes.set_ylim(options['ylims'])

    if labels:
        axes.legend(handles=lines)

    fig.tight_layout()
    with open(outfile, 'wb') as image:
        fig.savefig(image, format=outfile.rsplit('.', 1)[-1])
    plt.close(fig)
"""),
]

R['parser-apart'] = [
 (CLI, "def main():\n    \"\"\" Command-line interface \"\"\"\n    description", "def build_parser():\n    \"\"\" Returns the parser of the command line. \"\"\"\n    description"),
 (CLI, """    args = parser.parse_args()

    properties = io""", """
    return parser


def contributions(args, properties):
    \"\"\" Yields the contributions that were asked for. \"\"\"
    energy, ones = properties['energy'], np.ones(len(properties['energy']))
    makers = {'e': lambda: ElectronicPF(energy, ones),
              's': lambda: ElectronicPF(energy, properties['multiplicity']),
              'c': lambda: ClassicalHarmonicPF(properties['frequencies']),
              'q': lambda: QuantumHarmonicPF(properties['frequencies']),
              'r': lambda: RotationalPF(properties['symmetry'], properties['moments'])}
    for letter, make in makers.items():
        if getattr(args, letter):
            yield make()


def prefix_of(args):
    \"\"\" Beginning of the names of the output files. \"\"\"
    if args.out_file:
        return args.out_file
    name = args.in_file
    return name[:-len('.xyz')] if name.endswith('.xyz') else name


def main(argv=None):
    \"\"\" Command-line interface \"\"\"
    args = build_parser().parse_args(argv)

    properties = io"""),
 (CLI, """    partition_functions = []

    if args.e:
        partition_functions.append(ElectronicPF(properties['energy'],
                                                np.ones_like(properties['energy'])))
    if args.s:
        partition_functions.append(ElectronicPF(properties['energy'],
                                                properties['multiplicity']))
    if args.c:
        partition_functions.append(ClassicalHarmonicPF(properties['frequencies']))
    if args.q:
        partition_functions.append(QuantumHarmonicPF(properties['frequencies']))
    if args.r:
        partition_functions.append(RotationalPF(properties['symmetry'],
                                                properties['moments']))
""", "    partition_functions = list(contributions(args, properties))\n"),
 (CLI, """        if args.out_file:
            outfile = args.out_file + '_' + key + '.dat'
        else:
            outfile = re.sub(r'\\.xyz$', '', args.in_file) + '_' + key + '.dat'
""", "        outfile = '_'.join((prefix_of(args), key)) + '.dat'\n"),
 (CLI, "import argparse\nimport re\n", "import argparse\n"),
 (CLI, """            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
""", """            plotfile = '.'.join((outfile.rpartition('.')[0], args.plot_format.lower()))
"""),
]

R['written-by-rename'] = [
 (CLI, "import argparse\nimport re\n", "import argparse\nimport contextlib\nimport os\nimport re\nimport tempfile\n"),
 (CLI, "    np.savetxt(outfile, outdata)\n", """    descriptor, name = tempfile.mkstemp(dir=os.path.dirname(outfile) or '.', prefix='.occuprob-')
    try:
        with os.fdopen(descriptor, 'w') as stream:
            np.savetxt(stream, outdata)
        umask = os.umask(0)
        os.umask(umask)
        os.chmod(name, 0o666 & ~umask)
        os.replace(name, outfile)
    except BaseException:
        with contextlib.suppress(FileNotFoundError):
            os.unlink(name)
        raise
"""),
]

R['reduced-one-by-one'] = [
 (SA, """        try:
            contributions = [getattr(partition_function, method)(temperature) for
                             partition_function in self.partition_functions]
            combined_contributions = combiner(np.stack(contributions), axis=0)

            return combined_contributions

        except ValueError:
            print("You must include at least one partition function.")
""", """        tables = tuple(getattr(item, method)(temperature) for item in self.partition_functions)

        if not tables:
            print("You must include at least one partition function.")
            return None

        if len({np.shape(table) for table in tables}) > 1:
            raise ValueError('the contributions describe different minima')

        return combiner(np.array(tables), axis=0)
"""),
 (SA, """        part_func_d = {d: self.combine_contributions(temperature, np.sum,
                                                     'calc_part_func_' + d)
                       for d in ['w', 'v']}

        if part_func_d['w'] is None:
            return None
""", """        if not self.partition_functions:
            print("You must include at least one partition function.")
            return None

        part_func_d = {'v': self.combine_contributions(temperature, np.sum, 'calc_part_func_v')}
        part_func_d['w'] = self.combine_contributions(temperature, np.sum, 'calc_part_func_w')

        if part_func_d['w'] is None or part_func_d['v'] is None:
            return None
"""),
 (SA, """        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
""", """        if hasattr(partition_functions, '__iter__'):
            self.partition_functions += list(partition_functions)
        else:
            self.partition_functions += [partition_functions]
"""),
]

R['half-angle-formulas'] = [
 (PF, "        coth = 1. / np.tanh(exponent)\n", """        decay = -np.expm1(-2. * exponent)
        coth = (2. - decay) / decay
"""),
 (PF, "        csch = 1. / np.sinh(exponent)\n", """        csch = 2. * np.exp(-exponent) / -np.expm1(-2. * exponent)
"""),
 (PF, "        part_func_v = np.sum(aux_v**2, axis=1)\n", "        part_func_v = np.einsum('ijk,ijk->ik', aux_v, aux_v)\n"),
 (PF, """        part_func_v = -self.calc_part_func_w(temperature)

        return part_func_v


class ClassicalHarmonicPF""", """        return np.full((self.symmetry_order.size, temperature.size), 1.5)


class ClassicalHarmonicPF"""),
 (PF, """        part_func_w = -1.5 * np.ones([self.symmetry_order.size,
                                      temperature.size])

        return part_func_w
""", """        return np.full((len(self.symmetry_order), len(temperature)), -1.5)
"""),
 (PF, "        part_func_v = np.zeros_like(self.calc_part_func_w(temperature))\n", "        part_func_v = np.zeros((len(self.relative_energy), len(temperature)))\n"),
]

R['arrays-from-the-reader'] = [
 (IO, """    energies = []
    spin_multiplicity = []
    frequencies = []
    moments_of_inertia = []
    symmetry_order = []

    # Reads the values from the input file
    for atoms in isomers:
        energies.append(atoms.info['Energy'])
        spin_multiplicity.append(atoms.info['Multiplicity'])
        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))
        moments_of_inertia.append(atoms.get_moments_of_inertia())
        symmetry_order.append(calc_symmetry_order(atoms))

    properties = {'energy': np.stack(energies),
                  'multiplicity': np.stack(spin_multiplicity),
                  'frequencies': np.stack(frequencies).astype(np.longdouble),
                  'moments': np.stack(moments_of_inertia),
                  'symmetry': np.stack(symmetry_order)}

    return properties
""", """    getters = {'energy': lambda atoms: atoms.info['Energy'],
               'multiplicity': lambda atoms: atoms.info['Multiplicity'],
               'frequencies': lambda atoms: atoms.info['Frequencies'].T.ravel(),
               'moments': lambda atoms: atoms.get_moments_of_inertia(),
               'symmetry': calc_symmetry_order}
    columns = {key: [] for key in getters}

    # Reads the values from the input file
    for atoms in isomers:
        for key, getter in getters.items():
            columns[key].append(getter(atoms))

    properties = {key: np.stack(column) for key, column in columns.items()}
    properties['frequencies'] = properties['frequencies'].astype(np.longdouble)

    return properties
"""),
 (IO, """    symmetry_matrices = np.array([matrix.as_dict()['matrix'] for matrix in
                                  point_group.get_symmetry_operations()])

    symmetry_matrices_det = np.linalg.det(symmetry_matrices)

    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)

    return symmetry_order
""", """    return sum(1 for operation in point_group.get_symmetry_operations()
               if np.linalg.det(operation.rotation_matrix) > 0)
"""),
]
