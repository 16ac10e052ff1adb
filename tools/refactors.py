#!/usr/bin/env python3
"""Edits of the repository that keep its behaviour: every check has to stay quiet on them.

refactors.py [NAME...] [-- CHECK...]   applies each in a scratch copy, runs tests and checks.
"""
import os
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

PF, SA, UT, IO, CLI = ('occuprob/%s.py' % n for n in ('partitionfunctions', 'superpositions', 'utils', 'io', 'cli'))

R = {}
R['primitives-by-mask'] = [
 (UT, """    beta = np.divide(1., KB * temperature, where=temperature > 0,
                     out=np.inf * np.ones(temperature.shape))
""", """    beta = np.full(np.shape(temperature), np.inf)
    positive = np.asarray(temperature) > 0
    beta[positive] = (1. / KB) / np.asarray(temperature)[positive]
"""),
 (UT, """    output = np.multiply(np.zeros_like(energy), np.zeros_like(beta))
    exponent = np.multiply(energy, beta, where=energy != 0, out=output)
""", """    with np.errstate(invalid='ignore'):
        product = energy * beta
    exponent = np.where(energy == 0, 0., product)
"""),
 (UT, """    geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0,
                                           out=-np.inf * np.ones_like(in_array)),
                                    axis=1))
""", """    with np.errstate(divide='ignore'):
        logarithms = np.log(np.asarray(in_array))
    geometric_mean = np.exp(logarithms.sum(axis=1) / in_array.shape[1])
"""),
 (UT, """    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and
               np.allclose(dict1[key], dict2[key]) for key in dict1)""",
  """    for key, value in dict1.items():
        other = dict2[key]
        if np.shape(value) != np.shape(other):
            return False
        if not np.allclose(other, value):
            return False

    return True"""),
]
R['modes-in-a-loop'] = [
 (PF, """        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
        coth = 1. / np.tanh(exponent)

        aux_w = np.multiply(exponent, coth, where=temperature > 0,
                            out=np.zeros_like(exponent))
        part_func_w = -np.sum(aux_w, axis=1)
""", """        part_func_w = np.zeros((self.frequencies.shape[0], temperature.size), np.longdouble)

        for mode in range(self.frequencies.shape[1]):
            exponent = calc_exponent(0.5 * H * self.frequencies[:, mode], temperature)
            aux_w = exponent / np.tanh(exponent)
            part_func_w -= np.where(temperature > 0, aux_w, 0.)
"""),
 (PF, """        csch = 1. / np.sinh(exponent)

        aux_v = np.multiply(exponent, csch, where=temperature > 0,
                            out=np.zeros_like(exponent))
        part_func_v = np.sum(aux_v**2, axis=1)
""", """        decay = np.exp(-exponent)
        csch = 2. * decay / -np.expm1(-2. * exponent)

        aux_v = np.multiply(exponent, csch, where=temperature > 0,
                            out=np.zeros_like(exponent))
        part_func_v = np.einsum('ijk,ijk->ik', aux_v, aux_v)
"""),
 (PF, """        csch = 0.5 / np.sinh(exponent, where=temperature > 0,
                             out=2. * np.ones_like(exponent))
        partition_function = np.prod(csch, axis=1)
""", """        sinh = np.sinh(exponent, where=temperature > 0,
                       out=2. * np.ones_like(exponent))
        partition_function = np.ones((sinh.shape[0], sinh.shape[2]), sinh.dtype)
        for mode in range(sinh.shape[1]):
            partition_function /= 2. * sinh[:, mode]
"""),
 (PF, """        partition_function = np.outer(np.power(frequencies_gmean, -self.num_vib),
                                      np.ones_like(temperature))

        return""", """        weights = 1. / frequencies_gmean**self.num_vib
        partition_function = np.repeat(weights[:, None], len(temperature), axis=1)

        return"""),
]
R['one-pass-superposition'] = [
 (SA, """        try:
            contributions = [getattr(partition_function, method)(temperature) for
                             partition_function in self.partition_functions]
            combined_contributions = combiner(np.stack(contributions), axis=0)

            return combined_contributions

        except ValueError:
            print("You must include at least one partition function.")
""", """        if not self.partition_functions:
            print("You must include at least one partition function.")
            return None

        contributions = []
        for partition_function in reversed(self.partition_functions):
            contributions.append(getattr(partition_function, method)(temperature))

        try:
            stacked = np.stack(contributions)
        except ValueError:
            print("You must include at least one partition function.")
            return None

        return combiner(stacked, axis=0)
"""),
 (SA, """        partition_functions = np.exp(log_partition_functions -
                                     np.amax(log_partition_functions, axis=0))
""", """        partition_functions = np.exp(log_partition_functions -
                                     log_partition_functions.max(axis=0, keepdims=True))
"""),
 (SA, """        occupation_probability = partition_functions / total_partition_function
""", """        occupation_probability = np.empty_like(partition_functions)
        for column, total in enumerate(total_partition_function):
            occupation_probability[:, column] = partition_functions[:, column] / total
"""),
 (SA, """        weighted_observable = np.multiply(observable, probability,
                                          where=probability > 0,
                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))
        ensemble_average = np.sum(weighted_observable, axis=0)

        return ensemble_average.reshape(1, -1)
""", """        occupied = probability > 0
        weighted_observable = np.where(occupied, observable, 0.) * probability

        return weighted_observable.sum(axis=0)[None, :]
"""),
 (SA, """        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                         self.calc_ensemble_average(temperature,
                                                    (part_func_d['w'] - mean_w)**2))

        return heat_capacity
""", """        variance = self.calc_ensemble_average(temperature, np.square(part_func_d['w'] - mean_w))
        mean_v = self.calc_ensemble_average(temperature, part_func_d['v'])

        return variance + mean_v
"""),
]
R['command-line-helpers'] = [
 (CLI, """    outdata = np.vstack((temperature, results)).T
    np.savetxt(outfile, outdata)
""", """    with open(outfile, 'w', encoding='utf-8') as stream:
        for column, value in enumerate(temperature):
            row = [value] + [result[column] for result in results]
            stream.write(' '.join('%.17e' % number for number in row) + '\\n')
"""),
 (CLI, """        temperature = np.arange(args.min_temp, args.max_temp + 1.e-6, 1.)

        results = {'C': superposition.calc_heat_capacity(temperature),
                   'P': superposition.calc_probability(temperature)}
""", """        steps = int(np.floor(args.max_temp - args.min_temp + 1.e-6))
        temperature = args.min_temp + np.arange(steps + 1.)

        results = {}
        results['P'] = superposition.calc_probability(temperature)
        results['C'] = superposition.calc_heat_capacity(temperature)
"""),
 (CLI, """    partition_functions = []

    if args.e:
        partition_functions.append(ElectronicPF(properties['energy'],
                                                np.ones_like(properties['energy'])))
    if args.s:
        partition_functions.append(ElectronicPF(properties['energy'],
                                                properties['multiplicity']))
    if args.c:
        partition_functions.append(ClassicalHarmonicPF(properties['frequencies']))
    if args.q:
        partition_functions.append(QuantumHarmonicPF(properties['frequencies']))
    if args.r:
        partition_functions.append(RotationalPF(properties['symmetry'],
                                                properties['moments']))
""", """    partition_functions = collect(args, properties)
"""),
 (CLI, """def main():
""", """def collect(args, properties):
    \"\"\" Partition functions that were asked for. \"\"\"
    chosen = []
    if args.r:
        chosen.append(RotationalPF(properties['symmetry'], properties['moments']))
    if args.c or args.q:
        vibrational = ClassicalHarmonicPF if args.c else QuantumHarmonicPF
        chosen.append(vibrational(properties['frequencies']))
    if args.e or args.s:
        energy = properties['energy']
        degeneracy = np.ones(energy.shape) if args.e else properties['multiplicity']
        chosen.append(ElectronicPF(energy, degeneracy))
    return chosen


def main():
"""),
 (IO, """    plt.figure(figsize=size)

    plt.xlabel(r'$T$ [K]')
    plt.ylabel(ylabel)

    xmin, xmax = temperature[0], temperature[-1]

    for position in hline_pos:
        plt.hlines(position, xmin, xmax, colors='silver', linestyles='--', lw=2)

    for i, result in enumerate(results):
        if labels:
            plt.plot(temperature, result, label=labels[i], lw=linewidth)
        else:
            plt.plot(temperature, result, lw=linewidth)

    plt.xlim((xmin, xmax))
    plt.ylim(ylims)

    if labels:
        plt.legend()

    plt.tight_layout()
    plt.savefig(outfile)
""", """    fig, axes = plt.subplots(figsize=size)

    axes.set_xlabel(r'$T$ [K]')
    axes.set_ylabel(ylabel)

    for position in hline_pos:
        axes.axhline(position, color='silver', linestyle='--', lw=2)

    lines = axes.plot(temperature, np.transpose(results), lw=linewidth)

    if labels:
        for line, label in zip(lines, labels):
            line.set_label(label)
        axes.legend()

    axes.set_xlim(temperature[0], temperature[-1])
    axes.set_ylim(ylims)

    fig.tight_layout()
    fig.savefig(outfile)
    plt.close(fig)
"""),
]
R['loader-by-comprehension'] = [
 (IO, """    energies = []
    spin_multiplicity = []
    frequencies = []
    moments_of_inertia = []
    symmetry_order = []

    # Reads the values from the input file
    for atoms in isomers:
        energies.append(atoms.info['Energy'])
        spin_multiplicity.append(atoms.info['Multiplicity'])
        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))
        moments_of_inertia.append(atoms.get_moments_of_inertia())
        symmetry_order.append(calc_symmetry_order(atoms))

    properties = {'energy': np.stack(energies),
                  'multiplicity': np.stack(spin_multiplicity),
                  'frequencies': np.stack(frequencies).astype(np.longdouble),
                  'moments': np.stack(moments_of_inertia),
                  'symmetry': np.stack(symmetry_order)}

    return properties
""", """    infos = [atoms.info for atoms in isomers]
    frequencies = [np.ravel(info['Frequencies'], order='F') for info in infos]

    return {'symmetry': np.array([calc_symmetry_order(atoms) for atoms in isomers]),
            'moments': np.array([atoms.get_moments_of_inertia() for atoms in isomers]),
            'energy': np.array([info['Energy'] for info in infos]),
            'multiplicity': np.array([info['Multiplicity'] for info in infos]),
            'frequencies': np.stack(frequencies).astype(np.longdouble)}
"""),
 (IO, """    symmetry_matrices = np.array([matrix.as_dict()['matrix'] for matrix in
                                  point_group.get_symmetry_operations()])

    symmetry_matrices_det = np.linalg.det(symmetry_matrices)

    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)
""", """    symmetry_order = 0
    for operation in point_group.get_symmetry_operations():
        if np.linalg.det(operation.rotation_matrix) > 0:
            symmetry_order += 1
"""),
]
R['classes-and-caches'] = [
 (PF, """        self.frequencies = frequencies
        self.num_vib = frequencies.shape[1]  # Number of vibrational modes
""", """        self.frequencies = np.array(frequencies)
        self.num_vib = self.frequencies.shape[1]  # Number of vibrational modes
"""),
 (PF, """        exponent = calc_exponent(self.relative_energy, temperature)
        partition_function = np.exp(-exponent)
        partition_function *= self.spin_multiplicity[:, None]
""", """        partition_function = self._degeneracy() * self._boltzmann(temperature)
"""),
 (PF, """        self.relative_energy = potential_energy - np.amin(potential_energy)
""", """        self.relative_energy = potential_energy - potential_energy.min()

    def _degeneracy(self):
        return np.reshape(self.spin_multiplicity, (-1, 1))

    def _boltzmann(self, temperature):
        return np.exp(-calc_exponent(self.relative_energy, temperature))
"""),
 (PF, """        moments_product = np.prod(self.moments, axis=1)[:, None]
        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)
        partition_function /= self.symmetry_order[:, None]
""", """        weights = np.prod(np.sqrt(self.moments), axis=1) / self.symmetry_order
        partition_function = np.tile(weights[:, None], (1, temperature.size))
"""),
 (PF, """        part_func_w = -self.num_vib * np.ones([self.frequencies.shape[0],
                                               temperature.size])
""", """        shape = (self.frequencies.shape[0], temperature.size)
        part_func_w = np.full(shape, -float(self.num_vib))
"""),
 (PF, """        part_func_v = np.zeros_like(self.calc_part_func_w(temperature))
""", """        part_func_v = np.zeros((len(self.relative_energy), len(temperature)))
"""),
 (UT, """import numpy as np

# Boltz""", """import functools

import numpy as np

# Boltz"""),
 (UT, """    beta = np.divide(1., KB * temperature, where=temperature > 0,
                     out=np.inf * np.ones(temperature.shape))

    return beta
""", """    temperature = np.ascontiguousarray(temperature)

    return _calc_beta(temperature.tobytes(), temperature.dtype.str, temperature.shape).copy()


@functools.lru_cache(maxsize=16)
def _calc_beta(data, dtype, shape):
    temperature = np.frombuffer(data, dtype).reshape(shape)
    beta = np.divide(1., KB * temperature, where=temperature > 0,
                     out=np.inf * np.ones(temperature.shape))

    return beta
"""),
 (SA, """        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
""", """        if hasattr(partition_functions, '__iter__'):
            added = list(partition_functions)
        else:
            added = [partition_functions]

        self.partition_functions = [*self.partition_functions, *added]
"""),
]
R['figure-without-pyplot'] = [
 (IO, """import matplotlib.pyplot as plt
""", """from matplotlib.figure import Figure
"""),
 (IO, """    labels = plot_format['labels'] if 'labels' in plot_format else None
    ylabel = plot_format['ylabel'] if 'ylabel' in plot_format else None
    ylims = plot_format['ylims'] if 'ylims' in plot_format else None
    size = plot_format['size'] if 'size' in plot_format else (8., 6.)
    linewidth = plot_format['linewidth'] if 'linewidth' in plot_format else 2
    hline_pos = plot_format['hline_pos'] if 'hline_pos' in plot_format else []

    plt.figure(figsize=size)

    plt.xlabel(r'$T$ [K]')
    plt.ylabel(ylabel)

    xmin, xmax = temperature[0], temperature[-1]

    for position in hline_pos:
        plt.hlines(position, xmin, xmax, colors='silver', linestyles='--', lw=2)

    for i, result in enumerate(results):
        if labels:
            plt.plot(temperature, result, label=labels[i], lw=linewidth)
        else:
            plt.plot(temperature, result, lw=linewidth)

    plt.xlim((xmin, xmax))
    plt.ylim(ylims)

    if labels:
        plt.legend()

    plt.tight_layout()
    plt.savefig(outfile)
""", """    figure = Figure(figsize=plot_format.get('size', (8., 6.)))
    axes = figure.add_subplot()
    axes.set(xlabel=r'$T$ [K]', ylabel=plot_format.get('ylabel'))

    labels = plot_format.get('labels')
    linewidth = plot_format.get('linewidth', 2)
    limits = temperature[[0, -1]]

    for position in plot_format.get('hline_pos', ()):
        axes.plot(limits, [position, position], color='silver', linestyle='--', lw=2, zorder=1)

    for i, result in enumerate(results):
        axes.plot(temperature, result, lw=linewidth, color=f'C{i % 10}',
                  label=labels[i] if labels else None)

    axes.set(xlim=limits, ylim=plot_format.get('ylims'))

    if labels:
        axes.legend()

    figure.tight_layout()
    figure.savefig(outfile)
"""),
]
R['command-line-in-parts'] = [
 (CLI, """import argparse
import re
""", """import argparse
import pathlib
"""),
 (CLI, """    for key in results:
        if args.out_file:
            outfile = args.out_file + '_' + key + '.dat'
        else:
            outfile = re.sub(r'\\.xyz$', '', args.in_file) + '_' + key + '.dat'

        save_results(results[key], temperature, outfile)

        if args.plot:
            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
            plot_results(results[key], key, temperature, plotfile, args.size)
""", """    prefix = args.out_file or args.in_file.removesuffix('.xyz')
    outputs = [(key, results[key], prefix + '_' + key) for key in sorted(results, reverse=True)]

    for _, result, name in outputs:
        save_results(result, temperature, pathlib.Path(name + '.dat'))

    if args.plot:
        for key, result, name in outputs:
            plot_results(result, key, temperature, f'{name}.{args.plot_format.lower()}',
                         tuple(args.size))
"""),
 (CLI, """    outdata = np.vstack((temperature, results)).T
""", """    outdata = np.column_stack([temperature, *results])
"""),
 (CLI, """        results = {'C': superposition.calc_heat_capacity(temperature),
                   'P': superposition.calc_probability(temperature)}
""", """        results = {}
        for key, method in (('P', 'calc_probability'), ('C', 'calc_heat_capacity')):
            results[key] = getattr(superposition, method)(temperature)
"""),
 (IO, """    isomers = read(xyz_filename, index=':')
""", """    isomers = list(iread(xyz_filename, index=slice(None)))
"""),
 (IO, """from ase.io import read
""", """from ase.io import iread
"""),
 (IO, """    symbols = ase_atoms.get_chemical_symbols()
    positions = ase_atoms.get_positions()

    molecule = Molecule(symbols, positions)
""", """    molecule = Molecule([int(number) for number in ase_atoms.numbers], ase_atoms.positions.copy())
"""),
]
R['logarithms-throughout'] = [
 (PF, """        exponent = calc_exponent(self.relative_energy, temperature)
        partition_function = np.exp(-exponent)
        partition_function *= self.spin_multiplicity[:, None]
""", """        weights = self.spin_multiplicity[:, None]
        partition_function = weights * np.exp(-calc_exponent(self.relative_energy, temperature))
"""),
 (PF, """        frequencies_gmean = calc_geometric_mean(self.frequencies)

        log_part_func = np.outer(-self.num_vib * np.log(frequencies_gmean),
                                 np.ones_like(temperature))
""", """        log_part_func = -np.sum(np.log(self.frequencies), axis=1)
        log_part_func = np.repeat(log_part_func[:, None], temperature.size, axis=1)
"""),
 (PF, """        self.symmetry_order = symmetry_order

""", """        self.symmetry_order = symmetry_order
        self._log_weight = None

"""),
 (PF, """        moments_product = np.prod(self.moments, axis=1)[:, None]
        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)
        partition_function /= self.symmetry_order[:, None]

        return partition_function
""", """        return np.exp(self.calc_log_part_func(temperature))

    def calc_log_part_func(self, temperature):
        if self._log_weight is None:
            self._log_weight = 0.5 * np.log(self.moments).sum(axis=1) - np.log(1. * self.symmetry_order)

        return np.add.outer(self._log_weight, np.zeros(temperature.size))
"""),
 (SA, """        partition_functions = np.exp(log_partition_functions -
                                     np.amax(log_partition_functions, axis=0))

        # The total partition function is the sum of all the individual
        # contributions of each local minimum considered
        total_partition_function = np.sum(partition_functions, axis=0)

        # The probability of finding the system in each local minimum is
        # calculated by dividing their individual contributions by the total
        # partition function
        occupation_probability = partition_functions / total_partition_function
""", """        shifted = log_partition_functions - log_partition_functions.max(axis=0)
        occupation_probability = np.exp(shifted - np.log(np.exp(shifted).sum(axis=0)))
"""),
]
R['columns-one-by-one'] = [
 (SA, """        log_partition_functions = self.combine_contributions(temperature, np.sum,
                                                             "calc_log_part_func")

        if log_partition_functions is None:
            return None
""", """        columns = []
        for k in range(temperature.size):
            column = self.combine_contributions(temperature[k:k + 1], np.sum, "calc_log_part_func")
            if column is None:
                return None
            columns.append(column)
        log_partition_functions = np.concatenate(columns, axis=1)
"""),
 (SA, """        weighted_observable = np.multiply(observable, probability,
                                          where=probability > 0,
                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))
        ensemble_average = np.sum(weighted_observable, axis=0)
""", """        weighted = np.where(probability > 0, observable, 0.)
        ensemble_average = np.einsum('am,am->m', weighted, probability)
"""),
]
R['rows-one-by-one'] = [
 (SA, """        partition_functions = np.exp(log_partition_functions -
                                     np.amax(log_partition_functions, axis=0))

        # The total partition function is the sum of all the individual
        # contributions of each local minimum considered
        total_partition_function = np.sum(partition_functions, axis=0)

        # The probability of finding the system in each local minimum is
        # calculated by dividing their individual contributions by the total
        # partition function
        occupation_probability = partition_functions / total_partition_function
""", """        largest = log_partition_functions[0]
        for row in log_partition_functions[1:]:
            largest = np.maximum(largest, row)

        rows = [np.exp(row - largest) for row in log_partition_functions]
        total_partition_function = 0.
        for row in rows:
            total_partition_function = total_partition_function + row

        occupation_probability = np.array([row / total_partition_function for row in rows])
"""),
 (SA, """        part_func_d = {d: self.combine_contributions(temperature, np.sum,
                                                     'calc_part_func_' + d)
                       for d in ['w', 'v']}
""", """        part_func_d = {}
        part_func_d['v'] = self.combine_contributions(temperature, np.sum, 'calc_part_func_v')
        part_func_d['w'] = self.combine_contributions(temperature, np.sum, 'calc_part_func_w')
"""),
 (SA, """        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                         self.calc_ensemble_average(temperature,
                                                    (part_func_d['w'] - mean_w)**2))

        return heat_capacity
""", """        deviation = part_func_d['w'] - mean_w

        return self.calc_ensemble_average(temperature, deviation * deviation + part_func_d['v'])
"""),
 (PF, """        self.symmetry_order = symmetry_order

""", """        self.symmetry_order = symmetry_order.copy()

"""),
 (PF, """        moments_product = np.prod(self.moments, axis=1)[:, None]
        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)
        partition_function /= self.symmetry_order[:, None]
""", """        partition_function = np.empty((len(self.moments), temperature.size))
        for minimum, (first, second, third) in enumerate(self.moments):
            weight = np.sqrt(first) * np.sqrt(second) * np.sqrt(third)
            partition_function[minimum, :] = weight / self.symmetry_order[minimum]
"""),
 (PF, """        part_func_v = -self.calc_part_func_w(temperature)

        return part_func_v


class ClassicalHarmonicPF""", """        part_func_v = np.full((self.symmetry_order.size, temperature.size), 3. / 2.)

        return part_func_v


class ClassicalHarmonicPF"""),
 (UT, """    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and
               np.allclose(dict1[key], dict2[key]) for key in dict1)""",
  """    for key in sorted(dict1, key=str):
        first, second = np.asarray(dict1[key]), np.asarray(dict2[key])
        if first.shape != second.shape or not np.isclose(first, second).all():
            return False

    return True"""),
 (CLI, """        temperature = np.arange(args.min_temp, args.max_temp + 1.e-6, 1.)
""", """        values = []
        value = args.min_temp
        while value < args.max_temp + 1.e-6:
            values.append(value)
            value += 1.
        temperature = np.array(values)
"""),
]
R['guards-and-helpers'] = [
 (SA, """        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
""", """        try:
            several = iter(partition_functions)
        except TypeError:
            several = [partition_functions]

        for partition_function in several:
            self.partition_functions.append(partition_function)
"""),
 (SA, """        probability = self.calc_probability(temperature)

        if probability is None:
            return None

        weighted_observable""", """        return self._weighted_sum(temperature, observable, self.calc_probability(temperature))

    @staticmethod
    def _weighted_sum(temperature, observable, probability):
        if probability is None:
            return None

        weighted_observable"""),
 (SA, """        mean_w = self.calc_ensemble_average(temperature, part_func_d['w'])

        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                         self.calc_ensemble_average(temperature,
                                                    (part_func_d['w'] - mean_w)**2))
""", """        probability = self.calc_probability(temperature)
        mean_w = self._weighted_sum(temperature, part_func_d['w'], probability)
        variance = self._weighted_sum(temperature, (part_func_d['w'] - mean_w)**2, probability)
        heat_capacity = variance + self._weighted_sum(temperature, part_func_d['v'], probability)
"""),
 (PF, """        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
        csch = 0.5 / np.sinh(exponent, where=temperature > 0,
                             out=2. * np.ones_like(exponent))
        partition_function = np.prod(csch, axis=1)
""", """        exponent = self._half_quanta(temperature)
        csch = 0.5 / np.sinh(exponent, where=temperature > 0,
                             out=2. * np.ones_like(exponent))
        partition_function = np.multiply.reduce(csch, axis=1)
"""),
 (PF, """        self.frequencies = frequencies.astype(np.longdouble)
""", """        self.frequencies = frequencies.astype(np.longdouble)

    def _half_quanta(self, temperature):
        energies = 0.5 * H * self.frequencies
        return calc_exponent(energies[..., np.newaxis], temperature)
"""),
 (PF, """        part_func_w = -np.multiply(beta, self.relative_energy[:, None],
                                   where=self.relative_energy[:, None] != 0.,
                                   out=np.zeros([self.relative_energy.size,
                                                 beta.size]))
""", """        part_func_w = np.zeros([self.relative_energy.size, beta.size])
        for minimum, energy in enumerate(self.relative_energy):
            if energy != 0.:
                part_func_w[minimum] = -energy * beta
"""),
 (CLI, """    for key in results:
        if args.out_file:
            outfile = args.out_file + '_' + key + '.dat'
        else:
            outfile = re.sub(r'\\.xyz$', '', args.in_file) + '_' + key + '.dat'

        save_results(results[key], temperature, outfile)

        if args.plot:
            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
            plot_results(results[key], key, temperature, plotfile, args.size)
""", """    if not results:
        return

    prefix = args.out_file if args.out_file else re.sub(r'\\.xyz$', '', args.in_file)
    for key, result in results.items():
        write_outputs(result, key, temperature, prefix + '_' + key + '.', args)


def write_outputs(result, key, temperature, stem, args):
    \"\"\" Writes one table and its figure. \"\"\"
    save_results(result, temperature, stem + 'dat')

    if args.plot:
        plot_results(result, key, temperature, stem + args.plot_format.lower(), args.size)
"""),
 (CLI, """    outdata = np.vstack((temperature, results)).T
    np.savetxt(outfile, outdata)
""", """    outdata = np.empty((temperature.size, len(results) + 1))
    outdata[:, 0] = temperature
    outdata[:, 1:] = np.transpose(results)
    np.savetxt(outfile, outdata, fmt='%.18e', delimiter=' ')
"""),
 (IO, """    # Reads the values from the input file
    for atoms in isomers:
        energies.append(atoms.info['Energy'])
        spin_multiplicity.append(atoms.info['Multiplicity'])
        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))
        moments_of_inertia.append(atoms.get_moments_of_inertia())
        symmetry_order.append(calc_symmetry_order(atoms))
""", """    # Reads the values from the input file
    for number in range(len(isomers)):
        atoms = isomers[number]
        symmetry_order.append(calc_symmetry_order(atoms))
        moments_of_inertia.append(atoms.get_moments_of_inertia())
        info = atoms.info
        frequencies.append(np.ravel(info['Frequencies'], order='F'))
        spin_multiplicity.append(info['Multiplicity'])
        energies.append(info['Energy'])
"""),
]


from refactors_b import R as _more    # noqa: E402
R.update(_more)
from refactors_c import R as _still_more    # noqa: E402
R.update(_still_more)


def main():
    args = sys.argv[1:]
    checks = []
    if '--' in args:
        k = args.index('--')
        args, checks = args[:k], args[k + 1:]
    checks = checks or ['C%02d' % i for i in range(1, 41)]
    for name, edits in R.items():
        if args and name not in args:
            continue
        d, repo = plant.scratch()
        try:
            for f, old, new in edits:
                p = os.path.join(repo, f)
                text = open(p).read()
                assert text.count(old) == 1, (name, f, text.count(old), old)
                open(p, 'w').write(text.replace(old, new))
            t, out = plant.tests(repo)
            with ThreadPoolExecutor(6) as ex:
                res = list(ex.map(lambda p: plant.check(p, repo), checks))
            bad = [(p, c, o) for p, c, _, o in res if c]
            print('%-28s tests=%d %s' % (name, t, 'quiet' if not bad else 'ALARMS ' + ' '.join('%s=%d' % x[:2] for x in bad)), flush=True)
            if t:
                print(out[-1500:])
            for p, c, o in bad:
                print(o[-1200:])
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
