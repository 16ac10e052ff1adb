"""C24: invalid requests produce no results."""
import os
import re

from rtm import clirun, gen, xyz
from rtm.core import Stream, digest

RULE = ('Requests that cannot be honoured: exclusive or no contributions (in every spelling), arguments the command line cannot take (unknown options, values lacking, not numbers or too few, two files), missing files and directories, empty files, files cut at any line before the end, isomers (first, '
        'middle or last of 1-6) lacking a key or with another number of frequencies; with and without prefix, plots and results of an earlier run. Each must end with an error status or '
        'message and leave the directory tree as it was. Distinct by hash of file and arguments.')


def spell(rng, c):
    return '-' + (c if rng.random() < 0.5 else c.upper())


def bad_flags(rng):
    """Flags of an invalid request for a good file."""
    mode = gen.pick(rng, ['none', 'spin', 'vib', 'both'])
    if mode == 'none':
        return [], mode
    letters = [c for c in 'r' if rng.random() < 0.5]
    if mode in ('spin', 'both'):
        letters += ['e', 's']
    elif rng.random() < 0.5:
        letters += [gen.pick(rng, 'es')]
    if mode in ('vib', 'both'):
        letters += ['c', 'q']
    elif rng.random() < 0.5:
        letters += [gen.pick(rng, 'cq')]
    rng.shuffle(letters)
    letters = [c if rng.random() < 0.5 else c.upper() for c in letters]
    if rng.random() < 0.5:
        return ['-' + ''.join(letters)], mode
    return ['-' + c for c in letters], mode


def malformed(rng, path):
    """Arguments that no command line with these options can take."""
    how = gen.pick(rng, ['unknown option', 'value lacking', 'one size', 'not a number', 'two files'])
    return how, {'unknown option': [gen.pick(rng, ['--isomer', '-z', '--sizes', '--temperature=3', '--rot'])],
                 'value lacking': [gen.pick(rng, ['--max_temp', '--min_temp', '--out_file', '--plot_format', '--size'])],
                 'one size': ['--size', '4', '--plot'],
                 'not a number': [gen.pick(rng, ['--max_temp', '--min_temp']), gen.pick(rng, ['high', '', '3K', '1,5', '0x10', '--'])],
                 'two files': [path[:-4] + '_2.xyz' if rng.random() < 0.5 else path]}[how]


def damaged(rng, isomers, path):
    """Writes a damaged file and says how."""
    N = len(isomers)
    mode = gen.pick(rng, ['empty', 'cut', 'cut', 'cut_line', 'lacking', 'lacking', 'lacking', 'count', 'count', 'no_comment'])
    xyz.write(path, rng, isomers, plain=True)
    lines = open(path).read().split('\n')[:-1]
    starts, k = [], 0
    while k < len(lines):
        starts.append(k)
        k += int(lines[k]) + 2
    victim = int(rng.integers(N))
    if mode == 'empty':
        lines = []
    elif mode == 'cut':         # inside the last isomer kept, at a line boundary
        n = int(lines[starts[victim]])
        lines = lines[:starts[victim] + 1 + int(rng.integers(0, n + 1))]
    elif mode == 'cut_line':    # within the last line kept: coordinates are missing
        n = int(lines[starts[victim]])
        lines = lines[:starts[victim] + 2 + int(rng.integers(1, n + 1))]
        words = lines[-1].split()
        lines[-1] = ' '.join(words[:int(rng.integers(1, 4))])
    elif mode == 'lacking':
        key = gen.pick(rng, ['Energy', 'Multiplicity', 'Frequencies'])
        c = starts[victim] + 1
        new = re.sub(r'\s*\b%s=("[^"]*"|\S+)' % key, gen.pick(rng, ['', ' %sX=1' % key, ' my_%s="1 2 3"' % key]), lines[c])
        assert new != lines[c]
        lines[c] = new
        mode += ' ' + key
    elif mode == 'count':
        c = starts[victim] + 1
        extra = gen.pick(rng, ['more', 'less'])
        m = re.search(r'Frequencies="([^"]*)"', lines[c])
        f = m.group(1).split()
        f = f + f[:int(rng.integers(1, 3))] if extra == 'more' or len(f) < 2 else f[:-1]
        lines[c] = lines[c][:m.start(1)] + ' '.join(f) + lines[c][m.end(1):]
        mode += ' ' + extra
    else:
        lines[starts[victim] + 1] = ''
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + ('\n' if lines else ''))
    return '%s (isomer %d of %d)' % (mode, victim + 1, N)


def case(ctx, rng, process=False):
    d = ctx.tmpdir()
    N = int(rng.integers(1, 7))
    isomers = xyz.random_isomers(rng, N=max(N, 2), D=int(rng.integers(2, 10)), natoms=int(rng.integers(2, 5)))
    path = os.path.join(d, 'in.xyz')
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    what = gen.pick(rng, ['flags', 'flags', 'missing', 'syntax', 'damaged', 'damaged', 'damaged', 'damaged'])
    given = path
    letters = clirun.flags(rng, kinds)
    if what == 'damaged':
        how = damaged(rng, isomers, path)
    else:
        xyz.write(path, rng, isomers)
        if what == 'flags':
            letters, how = bad_flags(rng)
        elif what == 'syntax':
            how, bad = malformed(rng, path)
        else:
            how = gen.pick(rng, ['absent', 'directory', 'absent directory', 'other name', 'no argument'])
            given = {'absent': os.path.join(d, 'im.xyz'), 'directory': d, 'absent directory': os.path.join(d, 'no', 'in.xyz'),
                     'other name': os.path.join(d, 'in.xy'), 'no argument': None}[how]
    groups = [letters, [given] if given else [], ['--max_temp', '%d' % rng.integers(1, 60)] if rng.random() < 0.7 else []]
    prefix = path[:-4]
    if rng.random() < 0.3:
        prefix = os.path.join(d, 'out')
        groups.append(['--out_file', prefix])
    if rng.random() < 0.2:
        groups.append(['--plot'])
    if rng.random() < 0.3:      # results of an earlier run
        for key in 'PC':
            for ext in ('dat', 'svg'):
                with open('%s_%s.%s' % (prefix, key, ext), 'w') as f:
                    f.write('0 1\n')
    argv = clirun.interleave(rng, groups + ([bad] if what == 'syntax' and how != 'value lacking' else []))
    if what == 'syntax' and how == 'value lacking':
        argv = argv + bad
    ctx.note.update(request=what, how=how, file=open(path).read()[:1200])
    r = clirun.run(ctx, argv, d, process=process)
    ctx.check(not (r.new or r.gone or r.changed or r.refused),
              'an invalid request (%s, %s) wrote %s' % (what, how, (r.new or r.gone or r.changed or r.refused)[:3]))
    ctx.check(r.status != 0 or r.message, 'an invalid request (%s, %s) ended with status 0 and no message' % (what, how))
    ctx.count('refused_' + what)
    ctx.count('ended_with_status' if r.status else 'ended_with_message')
    ctx.sample({'argv': argv, 'how': how, 'status': r.status, 'raised': r.raised})
    return digest(argv[:-1], how, open(path).read())


def in_process(ctx, rng):
    return case(ctx, rng)


def real_process(ctx, rng):
    return case(ctx, rng, True)


def after_valid(ctx, rng):
    """An invalid request after a valid one in the same process and directory."""
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    isomers = xyz.random_isomers(rng, N=3, D=3, natoms=2)
    xyz.write(path, rng, isomers)
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    r = clirun.run(ctx, clirun.flags(rng, kinds) + [path, '--max_temp', '5'], d)
    ctx.check(r.status == 0 and len(r.new) == 2, 'a valid request failed: %s' % (r.raised or r.err[-200:]))
    if rng.random() < 0.5:
        letters, how = bad_flags(rng)
    else:
        letters, how = clirun.flags(rng, kinds), damaged(rng, isomers, path)
    r = clirun.run(ctx, letters + [path], d)
    ctx.note['how'] = how
    ctx.check(not (r.new or r.gone or r.changed or r.refused), 'an invalid request (%s) after a valid one wrote %s' % (how, (r.new or r.gone or r.changed)[:3]))
    ctx.check(r.status != 0 or r.message, 'an invalid request (%s) ended with status 0 and no message' % how)
    ctx.count('runs_in_sequence', 2)
    return digest(kinds, how, open(path).read())


STREAMS = [Stream('in_process', in_process, 600, 8000), Stream('real_process', real_process, 4, 30), Stream('after_valid', after_valid, 60, 600)]
