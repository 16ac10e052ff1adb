"""C23: the command line writes only its own output files."""
import os

from rtm import clirun, gen, xyz
from rtm.core import Stream, digest

RULE = ('Directories and names containing "dat", ".xyz", spaces, dots and keys of the output names; relative, absolute and parent paths, symbolic links, read-only inputs, '
        'neighbouring files with the names that a careless substitution would produce, output from earlier runs; prefix or not, plots in several formats. The directory tree is compared before and '
        'after every run (names, modes, contents) and an audit hook refuses and reports changes anywhere else. Distinct by hash of paths and arguments.')

DIRS = ['data', 'dat', 'a.xyz', 'x.xyz.d', 'my data', 'update.dat', 'svg', 'run_P', 'C', 'dat.svg', 'in.xyz_', 'Data', 'mandatory/dat', 'k.xyz/k.xyz', '~', '$HOME', '%s', '{}', '.d', '*', '~/x']
NAMES = ['in', 'dat', 'data', 'candidates', 'a.xyz', 'x.dat', 'iso.xyz.old', 'Pt5 isomers', 'in_P', 'C', 'svg', 'xyz', 'dat.dat', 'v1.2', 'isomers', 'Mdata_C', 'axyz', 'dxyzb',
         'in_P.dat', 'Isom\u00e8res', '[a]', 'a+b', 'pdf.png', 'none', 'xyz.xyz', '~', '~root', '$HOME', '${HOME}_x', '%s', '%d_P', '{}', '{key}', '*', '?', '.hidden', 'x-', '#1', 'a;b', 'a&b', "it's", '"q"', 'a\\b',
         'x..', '__', '_', '0', 'True', '\u03b1', 'x' * 120, 'a b  c', 'PC', '_P_C', 'P.C']
FORMATS = ['svg', 'png', 'svg', 'png', 'PNG', 'Svg', 'pdf', 'eps', 'jpg', 'ps', 'tiff']
OTHER = ['in', 'in.extxyz', 'dat', 'isomers.XYZ', 'data.dat', 'candidates.txt', 'file.xyz.gz.bak', 'axyz']


def plain_input(rng, isomers, path, text=None):
    xyz.write(path, rng, isomers, plain=True)
    return open(path).read()


def decoys(rng, full, names):
    """Files that the run must leave alone, next to those it writes."""
    base = os.path.dirname(full)
    for n in list(names):
        r = rng.random()
        if r < 0.5:
            p = os.path.join(base, n)
            if not os.path.lexists(p):
                with open(p, 'w') as f:
                    f.write('keep me %s\n' % n)


def case(ctx, rng, process=False):
    top = ctx.tmpdir()
    # the directory of the input
    rel = ''
    for _ in range(int(rng.integers(0, 3))):
        rel = os.path.join(rel, gen.pick(rng, DIRS))
    d = os.path.join(top, rel)
    os.makedirs(d, exist_ok=True)
    isomers = xyz.random_isomers(rng, N=int(rng.integers(1, gen.pick(rng, [4, 4, 4, 30]))), D=int(rng.integers(1, 5)), natoms=2)
    if rng.random() < 0.15:
        name = gen.pick(rng, OTHER)
        stem = name
        fmt_known = name.endswith('.extxyz')
        if not fmt_known:       # only names from which the format of the input is recognised
            name = stem = gen.pick(rng, ['in.extxyz', 'data.extxyz', 'a.xyz.extxyz'])
    else:
        stem = gen.pick(rng, NAMES)
        name = stem + '.xyz'
    full = os.path.join(d, name)
    if os.path.lexists(full):
        return None
    real = full
    if rng.random() < 0.1:      # a symbolic link to the input
        real = os.path.join(top, 'the real one.xyz')
        plain_input(rng, isomers, real)
        os.symlink(real, full)
    else:
        plain_input(rng, isomers, full)
    if rng.random() < 0.3:
        os.chmod(real, gen.pick(rng, [0o444, 0o600, 0o644]))
    # where it runs and how the input is named
    cwd = gen.pick(rng, [top, d])
    if rng.random() < 0.4:
        given = full
    else:
        given = os.path.relpath(full, cwd)
        if rng.random() < 0.3:
            given = os.path.join('.', given)
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    groups = [clirun.flags(rng, kinds), [given], ['--max_temp', '%d' % rng.integers(1, 30)]]
    if rng.random() < 0.45:
        o = gen.pick(rng, NAMES + ['in', 'out', 'results', 'x.xyz', 'a@b', '@0'])
        od = gen.pick(rng, ['', '', 'out', 'data', 'dat.xyz', '~', '$HOME', '%s', '{}'])
        if rng.random() < 0.12:      # a prefix that is a folder: files called _P.dat and _C.dat in it
            od, o = os.path.join(od, gen.pick(rng, ['out', 'res.d', 'dat', 'new'])), ''
        odir = os.path.join(cwd, od)
        if os.path.lexists(odir) and not os.path.isdir(odir):
            return None
        os.makedirs(odir, exist_ok=True)
        given_out = os.path.join(od, o)
        if rng.random() < 0.3:
            given_out = os.path.join(cwd, given_out)
        groups.append(gen.pick(rng, [['--out_file', given_out], ['--out_file=' + given_out], ['--out', given_out]]))
        prefix = os.path.join(cwd, given_out)
    else:
        prefix = os.path.join(d, stem)
    prefix = os.path.join(os.path.normpath(os.path.dirname(prefix)), os.path.basename(prefix))
    tables = [prefix + '_P.dat', prefix + '_C.dat']
    own = list(tables)
    fmt = None
    if rng.random() < (0.2 if not process else 1):
        fmt = 'svg'
        groups.append(['--plot'])
        if rng.random() < 0.7:
            fmt = gen.pick(rng, FORMATS)
            groups.append(['--plot_format', fmt])
        fmt = fmt.lower()
        own += [t[:-3] + fmt for t in tables]
    elif rng.random() < 0.2:
        groups.append(['--plot_format', gen.pick(rng, FORMATS)])
    if any(os.path.isdir(p) or os.path.realpath(p) in (os.path.realpath(full), os.path.realpath(real)) for p in own):
        return None
    # files from earlier runs and other files
    stale = [p for p in own if rng.random() < 0.2 and not os.path.lexists(p)]
    for p in stale:
        with open(p, 'w') as f:
            f.write('stale\n')
    candidates = [stem + '.dat', stem + '_.dat', 'P.dat', 'C.dat', '_P.dat', '_C.dat', stem + '.svg', stem + '.xyz.bak', stem + '_P.xyz', stem + '_C.png', stem + '_P.svg', stem + '_P',
                  stem + '_C', name + '_P.dat', name + 'P.dat', stem + 'P.dat', stem + '_Z.dat', 'tmp.dat', stem + '_P.dat.bak', 'in_P.dat', 'occuprob.log', name.replace('.xyz', '_') + 'P.dat',
                  stem + '_P.tmp', '.' + stem, stem + '_PC.dat', stem + '_P.txt', stem + '_w.dat']
    banned = {os.path.normpath(p) for p in own} | {full, real}
    decoys(rng, full, [c for c in candidates if os.path.join(d, c) not in banned])
    before = clirun.snapshot(top)
    argv = clirun.interleave(rng, groups)
    r = clirun.run(ctx, argv, cwd, watch=top, process=process)
    ctx.check(r.status == 0, 'a valid request ended with status %s: %s' % (r.status, r.raised or r.err[-200:]))
    ctx.check(not r.refused, 'tried to change files outside of its directory: %s' % r.refused[:3])
    own_rel = {os.path.relpath(p, top) for p in own}
    touched = set(r.new) | set(r.gone) | set(r.changed)
    ctx.check(not r.gone, 'removed %s' % r.gone[:3])
    ctx.check(touched <= own_rel, 'created or changed %s; its own files are %s' % (sorted(touched - own_rel)[:4], sorted(own_rel)))
    after = clirun.snapshot(top)
    for p in sorted(own_rel):
        ctx.check(p in after and after[p][0] == 'file' and os.path.getsize(os.path.join(top, p)) > 0, 'did not write %s' % p)
        ctx.check(before.get(p) != after[p], 'did not rewrite %s' % p)
    rel_in = os.path.relpath(real, top)
    ctx.check(before[rel_in] == after[rel_in], 'the input file was changed')
    for key, p in zip('PC', tables):
        rows = clirun.read_table(p)
        ctx.check(len(rows[0]) == (len(isomers) if key == 'P' else 1) + 1, 'the table _%s has %d columns' % (key, len(rows[0])))
    # files used on the way: the user may have some of that name
    passing = [p for p in r.written if p.startswith(top + os.sep) and p not in {os.path.normpath(q) for q in own} and not os.path.lexists(p) and os.path.isdir(os.path.dirname(p))]
    if passing:
        for p in passing:
            with open(p, 'w') as f:
                f.write('keep me %s\n' % os.path.basename(p))
        again = clirun.run(ctx, argv, cwd, watch=top)
        ctx.check(again.status == 0, 'a valid request ended with status %s next to files called %s' % (again.status, [os.path.basename(p) for p in passing]))
        touched = set(again.new) | set(again.gone) | set(again.changed)
        ctx.check(touched <= own_rel, 'created or changed %s; its own files are %s' % (sorted(touched - own_rel)[:4], sorted(own_rel)))
        ctx.count('files_used_on_the_way', len(passing))
    ctx.count('trees_compared')
    ctx.count('other_files_present', len(before))
    ctx.sample({'argv': argv, 'cwd': os.path.relpath(cwd, top), 'files': sorted(own_rel)})
    return digest(rel, argv, sorted(before))


def in_process(ctx, rng):
    return case(ctx, rng)


def real_process(ctx, rng):
    return case(ctx, rng, True) or digest(rng.random())


def repeated(ctx, rng):
    """Two runs with different prefixes and flags: the second leaves the files of the first alone."""
    d = ctx.tmpdir()
    for n in ('in', 'data'):
        plain_input(rng, xyz.random_isomers(rng, N=2, D=3, natoms=2), os.path.join(d, n + '.xyz'))
    state = {}
    argvs = []
    for k in range(int(rng.integers(2, 5))):
        n = gen.pick(rng, ['in', 'data'])
        prefix = gen.pick(rng, ['in', 'data', 'out', 'in_P', 'out_C', 'dat'])
        groups = [clirun.flags(rng, gen.pick(rng, gen.CONTRIBUTION_SETS)), [n + '.xyz'], ['--max_temp', '%d' % rng.integers(1, 20)]]
        if rng.random() < 0.7:
            groups.append(['--out_file', prefix])
        else:
            prefix = n
        own = [prefix + '_P.dat', prefix + '_C.dat']
        if rng.random() < 0.3:
            f = gen.pick(rng, ['svg', 'png'])
            groups += [['--plot'], ['--plot_format', f]]
            own += [prefix + '_P.' + f, prefix + '_C.' + f]
        argvs.append(clirun.interleave(rng, groups))
        r = clirun.run(ctx, argvs[-1], d)
        ctx.check(r.status == 0, 'a valid request failed: %s' % (r.raised or r.err[-200:]))
        touched = set(r.new) | set(r.gone) | set(r.changed)
        ctx.check(not r.refused and touched <= set(own), 'run %d changed %s; its own files are %s' % (k, sorted(touched - set(own)) or r.refused, own))
        for p in own:
            ctx.check(os.path.isfile(os.path.join(d, p)), 'run %d did not write %s' % (k, p))
    ctx.count('runs_in_sequence', len(argvs))
    return digest(argvs)


def informational(ctx, rng):
    """Help and version: text, success and no files, whatever else is asked."""
    top = ctx.tmpdir()
    path = os.path.join(top, 'in.xyz')
    xyz.write(path, rng, xyz.random_isomers(rng, N=2, D=3, natoms=2), plain=True)
    option = gen.pick(rng, ['--help', '-h', '--version'])
    groups = [[option]]
    if rng.random() < 0.6:
        groups += [clirun.flags(rng, gen.pick(rng, gen.CONTRIBUTION_SETS)), [path], ['--plot'] if rng.random() < 0.5 else []]
    argv = clirun.interleave(rng, groups)
    r = clirun.run(ctx, argv, top, watch=top, process=rng.random() < 0.1)
    ctx.check(not (r.refused or r.new or r.gone or r.changed), '%s changed files: %s' % (option, (r.refused or r.new or r.gone or r.changed)[:3]))
    ctx.check(r.status == 0 and not r.raised, '%s ended with status %s: %s' % (option, r.status, r.raised or r.err[-200:]))
    if option == '--version':
        import occuprob
        ctx.check(occuprob.__version__ in r.out, 'the version printed is %r, that of the package %r' % (r.out, occuprob.__version__))
    else:
        lacking = [o for o in ('-e', '-s', '-c', '-q', '-r', '-E', '-S', '-C', '-Q', '-R', '--out_file', '--plot_format', '--min_temp', '--max_temp', '--plot', '--size', '--version', 'in_file') if o not in r.out]
        ctx.check(not lacking, 'the help does not mention %s' % lacking)
    ctx.count('informational_runs')
    return digest(argv[:-1], option)


STREAMS = [Stream('informational', informational, 20, 300), Stream('in_process', in_process, 260, 4000), Stream('real_process', real_process, 1, 20), Stream('repeated', repeated, 15, 400)]
