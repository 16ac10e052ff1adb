"""C25: figures show the computed data."""
import gzip
import os
import re
import struct

import matplotlib.colors
import numpy as np

import occuprob as op
from rtm import clirun, gen, xyz
from rtm.core import Stream, digest

RULE = ('Tables of 1-60 curves and 1-400 temperatures (0 and large values, zeros, negative, flat, equal rows), labels, limits, widths, reference lines, sizes and '
        'seven formats, and command line runs. A monitor on FigureCanvasBase.print_figure reads every figure at the moment it is written (curves, labels, legend, limits, size) and '
        'the size and format are read again from the file. Distinct by hash of the data.')


class Tap:
    """State of every figure at the moment it is written."""

    def __init__(self, ctx):
        self.ctx, self.seen, self.depth = ctx, [], 0

    def __enter__(self):
        from matplotlib.backend_bases import FigureCanvasBase
        self.owner = FigureCanvasBase
        self.original = FigureCanvasBase.print_figure
        tap = self

        def print_figure(canvas, filename, *args, **kwargs):
            outer = tap.depth == 0
            tap.depth += 1
            try:
                result = tap.original(canvas, filename, *args, **kwargs)
                if outer:
                    tap.seen.append(tap.capture(canvas.figure, filename))
                return result
            finally:
                tap.depth -= 1
        FigureCanvasBase.print_figure = print_figure
        return self

    def __exit__(self, *exc):
        import matplotlib.pyplot as plt
        self.owner.print_figure = self.original
        plt.close('all')

    def capture(self, fig, filename):
        self.ctx.count('figures_observed')
        axes = []
        for ax in fig.axes:
            curves = []
            for line in ax.get_lines():
                # what is masked is not drawn
                x, y = (np.array(np.ma.filled(np.ma.asarray(v).astype(float), np.nan)) for v in (line.get_xdata(), line.get_ydata()))
                visible = (line.get_visible() and (line.get_alpha() is None or line.get_alpha() > 0) and
                           ((line.get_linestyle() not in ('None', '', ' ') and line.get_linewidth() > 0) or line.get_marker() not in ('None', None, '', ' ')))
                steps = not str(line.get_drawstyle()).startswith('default') and line.get_linestyle() not in ('None', '', ' ')
                curves.append({'x': x, 'y': y, 'label': line.get_label(), 'visible': visible, 'data': line.get_transform().contains_branch(ax.transData), 'steps': steps,
                               'style': style(line), 'seen': style(line)[0] != matplotlib.colors.to_rgba(ax.get_facecolor()),
                               'placed': placed(ax, x, y)})
            legend = ax.get_legend()
            axes.append({'curves': curves, 'xlim': ax.get_xlim(), 'ylim': ax.get_ylim(), 'ylabel': ax.get_ylabel(),
                         'legend': [t.get_text() for t in legend.get_texts()] if legend else None,
                         'keys': [style(h) for h in legend.legend_handles if hasattr(h, 'get_linestyle') and hasattr(h, 'get_color')] if legend else None})
        filename = getattr(filename, 'name', filename)
        return {'axes': axes, 'size': tuple(fig.get_size_inches()), 'file': filename}


def style(line):
    try:
        return matplotlib.colors.to_rgba(line.get_color(), line.get_alpha()), str(line.get_linestyle())
    except (ValueError, TypeError):
        return str(line.get_color()), str(line.get_linestyle())


def placed(ax, x, y):
    """Whether every (finite) point of the curve has a place in the figure, further right for higher temperatures."""
    ok = np.isfinite(x) & np.isfinite(y) if x.shape == y.shape else np.zeros(0, bool)
    if ok.sum() < 2:
        return True
    with np.errstate(all='ignore'):
        at = ax.transData.transform(np.column_stack([x[ok], y[ok]]))
    order = np.argsort(x[ok], kind='stable')
    return bool(np.isfinite(at).all()) and bool((np.diff(at[order, 0]) >= -1e-6 * np.abs(at[:, 0]).max()).all() or (np.diff(at[order, 0]) <= 1e-6 * np.abs(at[:, 0]).max()).all())


def flat(c):
    return c['y'].size and (c['y'] == c['y'][0]).all()


def check_figure(ctx, fig, T, rows, labels, what):
    """One curve per row, in order; anything else must be a horizontal reference line."""
    ctx.check(len(fig['axes']) == 1, '%s has %d axes' % (what, len(fig['axes'])))
    ax = fig['axes'][0]
    T, rows = np.asarray(T, float), np.asarray(rows, float)
    k, found = 0, []
    for c in ax['curves']:
        if k < len(rows) and c['x'].shape == T.shape and c['y'].shape == T.shape and (c['x'] == T).all() and (c['y'] == rows[k]).all():
            found.append(c)
            k += 1
        else:
            ctx.check(flat(c), '%s has a curve that is not row %d of the results' % (what, k),
                      curve_x=c['x'], curve_y=c['y'], T=T, row=rows[k] if k < len(rows) else None)
    ctx.check(k == len(rows), '%s has %d curves for %d rows' % (what, k, len(rows)), T=T, rows=rows)
    for c in found:
        ctx.check(c['visible'] and c['seen'] and c['placed'] and c['data'] and not c['steps'], '%s has a curve that is not drawn as it is' % what)
    if labels:
        got = [c['label'] for c in found]
        ctx.check(got == list(labels), '%s has the curves labelled %s instead of %s' % (what, got, labels))
        ctx.check(ax['legend'] == list(labels), '%s has the legend %s instead of %s' % (what, ax['legend'], labels))
        if ax['keys'] and len(ax['keys']) == len(found):
            ctx.check([k[0] for k in ax['keys']] == [c['style'][0] for c in found], '%s has a legend with other colours than the curves' % what)
            ctx.count('legend_keys_compared', len(found))
    if T.size > 1 and T[0] != T[-1]:
        ctx.check(sorted(ax['xlim']) == sorted((T[0], T[-1])), '%s covers %s instead of %s' % (what, ax['xlim'], (T[0], T[-1])))
    ctx.count('curves_compared', k)
    return ax


def file_size(path, fmt, dpi):
    """Size in inches of the image in the file, or None; also checks the format."""
    data = open(path, 'rb').read()
    if fmt == 'svgz':
        data, fmt = gzip.decompress(data), 'svg'
    if fmt == 'svg':
        m = re.search(rb'<svg [^>]*?height="([\d.]+)pt"[^>]*?', data)
        n = re.search(rb'<svg [^>]*?width="([\d.]+)pt"', data)
        return (float(n.group(1)) / 72, float(m.group(1)) / 72) if m and n else 'not a SVG file'
    if fmt == 'png':
        if data[:8] != b'\x89PNG\r\n\x1a\n':
            return 'not a PNG file'
        w, h = struct.unpack('>II', data[16:24])
        return w / dpi, h / dpi
    if fmt == 'pdf':
        if data[:5] != b'%PDF-':
            return 'not a PDF file'
        m = re.search(rb'/MediaBox \[ *0 0 ([\d.]+) ([\d.]+) *\]', data)
        return (float(m.group(1)) / 72, float(m.group(2)) / 72) if m else None
    magic = {'jpg': b'\xff\xd8\xff', 'jpeg': b'\xff\xd8\xff', 'eps': b'%!PS-Adobe', 'ps': b'%!PS-Adobe', 'tiff': (b'II', b'MM'), 'tif': (b'II', b'MM')}[fmt]
    return None if data.startswith(magic) else 'not a %s file' % fmt.upper()


def check_file(ctx, path, fmt, size, fig, what):
    import matplotlib
    ctx.check(os.path.isfile(path) and os.path.getsize(path) > 0, '%s was not written to %s' % (what, os.path.basename(path)))
    ctx.check(np.allclose(fig['size'], size, rtol=1e-9), '%s has size %s instead of %s' % (what, fig['size'], size))
    dpi = matplotlib.rcParams['savefig.dpi']
    dpi = matplotlib.rcParams['figure.dpi'] if dpi == 'figure' else dpi
    got = file_size(path, fmt, dpi)
    ctx.check(not isinstance(got, str), '%s: %s' % (what, got))
    if got is not None:
        # the aspect ratio holds whatever the resolution; pixels are whole
        tol = 0.02 if fmt != 'png' else 0.02 + 2 / dpi
        if fmt == 'png':
            ctx.check(abs(got[0] * size[1] - got[1] * size[0]) <= (size[0] + size[1]) * 2.5 / dpi, '%s: the image in the file is %s in for %s' % (what, got, size))
        else:
            ctx.check(abs(got[0] - size[0]) <= tol and abs(got[1] - size[1]) <= tol, '%s: the image in the file is %s in for %s' % (what, got, size))
    ctx.count('images_' + fmt)


def only(ctx, tap, path, what, rows):
    """The figure written to path; it must be written exactly there."""
    figs = [f for f in tap.seen if isinstance(f['file'], (str, os.PathLike)) and os.path.abspath(os.fspath(f['file'])) == os.path.abspath(path)]
    if not figs:        # written elsewhere or through a buffer: the figure with most of the rows has to be the one
        figs = sorted(tap.seen, key=lambda f: sum(any(c['y'].shape == np.shape(r) and (c['y'] == np.asarray(r, float)).all() for a in f['axes'] for c in a['curves']) for r in rows))
    ctx.check(len(figs) >= 1, '%s: no figure was written' % what)
    return figs[-1]


FORMATS = ['svg', 'svg', 'svg', 'png', 'png', 'pdf', 'jpg', 'svgz', 'eps']
SIZES = [(8., 6.), (6., 4.), (4., 3.), (3.5, 2.5), (10, 5), (5., 8.), [7., 5.], (12., 3.), (1.5, 3.), (1.8, 1.4), (2.5, 2.), (20., 15.)]


def table(rng):
    M = int(gen.pick(rng, [1, 2, 2, 3, 5, 20, 101, 400]))
    N = int(gen.pick(rng, [1, 1, 2, 3, 3, 5, 12, int(rng.integers(13, 60))]))
    if N > 12:
        M = min(M, 20)
    mode = gen.pick(rng, ['grid', 'int', 'log', 'random', 'N'])
    if mode == 'grid':
        T = float(rng.integers(0, 300)) + np.arange(M) * gen.pick(rng, [1., 0.5, 10.])
    elif mode == 'int':
        T = np.arange(M) * int(rng.integers(1, 20))
    elif mode == 'log':
        T = np.sort(10. ** rng.uniform(0, 4, M))
    elif mode == 'N':
        T = np.linspace(0, 500, N)      # as many temperatures as curves
    else:
        T = np.sort(rng.uniform(0, 1000, M))
    M = T.size
    R = rng.random((N, M))
    kind = gen.pick(rng, ['unit', 'unit', 'large', 'signed', 'flat', 'equal', 'tiny', 'step', 'long'])
    if kind == 'large':
        R = R * 10. ** rng.uniform(1, 5)
    elif kind == 'signed':
        R = rng.normal(size=(N, M)) * 30
    elif kind == 'flat' and M > 2:
        R = np.repeat(rng.integers(0, 2, (N, 1)).astype(float), M, axis=1)
    elif kind == 'equal':
        R = np.repeat(rng.random((1, M)), N, axis=0)
    elif kind == 'tiny':
        R = R * 1e-9
    elif kind == 'step':
        R = (R > 0.5).astype(float)
    elif kind == 'long':
        R = R.astype(np.longdouble)
    return gen.layout(rng, T), gen.layout(rng, R)


def library(ctx, rng):
    d = ctx.tmpdir()
    sig = []
    for k in range(int(rng.integers(1, 4))):        # several figures in a row
        T, R = table(rng)
        N = len(R)
        fmt = gen.pick(rng, FORMATS)
        path = os.path.join(d, gen.pick(rng, ['fig%d', 'figure.%d', 'a fig%d', 'data_%d']) % k + '.' + fmt)
        opts, size, labels = {}, (8., 6.), None
        if rng.random() < 0.5:
            size = opts['size'] = gen.pick(rng, SIZES)
        if rng.random() < 0.5:
            labels = opts['labels'] = gen.pick(rng, [['Isomer %d' % (i + 1) for i in range(N)], [chr(65 + (7 * i) % 26) + str(i) for i in range(N)], ['same'] * N,
                                                     [r'$P_{%d}$' % (N - i) for i in range(N)]])
        if rng.random() < 0.3:
            opts['linewidth'] = gen.pick(rng, [1, 0.5, 4])
        if rng.random() < 0.3:
            opts['hline_pos'] = gen.pick(rng, [[0, 1], [], [0.5], [-1., 2., 3.]])
        if rng.random() < 0.4:
            opts['ylims'] = gen.pick(rng, [(-0.05, 1.05), (0., 100.), (-7., 7.)])
        if rng.random() < 0.5:
            opts['ylabel'] = gen.pick(rng, ['Energy [eV]', r'$\langle B \rangle$'])
        old = (T.tobytes(), R.tobytes())
        ctx.note.update(options=opts, T=T, results=R, format=fmt, number=k)
        with Tap(ctx) as tap:
            op.plot_results(R, T, path, **opts)
        what = 'figure %d (%s)' % (k, fmt)
        fig = only(ctx, tap, path, what, R)
        ax = check_figure(ctx, fig, T, R, labels, what)
        check_file(ctx, path, fmt, size, fig, what)
        if 'ylims' in opts:
            ctx.check(tuple(ax['ylim']) == opts['ylims'], '%s has the vertical limits %s instead of %s' % (what, ax['ylim'], opts['ylims']))
        if 'ylabel' in opts:
            ctx.check(ax['ylabel'] == opts['ylabel'], '%s has the label %s' % (what, ax['ylabel']))
        ctx.check((T.tobytes(), R.tobytes()) == old, '%s: the results were modified' % what)
        sig.append(digest(T, R, str(opts), fmt))
    ctx.sample({'options': opts, 'T': T, 'N': N, 'format': fmt})
    return digest(sig)


def piled(ctx, rng):
    """Figures left open by the caller or by earlier calls do not leak into the next one."""
    import matplotlib.pyplot as plt
    d = ctx.tmpdir()
    with Tap(ctx) as tap:
        if rng.random() < 0.5:
            plt.figure(figsize=(3, 3))
            plt.plot([0, 1, 2], [5, 1, 7], label='foreign')
        n = int(rng.integers(2, 5))
        for k in range(n):
            T, R = table(rng)
            path = os.path.join(d, 'f%d.%s' % (k, gen.pick(rng, ['png', 'svg'])))
            labels = ['curve %d.%d' % (k, i) for i in range(len(R))]
            ctx.note.update(T=T, results=R, number=k)
            op.plot_results(R, T, path, labels=labels)
            fig = only(ctx, tap, path, 'figure %d of a series' % k, R)
            check_figure(ctx, fig, T, R, labels, 'figure %d of a series' % k)
    ctx.count('figures_in_series', n)
    return digest(T, R, n)


def command(ctx, rng):
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    N = int(gen.pick(rng, [1, 2, 3, 5, 11, int(rng.integers(12, 30))]))
    isomers = xyz.random_isomers(rng, N=N, D=int(gen.pick(rng, [1, 3, 9, 30])), natoms=3)
    xyz.write(path, rng, isomers)
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    lo = float(gen.pick(rng, [0, 0, 1, 17, 250, 0.5]))
    hi = lo + float(gen.pick(rng, [2, 3, 10, 60, 500, 1500, 7.3]))
    groups = [clirun.flags(rng, kinds), [path], ['--min_temp', repr(lo)], ['--max_temp', repr(hi)], ['--plot']]
    size, fmt = (8., 6.), 'svg'
    if rng.random() < 0.6:
        size = tuple(gen.pick(rng, SIZES))
        groups.append(['--size', '%g' % size[0], '%g' % size[1]])
    if rng.random() < 0.6:
        given = gen.pick(rng, ['png', 'PNG', 'svg', 'SVG', 'pdf', 'png', 'jpg'])
        fmt = given.lower()
        groups.append(['--plot_format', given])
    argv = clirun.interleave(rng, groups)
    ctx.note.update(kinds=kinds, file=open(path).read()[:1000])
    with Tap(ctx) as tap:
        r = clirun.run(ctx, argv, d)
        ctx.check(r.status == 0, 'a valid request ended with status %s: %s' % (r.status, r.raised or r.err[-200:]))
        props = op.load_properties_from_extxyz(path)
        sa = gen.Landscape(kinds, props['energy'], props['multiplicity'], props['frequencies'], props['moments'], props['symmetry']).build()
        for key in 'PC':
            what = 'figure _%s of the command line' % key
            t = np.array([[float(x) for x in row] for row in clirun.read_table(path[:-4] + '_%s.dat' % key)]).T
            image = path[:-4] + '_%s.%s' % (key, fmt)
            fig = only(ctx, tap, image, what, t[1:])
            # the curves are the numbers of the table and of the library
            rows = np.asarray(sa.calc_probability(t[0]) if key == 'P' else sa.calc_heat_capacity(t[0]), float)
            ctx.check(rows.shape == t[1:].shape and np.allclose(rows, t[1:], rtol=1e-9, atol=1e-12), '%s: the table is not the result of the library' % what)
            labels = ['Isomer %d' % (i + 1) for i in range(N)] if key == 'P' else None
            ax = check_figure(ctx, fig, t[0], t[1:], labels, what)
            bottom, top = sorted(ax['ylim'])
            ctx.check(t[1:].min() >= bottom and t[1:].max() <= top, '%s has the vertical limits %s for values in [%r, %r]' % (
                what, ax['ylim'], float(t[1:].min()), float(t[1:].max())))
            check_file(ctx, image, fmt, size, fig, what)
    ctx.sample({'argv': argv, 'ylim_C': ax['ylim']})
    return digest(argv[:-1], open(path).read())


STREAMS = [Stream('library', library, 36, 1500), Stream('piled', piled, 8, 400), Stream('command', command, 24, 900)]
