"""Recording of what figures show when they are saved."""
import contextlib
import os
import numpy as np
import matplotlib.figure
from matplotlib.colors import to_rgba
from matplotlib.collections import PathCollection, LineCollection
from .boot import plt

_real = matplotlib.figure.Figure.savefig


class Fig:
    """What a figure showed."""

    def __init__(self, fig, fname=None):
        self.fname = None if fname is None else os.fspath(fname)
        self.images, self.points, self.segments, self.lines = [], [], [], []
        self.colors, self.titles, self.xlabels, self.limits = [], [], [], []
        self.seg_colors, self.faces, self.legend = [], [], {}
        for ax in fig.axes:
            self.axes(ax)

    def axes(self, ax):
        for im in ax.images:
            ext = [float(v) for v in im.get_extent()]
            self.images.append((np.ma.getdata(im.get_array()).copy()
                                if not np.ma.isMaskedArray(im.get_array())
                                else im.get_array().filled(np.nan)
                                if im.get_array().dtype.kind == 'f'
                                else np.array(im.get_array()), ext,
                                im.origin))
        for co in ax.collections:
            if isinstance(co, PathCollection):
                off = np.array(np.ma.getdata(co.get_offsets()), float)
                arr = co.get_array()
                self.points.append(off.reshape(-1, 2))
                self.colors.append(None if arr is None else
                                   np.array(np.ma.getdata(arr), float))
                self.faces.append(np.array(co.get_facecolor(), float))
            elif isinstance(co, LineCollection):
                new = [np.array(s, float) for s in co.get_segments()]
                self.segments += new
                rgba = np.array(co.get_colors(), float)
                self.seg_colors += [rgba[k % len(rgba)] if len(rgba) else
                                    None for k in range(len(new))]
        for ln in ax.lines:
            x, y = np.array(ln.get_xdata(), float), np.array(
                ln.get_ydata(), float)
            self.lines.append((x, y, ln.get_drawstyle(), ln.get_marker()))
        if ax.get_legend() is not None:
            lg = ax.get_legend()
            hs = getattr(lg, 'legend_handles', None) or lg.get_lines()
            for t, h in zip(lg.get_texts(), hs):
                if hasattr(h, 'get_color'):
                    self.legend[t.get_text()] = to_rgba(h.get_color())
        self.titles.append(ax.get_title())
        self.xlabels.append(ax.get_xlabel())
        self.limits.append((ax.get_xlim(), ax.get_ylim()))

    def has_points(self, x, y):
        """Index of a set of markers at x (across) and y (down), or None."""
        want = np.array([x, y], float).T.reshape(-1, 2)
        for k, p in enumerate(self.points):
            if p.shape == want.shape and np.array_equal(p, want):
                return k
        w = want[np.lexsort(want.T)]
        for k, p in enumerate(self.points):
            if p.shape == want.shape and np.array_equal(
                    p[np.lexsort(p.T)], w) and self.colors[k] is None:
                return k
        for k, (a, b, _, m) in enumerate(self.lines):
            if m not in (None, 'None', '', ' ') and np.array_equal(
                    np.array([a, b]).T, want):
                return -1 - k
        return None

    def has_image(self, a):
        """Whether the array is drawn, its first cell centered at 0, 0."""
        for im, ext, origin in self.images:
            im = np.asarray(im)
            if im.shape == a.shape and im.dtype.kind in 'fiub' and \
                    np.array_equal(np.asarray(im, float),
                                   np.asarray(a, float), equal_nan=True):
                L, W = a.shape[:2]
                # extents are left, right, bottom, top
                if origin == 'upper' and np.allclose(
                        ext, [-.5, W - .5, L - .5, -.5]):
                    return True
                if origin == 'lower' and np.allclose(
                        ext, [-.5, W - .5, -.5, L - .5]):
                    return True
        return False


@contextlib.contextmanager
def recorded(draw=False):
    """Record saved figures; with `draw`, draw them too (coarsely)."""
    out = []

    def savefig(self, fname, *a, **kw):
        out.append(Fig(self, fname))
        if draw:
            kw['dpi'] = 25
            return _real(self, fname, *a, **kw)
        with open(fname, 'wb') as f:
            f.write(b'figure')

    matplotlib.figure.Figure.savefig = savefig
    try:
        yield out
    finally:
        matplotlib.figure.Figure.savefig = _real
        plt.close('all')


def tree(folder):
    """All files in a folder, with their sizes."""
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, folder)] = os.path.getsize(p)
        out[os.path.relpath(d, folder) + '/'] = 0
    return out
