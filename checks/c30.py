"""C30: animations."""
import os
import shutil
import numpy as np
import matplotlib.image as mgimg
from matplotlib import animation
from vlib import gen
from vlib.boot import plt, routines

N = {'quick': 900, 'thorough': 12000}
CHUNK = 5
RULE = ('random asymmetric pictures in the folder, with numbers of one to '
        'three digits and others before and after those asked for; a '
        'stand-in for the movie writer records what each frame shows, and '
        '(every 8th case) how it is drawn. Distinct by pictures and '
        'numbers.')
MIN = {'animations': 80, 'frames': 280, 'drawn': 40, 'two_digits': 50}
ASSUMPTIONS = ['a stand-in takes the place of ffmpeg, so that the encoding '
               'of the movie is not looked at']


class Shot:
    def __init__(self, fig, draw):
        self.seen = []
        for ax in fig.axes:
            for im in ax.images:
                if not im.get_visible():
                    continue
                a = np.array(im.get_array())
                l, r, b, t = im.get_extent()
                y0, y1 = (t, b) if im.origin == 'upper' else (b, t)
                up = ax.get_ylim()[1] > ax.get_ylim()[0]
                if (y0 > y1) != up:     # first row is at the bottom
                    a = a[::-1]
                if (r > l) != (ax.get_xlim()[1] > ax.get_xlim()[0]):
                    a = a[:, ::-1]
                self.seen.append(a)
        self.pixels = None
        if draw:
            fig.canvas.draw()
            self.pixels = np.asarray(fig.canvas.buffer_rgba()).copy()
            ax = fig.axes[0]
            im = ax.images[0]
            w = im.get_window_extent()
            self.box = (w.x0, w.x1, w.y0, w.y1)


class Writer(animation.AbstractMovieWriter):
    shots, files, draw = [], [], False

    @classmethod
    def isAvailable(cls):
        return True

    def __init__(self, *a, **kw):
        kw.pop('extra_args', None)
        animation.AbstractMovieWriter.__init__(
            self, kw.get('fps', 5), metadata=kw.get('metadata'),
            codec=kw.get('codec'), bitrate=kw.get('bitrate'))

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile = fig, outfile
        self.dpi = dpi or fig.dpi

    def grab_frame(self, **kw):
        Writer.shots.append(Shot(self.fig, Writer.draw))

    def finish(self):
        Writer.files.append(os.fspath(self.outfile))
        with open(self.outfile, 'wb') as f:
            f.write(b'movie')


def case(c):
    rng = c.rng
    home = os.getcwd()
    place = os.path.join(home, 'c30-%d' % c.idx)
    os.makedirs(os.path.join(place, 'figs'))
    first = int(rng.choice([0, 0, 1, 7, 9, 98]))
    n = gen.size(rng, 1, 6, 25, .04)
    last = first + n
    draw = c.idx % 8 == 0
    pics = {}
    L, W = int(rng.integers(8, 30)), int(rng.integers(8, 40))
    for k in range(max(0, first - 2), last + 2):
        a = rng.integers(0, 256, (L, W, 4)).astype(np.uint8)
        if draw:
            # quarters of one color each
            q = rng.integers(0, 2, (2, 2, 3))*200 + rng.integers(0, 40, (
                2, 2, 3))
            a[..., :3] = np.kron(q, np.ones((L//2 + 1, W//2 + 1, 1)))[:L, :W]
        a[..., 3] = 255
        f = os.path.join(place, 'figs', 'output%d.png' % k)
        mgimg.imsave(f, a)
        pics[k] = mgimg.imread(f)
    os.makedirs(os.path.join(place, 'data'))
    if rng.random() < .25:      # of an earlier time
        with open(os.path.join(place, 'animation.mp4'), 'wb') as f:
            f.write(b'old movie')
    rel = rng.random() < .3
    if rel:
        os.chdir(place)
    Writer.shots, Writer.files, Writer.draw = [], [], draw
    reg = animation.writers._registered
    saved = reg.get('ffmpeg')
    animation.writers.register('ffmpeg')(Writer)
    before = sorted(os.listdir(os.path.join(place, 'figs')))
    c.desc = dict(first=first, last=last, shape=(L, W))
    try:
        routines.animate_plots(first, last, '.' if rel else place)
        c.check(len(Writer.files) == 1, 'animations written',
                files=Writer.files)
        c.check(os.path.realpath(os.path.dirname(os.path.abspath(
            Writer.files[0]))) == os.path.realpath(place),
            'the animation is not in the folder', file=Writer.files[0])
        c.check(sorted(os.listdir(os.path.join(place, 'figs'))) == before,
                'the figures saved have changed')
    finally:
        if saved is not None:
            reg['ffmpeg'] = saved
        os.chdir(home)
        shutil.rmtree(place, True)
    c.check(len(Writer.shots) == n, 'number of frames', got=len(
        Writer.shots), want=n)
    for k, s in zip(range(first, last), Writer.shots):
        c.check(len(s.seen) == 1, 'pictures in a frame', n=len(s.seen))
        a = s.seen[0]
        if a.shape != pics[k].shape or not np.allclose(a, pics[k]):
            others = [j for j in pics if a.shape == pics[j].shape and
                      np.allclose(a, pics[j])]
            flip = a.shape == pics[k].shape and np.allclose(a[::-1], pics[k])
            c.fail('a frame does not show its figure', frame=k,
                   shows=others, upside_down=flip)
        c.check(True, '')
        c.count('frames')
        c.count('two_digits', k > 9)
        if s.pixels is not None:
            x0, x1, y0, y1 = s.box
            H = s.pixels.shape[0]
            for u in (.2, .8):
                for v in (.2, .8):      # from the top
                    px = s.pixels[int(H - (y1 - v*(y1 - y0))),
                                  int(x0 + u*(x1 - x0)), :3]/255.
                    want = pics[k][int(v*L), int(u*W), :3]
                    c.check(np.all(np.abs(px - want) < .03), 'a frame is '
                            'drawn differently', frame=k, at=(u, v), got=px,
                            want=want)
            c.count('drawn')
    c.count('animations')
    c.sig(first, last, pics[first])
    c.sample(dict(first=first, last=last, shape=(L, W)))
