"""A drawing board that records instead of painting.

Stands in for the plotting library, symbolically and natively: every circle,
line, arrow and label is kept with its coordinates for as long as it is on the
picture.
"""

import types

import numpy as np


class Artist:
    board = None
    kind = 'artist'

    def put(self, board):
        if self not in board.live:
            board.live.append(self)
        self.board = board

    def remove(self):
        if self.board is None or self not in self.board.live:
            raise ValueError('not on the picture')
        self.board.live.remove(self)

    def __getattr__(self, n):
        # anything set or asked for decoration only
        if n.startswith('set_') or n.startswith('get_'):
            return lambda *a, **k: None
        raise AttributeError(n)


class Path:
    def __init__(self, vertices, codes=None):
        self.vertices, self.codes = vertices, codes


class Scale:
    def __init__(self, board, centre, radius):
        self.board, self.centre, self.radius = board, centre, radius

    def transform_path(self, path):
        return Path(self.transform(path.vertices), path.codes)

    def transform(self, verts):
        return self.board.array([[self.centre[0] + self.radius * v[0], self.centre[1] + self.radius * v[1]]
                                 for v in verts])


class Circle(Artist):
    kind = 'disc'

    def __init__(self, xy, radius=5, **k):
        self.xy, self.radius, self.style = xy, radius, k

    def get_path(self):
        return Path(np.array([[1, 0], [0, 1], [-1, 0], [0, -1]]))

    def get_patch_transform(self):
        return Scale(BOARD[0], self.xy, self.radius)

    def get_facecolor(self):
        return self.style.get('facecolor')


class PathPatch3D(Artist):
    kind = 'disc'

    def set_3d_properties(self, verts, zs=0, zdir='z'):
        self._segment3d = [list(v) + [zs] for v in verts]


class FancyArrowPatch(Artist):
    kind = 'arrow'

    def __init__(self, posA=None, posB=None, *a, **k):
        self.style = k

    def draw(self, renderer):
        pass


class Line(Artist):
    kind = 'line'

    def __init__(self, xs, ys, zs, a, k):
        self.ends = [list(p) for p in zip(xs, ys, zs)]
        self.style = (a, k)


class Text(Artist):
    kind = 'text'

    def __init__(self, x, y, z, s):
        self.at, self.s = [x, y, z], s


BOARD = [None]
ANY = lambda *a, **k: None


class Axes:
    def __init__(self, board, elev=30, azim=-60):
        self.board, self.elev, self.azim = board, elev, azim

    def view_init(self, elev=None, azim=None, **k):
        self.elev, self.azim = elev, azim

    def add_patch(self, p):
        p.put(self.board)
        return p
    add_artist = add_line = add_patch

    def plot(self, xs, ys, zs, *a, **k):
        line = Line(xs, ys, zs, a, k)
        line.put(self.board)
        return [line]
    plot3D = plot

    def text(self, x, y, z, s, *a, **k):
        t = Text(x, y, z, s)
        t.put(self.board)
        return t
    text3D = text

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return ANY


class Board:
    """One picture."""

    def __init__(self, api, elev=30, azim=-60):
        self.api, self.live, self.pending = api, [], []
        self.array = api.arr
        self.ax = Axes(self, elev, azim)
        self.after_frame = []
        BOARD[0] = self

    def modules(self):
        plt = types.ModuleType('matplotlib.pyplot')
        fig = types.SimpleNamespace(add_subplot=lambda *a, **k: self.ax, tight_layout=ANY, set_size_inches=ANY,
                                    savefig=ANY, canvas=None)
        plt.figure = lambda *a, **k: fig
        plt.plot = self.ax.plot
        plt.gca = lambda *a, **k: self.ax
        plt.axes = lambda *a, **k: self.ax
        plt.gcf = lambda *a, **k: fig
        plt.show = lambda *a, **k: self.show()
        for n in ('close', 'clf', 'pause', 'draw', 'savefig', 'title', 'tight_layout', 'ion', 'ioff'):
            setattr(plt, n, ANY)
        patches = types.ModuleType('matplotlib.patches')
        patches.Circle, patches.FancyArrowPatch = Circle, FancyArrowPatch
        art3d = types.ModuleType('mpl_toolkits.mplot3d.art3d')
        art3d.PathPatch3D = PathPatch3D
        proj3d = types.ModuleType('mpl_toolkits.mplot3d.proj3d')

        def project(xs, ys, zs, M):
            self.projected.extend([list(p) for p in zip(xs, ys, zs)])
            return xs, ys, zs
        proj3d.proj_transform = project
        three = types.ModuleType('mpl_toolkits.mplot3d')
        three.art3d, three.proj3d, three.Axes3D = art3d, proj3d, Axes
        animation = types.ModuleType('matplotlib.animation')

        board = self

        class FuncAnimation:
            def __init__(self, fig, func, frames=None, init_func=None, fargs=None, **k):
                self.func, self.init, self.fargs = func, init_func, list(fargs or [])
                self.frames = range(frames) if isinstance(frames, int) else frames
                board.pending.append(self)

            def play(self):
                if self in board.pending:
                    board.pending.remove(self)
                if self.init is not None:
                    self.init()
                for f in self.frames:
                    self.func(f, *self.fargs)
                    board.after_frame.append((f, list(board.live)))

            def save(self, *a, **k):
                self.play()
        animation.FuncAnimation = FuncAnimation
        animation.FFMpegWriter = ANY
        mpl = types.ModuleType('matplotlib')
        mpl.pyplot, mpl.patches, mpl.animation, mpl.use = plt, patches, animation, ANY
        mpl.rcParams = plt.rcParams = {}
        mpl.pylab = plt
        top = types.ModuleType('mpl_toolkits')
        top.mplot3d = three
        return {'matplotlib': mpl, 'matplotlib.pyplot': plt, 'matplotlib.pylab': plt, 'pylab': plt, 'matplotlib.patches': patches,
                'matplotlib.animation': animation, 'mpl_toolkits': top, 'mpl_toolkits.mplot3d': three,
                'mpl_toolkits.mplot3d.art3d': art3d, 'mpl_toolkits.mplot3d.proj3d': proj3d}

    def show(self):
        for a in list(self.pending):
            a.play()

    # -- what is on the picture -----------------------------------------------------
    def of(self, kind, live=None):
        return [a for a in (self.live if live is None else live) if a.kind == kind]

    def arrow(self, a):
        """The points in space a drawn arrow runs through."""
        self.projected = []
        a.draw(types.SimpleNamespace(M=None))
        return self.projected
