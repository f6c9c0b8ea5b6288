"""What is drawn, saved and shown, observed at matplotlib's interface."""
import contextlib
import io
import os

import numpy as np

import env  # noqa: F401
import matplotlib
import matplotlib.animation
import matplotlib.figure
import matplotlib.pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg


def lines(axes):
    return [(str(l.get_label()), np.atleast_1d(np.asarray(l.get_xdata(), float)), np.atleast_1d(np.asarray(l.get_ydata(), float)))
            for l in axes.get_lines()]


def snapshot(figure):
    """Curves, legend, visible range and texts of all axes."""
    out = []
    for ax in figure.axes:
        legend = ax.get_legend()
        out.append(dict(lines=lines(ax), legend=[t.get_text() for t in legend.get_texts()] if legend else [],
                        limits=sorted(map(float, ax.get_ylim())), texts=[t.get_text() for t in ax.texts]))
    return out


class Gallery:
    """Everything that has been saved or shown."""

    def __init__(self):
        self.saved, self.windows, self.frames, self.films = [], 0, [], []
        self.watch, self.seen = lambda: None, []  # what there was to see whenever something is saved


GALLERY = [Gallery()]


class Film(matplotlib.animation.AbstractMovieWriter):
    """Records the frames it is given instead of encoding them."""

    def __init__(self, fps=5, *args, **kwargs):
        super().__init__(fps=fps)

    @classmethod
    def isAvailable(cls):
        return True

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile = fig, outfile
        self._dpi = dpi or 72
        self.dpi = self._dpi
        GALLERY[0].frames = []

    def grab_frame(self, **_):
        GALLERY[0].frames.append(snapshot(self.fig))

    def finish(self):
        GALLERY[0].seen.append((str(self.outfile), GALLERY[0].watch()))
        GALLERY[0].films.append((str(self.outfile), self.fps, GALLERY[0].frames))


matplotlib.animation.writers.register("ffmpeg")(Film)


def savefig(figure, target, *args, **kwargs):
    figure.canvas.draw()
    GALLERY[0].saved.append((str(target), snapshot(figure)))
    GALLERY[0].seen.append((str(target), GALLERY[0].watch()))


def show(*_, **__):
    GALLERY[0].windows += 1
    GALLERY[0].saved.extend(("window", snapshot(plt.figure(k))) for k in plt.get_fignums())
    plt.close("all")


@contextlib.contextmanager
def observed():
    """Observe a command: a gallery with what it has said as well."""
    gallery = GALLERY[0] = Gallery()
    draw, drawn = FigureCanvasAgg.draw, []

    def seldom(canvas, *args, **kwargs):  # rendering takes most of the time
        drawn.append(1)
        if len(drawn) < 3:
            draw(canvas, *args, **kwargs)

    FigureCanvasAgg.draw = seldom
    save, shown = matplotlib.figure.Figure.savefig, plt.show
    matplotlib.figure.Figure.savefig, plt.show = savefig, show
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield gallery
    finally:
        matplotlib.figure.Figure.savefig, plt.show = save, shown
        FigureCanvasAgg.draw = draw
        gallery.said, gallery.complaints = out.getvalue(), err.getvalue()
        gallery.left = len(plt.get_fignums())
        plt.close("all")


def endings(paths, wanted):
    """How names differ from the one asked for: '' or '_h' etc.; anything else as it is."""
    stem, extension = os.path.splitext(wanted)
    return [p[len(stem):len(p) - len(extension)] if p.startswith(stem) and p.endswith(extension) else "not " + wanted
            for p in paths]
