"""Reading back what has been drawn."""
import numpy as N


def contents(ax):
    out = dict(lines=[N.array(l.get_xydata(), dtype=float) for l in ax.lines],
               patches=[N.array(p.get_path().vertices, dtype=float) for p in ax.patches],
               offsets=[N.array(c.get_offsets(), dtype=float) for c in ax.collections],
               texts=[t.get_text() for t in ax.texts])
    return out


def figure(fig):
    return [contents(a) for a in fig.axes]
