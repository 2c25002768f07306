"""What a figure shows: its maps, curves, clouds of points and histograms, as whole numbers with the claims its labels make."""
import contextlib, re
import numpy as np

ODD = -99999999          # anything that is not a whole number (no quantity of a world has this value)
NONE = -99


def I(v):
    try:
        v = float(v)
    except (TypeError, ValueError):
        return ODD
    if not np.isfinite(v) or abs(v) > 5e8 or abs(v - round(v)) > 1e-6 * max(1.0, abs(v)):
        return ODD
    return int(round(v))


def L(a):
    return [I(v) for v in np.asarray(a, dtype=float).ravel()]


class Shots:
    """every figure saved (or shown) inside is recorded instead of drawn"""

    def __enter__(self):
        import matplotlib.figure as F
        import matplotlib.pyplot as plt
        self.F, self.plt, self.old, self.olds, self.figs = F, plt, F.Figure.savefig, plt.show, []

        def save(fig, fname, *a, **k):
            self.figs.append(panels(fig))
            with open(fname, "wb") as f:
                f.write(b"\x89PNG\r\n\x1a\n")

        def show(*a, **k):
            self.figs.extend(panels(plt.figure(n)) for n in plt.get_fignums())
        F.Figure.savefig, plt.show = save, show
        return self

    def __exit__(self, *a):
        self.F.Figure.savefig, self.plt.show = self.old, self.olds
        self.plt.close("all")


def role(*texts):
    """the side of the equation a text speaks of"""
    for s in texts:
        s = str(s).lower()
        if "residual" in s:
            return "resid0" if "original" in s else "resid"
        if re.search(r"predict|metadata|\brhs\b|model output", s) and not re.search(r"true|exact|actual", s):
            return "pred"
        if re.search(r"true|exact|actual|original|target|\blhs\b", s):
            return "true"
    return ""


def axis(label):
    """the axis a label names, and whether it counts along it"""
    s = str(label).lower()
    a = "t" if "time" in s else "s1" if "space" in s or "x_1" in s else "s2" if "x_2" in s else ""
    return a, "index" in s


def when(title):
    """the time a title names: (value, is it an index)"""
    m = re.search(r"\bt(_idx| index|)\s*[=~]\s*(-?[\d.]+)", str(title))
    return (I(m.group(2)), bool(m.group(1))) if m else (NONE, False)


def panels(fig):
    """every panel of a figure; colour bars and hidden panels are none"""
    fig.canvas  # a canvas is there whatever the backend
    out = []
    bar = {id(c.colorbar.ax) for ax in fig.axes for c in list(ax.collections) + list(ax.images) if getattr(c, "colorbar", None) is not None}
    for ax in fig.axes:
        if ax.get_label() == "<colorbar>" or id(ax) in bar or not ax.get_visible():
            continue
        p = dict(title=ax.get_title(), xl=ax.get_xlabel(), yl=ax.get_ylabel(), maps=[], clim=[], lines=[], pts=[], areas=[], bars=[], at=ax.get_subplotspec())
        for c in ax.collections:
            n = type(c).__name__
            if n == "QuadMesh":
                xy, v = np.asarray(c.get_coordinates()), np.ma.filled(np.ma.asarray(c.get_array(), dtype=float), np.nan)
                if v.ndim == 1:
                    v = v.reshape((xy.shape[0], xy.shape[1]) if v.size == xy.shape[0] * xy.shape[1] else (xy.shape[0] - 1, xy.shape[1] - 1))
                if v.shape == (xy.shape[0] - 1, xy.shape[1] - 1):      # cells: a value sits in the middle of its cell
                    xy = (xy[:-1, :-1] + xy[1:, :-1] + xy[:-1, 1:] + xy[1:, 1:]) / 4
                flat = np.allclose(xy[:, :, 0], xy[:1, :, 0]) and np.allclose(xy[:, :, 1], xy[:, :1, 1])
                p["maps"].append((xy[0, :, 0] if flat else [np.nan], xy[:, 0, 1] if flat else [np.nan], v))
                p["clim"].append(c.get_clim())
            elif n in ("PolyCollection", "FillBetweenPolyCollection") and c.get_paths():
                z = c.get_paths()[0].vertices
                z = z[z[:, 1] > 0]
                if len(z):
                    p["areas"].append((str(c.get_label()), z[:, 0], z[:, 1]))
            elif n == "PathCollection":
                c_ = c.get_array()
                p["pts"].append((np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan), None if c_ is None else np.asarray(c_, dtype=float)))
        for im in ax.images:
            v = np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)
            x0, x1, y0, y1 = im.get_extent()
            xs = x0 + (np.arange(v.shape[1]) + 0.5) * (x1 - x0) / v.shape[1]
            ys = (y0 + (np.arange(v.shape[0]) + 0.5) * (y1 - y0) / v.shape[0]) if im.origin == "lower" else (y1 - (np.arange(v.shape[0]) + 0.5) * (y1 - y0) / v.shape[0])
            p["maps"].append((xs, ys, v))
            p["clim"].append(im.get_clim())
        for ln in ax.lines:
            p["lines"].append((str(ln.get_label()), np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)))
        rects = [r for r in ax.patches if type(r).__name__ == "Rectangle"]
        p["bars"] = [(r.get_x(), r.get_width(), r.get_height()) for r in rects]
        out.append(p)
    # a label left out is the one of the panel beside (or below) it in the same figure
    for k, span in (("yl", "rowspan"), ("xl", "colspan")):
        for p in out:
            for near in (lambda q: q["at"] and p["at"] and list(getattr(q["at"], span)) == list(getattr(p["at"], span)), lambda q: True):
                said = sorted({q[k] for q in out if q[k] and bool(q["maps"]) == bool(p["maps"]) and near(q)})
                if not p[k] and len(said) == 1:
                    p[k] = said[0]
    return out


def bars(p, n):
    """a histogram as counts of the whole numbers in each bar: from lo to hi, and perhaps (a bar may end there) from al to ah"""
    b = sorted(p["bars"])
    tot = sum(h * w for _, w, h in b)
    whole = all(abs(h - round(h)) < 1e-9 for _, _, h in b) and (abs(sum(h for _, _, h in b) - n) < 1e-6 or abs(tot - 1) > 1e-6)
    out, e = [], 1e-7
    for i, (x, w, h) in enumerate(b):
        right = b[i + 1][0] if i + 1 < len(b) else x + w
        out.append(dict(lo=int(np.ceil(x + (e if i else -e))), hi=int(np.floor(right - (e if i + 1 < len(b) else -e))), al=int(np.ceil(x - e)), ah=int(np.floor(right + e)), n=I(h if whole else h * w * n / (tot or 1))))
    return out


def figure(shots, kind, size, ok=True, **o):
    """the event of one drawing: size is how many values the world has"""
    ev = dict(ev="figure", kind=kind, drawn=bool(ok and shots), ax=-1, ix=NONE, times=[], given=False, rel=False, clip=False, n=3, maps=[], curves=[], clouds=[], dots=[], hists=[],
              meta=dict(has=False, a=[], p=[], r=[]), sum=dict(has=False, max=0, total=0, role="resid"))
    ev.update(o)
    for p in (shots[-1] if shots else []):
        at, ati = when(p["title"])
        (xa, xi), (ya, yi) = axis(p["xl"]), axis(p["yl"])
        for (xs, ys, v), (c0, c1) in zip(p["maps"], p["clim"]):
            ev["maps"].append(dict(lo=int(np.ceil(c0 - 1e-6)), hi=int(np.floor(c1 + 1e-6)), role=role(p["title"]), xa=xa, ya=ya, xi=xi, yi=yi, xs=L(xs), ys=L(ys), v=[L(r) for r in v], at=at, ati=ati))
        for pts, c in p["pts"]:
            xr, yr = role(p["xl"]), role(p["yl"])
            if xa and ya and not (xr and yr) and c is not None:
                ev["dots"].append(dict(role=role(p["title"]), xa=xa, ya=ya, xi=xi, yi=yi, pts=[[I(a), I(b), I(k)] for (a, b), k in zip(pts, c)]))
            else:
                ev["clouds"].append(dict(xr=xr, yr=yr, pts=[[I(a), I(b)] for a, b in pts]))
        if p["bars"]:
            ev["hists"].append(dict(role=role(p["title"], p["xl"]), bars=bars(p, size)))
        if at != NONE and not p["maps"]:
            for lab, xs, ys in p["lines"]:
                ev["curves"].append(dict(role=role(lab), xs=L(xs), ys=L(ys), at=at, ati=ati))
    return ev


def data(d, a="actual", p="predicted"):
    """the arrays that came with a figure"""
    if d is None:
        return dict(has=False, a=[], p=[], r=[])
    g = lambda *n: next(np.asarray(getattr(d, k)) for k in n if hasattr(d, k))
    return dict(has=True, a=L(g(a, "actual_values")), p=L(g(p, "predicted_values")), r=L(g("residuals")))


def summary(s, n, role="resid", mean="mean"):
    return dict(has=True, max=I(s.get("max_abs", s.get("max_abs_residual"))), total=I(s.get("mean", s.get("mean_residual")) * n), role=role)


def arr(rng, *shape, lo=-9, hi=10):
    return rng.integers(lo, hi, size=shape).astype(float)


def coords(rng, n, lo=-6, hi=7):
    """evenly spaced whole coordinates, ascending or descending"""
    s = int(rng.integers(1, 4)) * (1 if rng.random() < 0.6 else -1)
    a = int(rng.integers(lo, hi))
    return np.array([float(a + s * i) for i in range(n)])
