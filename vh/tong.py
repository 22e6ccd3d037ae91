"""
The scheme of ice growth written down once more, from its description: whole arrays, no grid objects.
Nothing here uses the code under test.
"""
import numpy as np


class Scheme:
    """
    steps, s, k, nsmooth : smoothing of normals
    hsmooth, alfa, beta  : smoothing of heights
    thr                  : volumes and coefficients up to this one count as zero in the height of second order
    redistribute         : the volume which was not delivered is given to the later steps
    nss, eps, st, fix    : null-space smoothing
    """

    def __init__(self, V, F, hi, o):
        self.V = np.array(V, dtype=float)
        self.F = np.array(F, dtype=int)
        self.o = o
        self.shaky = 0.0
        es = {}
        for i, f in enumerate(F):
            for a in range(3):
                es.setdefault(tuple(sorted((f[a], f[(a + 1) % 3]))), []).append(i)
        self.pairs = np.array([x for x in es.values() if len(x) == 2], dtype=int).reshape(-1, 2)
        self.border = np.zeros(len(V), dtype=bool)
        for e, x in es.items():
            if len(x) == 1:
                self.border[list(e)] = True
        self.around = [[] for _ in V]
        for i, f in enumerate(F):
            for n in f:
                self.around[n].append(i)
        self.rest = self.areas() * np.array(hi, dtype=float)

    def corners(self):
        return self.V[self.F[:, 0]], self.V[self.F[:, 1]], self.V[self.F[:, 2]]

    def crosses(self):
        p, q, r = self.corners()
        return np.cross(q - p, r - p)

    def areas(self):
        return 0.5 * np.linalg.norm(self.crosses(), axis=1)

    def normals(self):
        c = self.crosses()
        return c / np.linalg.norm(c, axis=1)[:, None]

    def to_nodes(self, x, w):
        """Weighted mean over the faces of every node."""
        x = np.asarray(x, dtype=float)
        num = np.zeros((len(self.V),) + x.shape[1:])
        den = np.zeros(len(self.V))
        for k in range(3):
            np.add.at(num, self.F[:, k], x * (w[:, None] if x.ndim == 2 else w))
            np.add.at(den, self.F[:, k], w)
        return num / (den[:, None] if x.ndim == 2 else den)

    def directions(self):
        fd = self.normals()
        nd = self.to_nodes(fd, np.ones(len(self.F)))
        nd = nd / np.linalg.norm(nd, axis=1)[:, None]
        for _ in range(self.o['nsmooth']):
            w = [np.maximum(self.o['s'] * (1.0 - np.sum(fd * nd[self.F[:, k]], axis=1)), self.o['k']) for k in range(3)]
            fd = sum(nd[self.F[:, k]] * w[k][:, None] for k in range(3)) / sum(w)[:, None]
            nd = self.to_nodes(fd, 1.0 / self.areas())
        return nd

    def heights(self, chunk, nd):
        """Height over every face which gives the volume over it, up to the second order."""
        n = self.normals()
        p, q, r = self.corners()
        u = [nd[self.F[:, k]] / np.sum(n * nd[self.F[:, k]], axis=1)[:, None] for k in range(3)]
        a = self.areas()
        b = 0.25 * np.sum((np.cross(q - p, u[2] - u[0]) + np.cross(u[1] - u[0], r - p)) * n, axis=1)
        h = chunk / a
        thr = self.o.get('thr', 1e-10)
        on = (chunk > thr) & (np.abs(b) > thr)
        d = a * a + 4.0 * b * chunk
        ok = on & (d >= 0.0)
        # The smaller root which is not negative.
        h[ok] = 2.0 * chunk[ok] / (a[ok] + np.sqrt(d[ok]))
        if ok.any():
            self.shaky = max(self.shaky, float(np.max(8e-16 * a[ok] / np.abs(b[ok]))))
        rel = np.abs(d[on]) / (a[on] ** 2)
        if on.any() and float(np.min(rel)) < 1e-6:
            self.shaky = np.inf
        if np.min(np.sum(n[:, None, :] * nd[self.F], axis=2)) < 0.05:
            self.shaky = np.inf
        return h

    def step(self, left):
        o = self.o
        chunk = self.rest / left
        if not o['redistribute']:
            self.rest = self.rest - chunk
        nd = self.directions()
        h = self.heights(chunk, nd)
        for _ in range(o['hsmooth']):
            top = h.max()
            new = chunk.copy()
            for i, j in self.pairs:
                if h[i] < h[j]:
                    i, j = j, i
                mid = chunk[i] / h[i] if h[i] != 0.0 else self.areas()[i]
                v = o['beta'] * min(h[i] - h[j], o['alfa'] * top) * mid
                new[i] -= v
                new[j] += v
            chunk = new
            h = self.heights(chunk, nd)
        shift = nd * self.to_nodes(h, np.ones(len(self.F)))[:, None]
        if np.min(self.to_nodes(h, np.ones(len(self.F)))) < 0:
            raise ArithmeticError('negative height')
        p, q, r = self.corners()
        a, b, c = (self.V[self.F[:, k]] + shift[self.F[:, k]] for k in range(3))

        def tetra(w, x, y, z):
            return np.abs(np.sum((w - z) * np.cross(x - z, y - z), axis=1)) / 6.0
        if o['redistribute']:
            self.rest = np.maximum(self.rest - tetra(p, q, r, c) - tetra(p, q, b, c) - tetra(p, a, b, c), 0.0)
        self.V = self.V + shift
        old = self.areas()
        for _ in range(o['nss']):
            self.null_space()
        self.rest = self.rest * self.areas() / old

    def null_space(self):
        n, a = self.normals(), self.areas()
        c = (self.V[self.F[:, 0]] + self.V[self.F[:, 1]] + self.V[self.F[:, 2]]) / 3.0
        to = self.to_nodes(c, np.ones(len(self.F))) - self.V
        res = self.V.copy()
        for i, fs in enumerate(self.around):
            if self.o['fix'] and self.border[i]:
                continue
            A = sum(a[f] * np.outer(n[f], n[f]) for f in fs)
            w, v = np.linalg.eigh(A)
            free = w <= self.o['eps'] * w[-1]
            if np.min(np.abs(w - self.o['eps'] * w[-1])) < 1e-9 * w[-1]:
                self.shaky = np.inf
            z = v[:, free]
            res[i] = res[i] + self.o['st'] * (z @ (z.T @ to[i]))
        self.V = res

    def grow(self):
        for k in range(self.o['steps']):
            self.step(self.o['steps'] - k)
            if not np.isfinite(self.V).all():
                self.shaky = np.inf
                break
        return self.V
