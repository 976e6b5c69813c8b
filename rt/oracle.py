"""Independent geometry oracle: simplex meshes through barycentric coordinates (no repository code)."""
import numpy as np
import dolfin as df

INF = float('inf')


class Geo:
    def __init__(self, mesh):
        self.mesh = mesh
        self.g = mesh.geometry().dim()
        self.t = mesh.topology().dim()
        self.X = mesh.coordinates().reshape(-1, self.g).copy()
        self.C = np.array(mesh.cells(), dtype=int)
        self.nc = len(self.C)
        mesh.init(self.t - 1)
        mesh.init(self.t - 1, 0)
        self.facet_by_verts = {}
        conn = mesh.topology()(self.t - 1, 0) if self.t > 1 else None
        for f in range(mesh.num_entities(self.t - 1)):
            vs = tuple(sorted(int(v) for v in conn(f))) if self.t > 1 else (f,)
            self.facet_by_verts[vs] = f
        # facet -> cells
        self.facet_cells = {}
        self.cell_facets = []   # per cell: facet opposite local vertex i
        for c in range(self.nc):
            fs = []
            for i in range(self.t + 1):
                vs = tuple(sorted(int(v) for k, v in enumerate(self.C[c]) if k != i))
                f = self.facet_by_verts[vs]
                fs.append(f)
                self.facet_cells.setdefault(f, []).append(c)
            self.cell_facets.append(fs)
        self._inv = {}

    def bary_map(self, c):
        """lam = A x + b for the cell."""
        if c not in self._inv:
            V = self.X[self.C[c]]
            M = np.vstack([V.T, np.ones(len(V))])
            I = np.linalg.inv(M)
            self._inv[c] = (I[:, :self.g], I[:, self.g])
        return self._inv[c]

    def bary(self, c, x):
        A, b = self.bary_map(c)
        return A @ np.asarray(x, float)[:self.g] + b

    def inside(self, c, x, tol=1e-9):
        return 0 <= c < self.nc and self.bary(c, x).min() >= -tol

    def neighbor(self, c, f):
        o = [k for k in self.facet_cells[f] if k != c]
        return o[0] if o else -1

    def normal(self, c, i):
        """Outward unit normal of the facet opposite local vertex i."""
        A, _ = self.bary_map(c)
        n = -A[i]
        return n / np.linalg.norm(n)

    def volume(self, c):
        V = self.X[self.C[c]]
        D = V[1:] - V[0]
        return abs(np.linalg.det(D)) / {1: 1, 2: 2, 3: 6}[self.g]

    def exit(self, c, x0, d, skip=None):
        """(local vertex index i, fraction) of the first crossing in (0,1), or (None, 1.0); ambiguity gap."""
        A, b = self.bary_map(c)
        l0 = A @ x0 + b
        r = A @ d
        best, bi, second = INF, None, INF
        for i in range(len(l0)):
            if r[i] < 0 and i != skip:
                t = max(l0[i], 0.0) / -r[i]
                if t < best:
                    best, bi, second = t, i, best
                elif t < second:
                    second = t
        if bi is None or best >= 1.0:
            return None, 1.0, min(abs(best - 1.0), 1.0) if bi is not None else 1.0
        return bi, best, min(second - best, 1.0 - best)


class Trace:
    """Straight path of a particle through the mesh with marked facets."""

    def __init__(self, geo, marker, action, max_cross=10 ** 6):
        self.geo, self.marker, self.action, self.max_cross = geo, marker, action, max_cross

    def run(self, x0, x1, u, cell):
        """Returns dict(pos, vel, cell, deleted, events, ambiguous, error, crossings, start).
        events: (facet, tag, absolute fraction of the step, point, outward normal)."""
        g = self.geo.g
        p0, p1, v = np.array(x0, float), np.array(x1, float), np.array(u, float)
        ev, amb, done, cr, dele, err = [], 1.0, 0.0, 0, False, None
        skip = None
        n_steps = 0
        last = None
        while True:
            d = p1 - p0
            i, fr, gap = self.geo.exit(cell, p0[:g], d[:g], skip)
            amb = min(amb, gap)
            if i is None:
                break
            cr += 1
            if cr > self.max_cross:
                err = 'too many crossings'
                break
            q = p0 + fr * d
            f = self.geo.cell_facets[cell][i]
            n = self.geo.normal(cell, i)
            t_abs = done + fr * (1.0 - done)
            tag = int(self.marker[f]) if self.marker is not None else 0
            nb = self.geo.neighbor(cell, f)
            act = None
            if tag != 0:
                act = self.action(tag)
                ev.append((f, tag, t_abs, q[:].copy(), n, fr, v.copy()))
            p0, done = q, t_abs
            if act == 'absorb':
                dele = True
            elif act == 'reflect':
                rem = p1 - q
                p1 = q + rem
                p1[:g] = q[:g] + rem[:g] - 2 * np.dot(rem[:g], n) * n
                v = v.copy()
                v[:g] = v[:g] - 2 * np.dot(v[:g], n) * n
            if nb == -1:
                if dele:
                    cell = -1
                    break
                if act != 'reflect':
                    err = 'left the mesh'
                    break
                skip = i
            else:
                cell = nb
                skip = self.geo.cell_facets[nb].index(f) if f in self.geo.cell_facets[nb] else None
                if act == 'reflect':
                    err = 'reflect inside the mesh'   # particle is sent back from an interior facet: not followed
                    break
            n_steps += 1
            if n_steps > 5000:
                err = 'no end'
                break
        return dict(pos=p1, vel=v, cell=cell, deleted=dele, events=ev, gap=amb, error=err, crossings=cr, start=p0)
