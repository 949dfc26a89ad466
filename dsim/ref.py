"""Executable reference models, written from the documented equations and independent of simphox."""
import numpy as np
import scipy.sparse as sp
from scipy.sparse.linalg import splu


# ------------------------------------------------------------------------------------------------ sparse systems

def backward_error(a, x, b):
    """Smallest relative perturbation of (a, b) for which x is exact; b and x may have several columns."""
    a = sp.csr_matrix(a)
    r = np.abs(a @ x - b)
    den = np.abs(a) @ np.abs(x) + np.abs(b)
    if not np.all(np.isfinite(x)):
        return float('inf')
    big = float(np.max(den)) if den.size else 1.0
    return float(np.max(r)) / max(big, 1e-300) if r.size else 0.0


# ------------------------------------------------------------------------------------------------ Yee grids

class RefGrid:
    """Grid geometry, Yee-averaged permittivity and (stretched) finite differences of a 2d or 3d simulation."""

    def __init__(self, size, spacing, eps, wavelength=None, pml=None, pml_params=(4, -16, 1.0)):
        self.size = np.asarray(size, float)
        self.nd = len(size)
        self.spacing = np.ones(self.nd) * spacing
        self.shape = tuple(int(round(s / d)) for s, d in zip(self.size, self.spacing))
        self.shape3 = self.shape + (1,) * (3 - self.nd)
        self.n = int(np.prod(self.shape))
        self.eps = np.array(eps).reshape(self.shape3)
        self.wavelength = wavelength
        self.k0 = None if wavelength is None else 2 * np.pi / wavelength
        self.pml = None if pml is None else [int(p / d) for p, d in zip(np.asarray(pml, float) * np.ones(self.nd), self.spacing)]
        self.pml_params = pml_params
        self.de, self.dh = [], []  # cell sizes for differences of e (forward) and of h (backward)
        for ax in range(3):
            n = self.shape3[ax]
            if ax >= self.nd:
                self.de.append(np.ones(n)), self.dh.append(np.ones(n))
                continue
            d = self.spacing[ax]
            se, sh = np.ones(n, complex), np.ones(n, complex)
            if self.pml is not None and self.k0 is not None and n > 1:
                m, ln_r, pe = pml_params
                t = self.pml[ax]
                for s, off in ((se, 0.5), (sh, 0.0)):
                    pos = (np.arange(n) + off) * d
                    depth = np.zeros(n)
                    lo, hi = pos[t], pos[n - t]
                    depth[:t] = (lo - pos[:t]) / (lo - 0)
                    depth[n - t:] = (pos[n - t:] - hi) / (n * d - hi)
                    s += 1j * (m + 1) * depth ** m * ln_r / (2 * self.k0 * pe)
            self.de.append(d * se), self.dh.append(d * sh)

    def eps_t(self):
        """Permittivity seen by ex, ey and ez: averages over the neighbouring cells."""
        e = self.eps
        ex = (e + np.roll(e, 1, 1)) / 2
        ey = (e + np.roll(e, 1, 0)) / 2
        ez = (ey + np.roll(ey, 1, 1)) / 2
        return np.stack([ex, ey, ez])

    def _col(self, v, ax):
        return v.reshape([-1 if i == ax else 1 for i in range(3)])

    def fwd(self, f, ax):
        return (np.roll(f, -1, ax) - f) / self._col(self.de[ax], ax)

    def bwd(self, f, ax):
        return (f - np.roll(f, 1, ax)) / self._col(self.dh[ax], ax)

    def curl(self, f, d):
        return np.stack([d(f[2], 1) - d(f[1], 2), d(f[0], 2) - d(f[2], 0), d(f[1], 0) - d(f[0], 1)])

    def curl_e(self, e):
        return self.curl(e, self.fwd)

    def curl_h(self, h):
        return self.curl(h, self.bwd)

    # ---- frequency domain operators as functions on grid-shaped fields
    def op_hz(self, hz):
        et = self.eps_t()
        return -self.bwd(self.fwd(hz, 0) / et[1], 0) - self.bwd(self.fwd(hz, 1) / et[0], 1) - self.k0 ** 2 * hz

    def op_ez(self, ez):
        return -self.bwd(self.fwd(ez, 0), 0) - self.bwd(self.fwd(ez, 1), 1) - self.k0 ** 2 * self.eps_t()[2] * ez

    def op_e(self, e):
        return self.curl_h(self.curl_e(e)) - self.k0 ** 2 * self.eps_t() * e

    def _diff_mat(self, ax, back):
        n = self.shape3[ax]
        one = sp.identity(n, format='csr')
        perm = sp.csr_matrix((np.ones(n), (np.arange(n), (np.arange(n) + (-1 if back else 1)) % n)), shape=(n, n))
        d1 = (one - perm) if back else (perm - one)
        d1 = sp.diags(1 / (self.dh if back else self.de)[ax]) @ d1
        mats = [sp.identity(m, format='csr') for m in self.shape3]
        mats[ax] = d1
        return sp.csr_matrix(sp.kron(sp.kron(mats[0], mats[1]), mats[2]))

    def matrix(self, pol):
        """pol: 'tm' (hz), 'te' (ez) or '3d' (e)."""
        f = [self._diff_mat(ax, False) for ax in range(3)]
        b = [self._diff_mat(ax, True) for ax in range(3)]
        et = self.eps_t().reshape(3, -1)
        dg = sp.diags
        if pol == 'tm':
            return sp.csr_matrix(-b[0] @ dg(1 / et[1]) @ f[0] - b[1] @ dg(1 / et[0]) @ f[1]
                                 - self.k0 ** 2 * sp.identity(self.n))
        if pol == 'te':
            return sp.csr_matrix(-b[0] @ f[0] - b[1] @ f[1] - self.k0 ** 2 * dg(et[2]))
        o = sp.csr_matrix((self.n, self.n))

        def curl(d):
            return sp.bmat([[o, -d[2], d[1]], [d[2], o, -d[0]], [-d[1], d[0], o]])
        return sp.csr_matrix(curl(b) @ curl(f) - self.k0 ** 2 * dg(et.ravel()))

    def complete(self, f, pol):
        """(e, h) of the solution of the scalar (2d) or vector (3d) problem."""
        o = np.zeros(self.shape3, complex)
        if pol == 'tm':
            h = np.stack([o, o, f])
            return np.stack([np.stack([self.bwd(f, 1), -self.bwd(f, 0), o]) / (1j * self.k0 * self.eps_t()), h])
        if pol == 'te':
            e = np.stack([o, o, f])
            return np.stack([e, np.stack([self.fwd(f, 1), -self.fwd(f, 0), o]) / (1j * self.k0)])
        return np.stack([f, self.curl_e(f) / (1j * self.k0)])

    def solve(self, src, pol):
        a = self.matrix(pol)
        x = splu(sp.csc_matrix(a)).solve(self.k0 * np.asarray(src, complex).ravel())
        return self.complete(x.reshape(((3,) if pol == '3d' else ()) + self.shape3), pol)

    def check_fields(self, ctx, fields, src, pol, key, tol=1e-9, msg=''):
        """fields solve this grid's equations for the source src."""
        fields = np.asarray(fields)
        ctx.check(fields.shape == (2, 3) + self.shape3, key, lambda: f'{msg} fields of shape {fields.shape}')
        f = {'tm': fields[1][2], 'te': fields[0][2], '3d': fields[0]}[pol]
        be = backward_error(self.matrix(pol), f.ravel(), self.k0 * np.asarray(src, complex).ravel())
        ctx.check(be <= tol, key, lambda: f'{msg} the fields do not solve the equations of this simulation '
                                          f'(relative residual {be:.3g}, allowed {tol:.1g})')
        ctx.max_err = max(ctx.max_err, be / tol)
        ctx.close(fields, self.complete(f, pol), key, tol=1e-8, msg=msg + ' derived field')
        return be


# ------------------------------------------------------------------------------------------------ waveguide modes

class RefModes:
    """Guided modes of a cross section by dense diagonalization (d: spacing, or one per axis)."""

    def __init__(self, eps, d, wavelength, num):
        self.eps = np.array(eps, float)
        self.d, self.k0, self.nd = d, 2 * np.pi / wavelength, self.eps.ndim
        shape = self.eps.shape
        n = self.eps.size
        self.shape3 = shape + (1,) * (3 - self.nd)
        if self.nd == 1:
            c = np.diag(self.eps * self.k0 ** 2) + (np.roll(np.eye(n), 1, 1) + np.roll(np.eye(n), -1, 1)
                                                    - 2 * np.eye(n)) / d ** 2
            self.c = c
            w, v = np.linalg.eigh(c)
            order = np.argsort(-w)[:num]
            order = [o for o in order if w[o] > 0]
            self.betas = np.sqrt(w[order])
            self.modes = v[:, order].T.astype(complex)
        else:
            grid = RefGrid(tuple(np.array(shape) * d), d, self.eps)
            f = [np.asarray(grid._diff_mat(ax, False).todense()).real for ax in range(2)]
            b = [np.asarray(grid._diff_mat(ax, True).todense()).real for ax in range(2)]
            et = grid.eps_t().reshape(3, -1)
            e10 = np.r_[et[1], et[0]]
            c = np.diag(e10 * self.k0 ** 2)
            c += e10[:, None] * (np.vstack([-f[1], f[0]]) @ (np.hstack([-b[1], b[0]]) / et[2][:, None]))
            c += np.vstack(b) @ np.hstack(f)
            self.c = c
            w, v = np.linalg.eig(c)
            order = np.argsort(-w.real)[:num]
            order = [o for o in order if w[o].real > 0]
            self.betas = np.sqrt(w[order].real)
            hxy = v[:, order]
            hz = np.hstack(f) @ hxy / (1j * np.sqrt(w[order]))
            self.modes = np.vstack([hxy, hz]).T
        self.grid = RefGrid(tuple(np.array(shape) * d) if self.nd > 1 else (n * d, d), d,
                            self.eps if self.nd > 1 else self.eps[:, None])
        self.modes = self.modes / np.linalg.norm(self.modes[:, :(2 if self.nd > 1 else 1) * n], axis=1)[:, None]
        self.modes = self.modes * np.exp(-1j * np.angle(self.modes[:, :1]))

    def eps_t(self):
        e = self.eps.reshape(self.shape3)
        ey = (e + np.roll(e, 1, 0)) / 2
        return np.stack([(e + np.roll(e, 1, 1)) / 2, ey, (ey + np.roll(ey, 1, 1)) / 2])

    def h(self, m, tm_2d=True):
        v = self.modes[m]
        o = np.zeros(self.eps.size, complex)
        if self.nd == 1:
            v = np.r_[o, v, o] if tm_2d else np.r_[1j * self.betas[m] * v, o, -(v - np.roll(v, 1)) / self.d] / (1j * self.k0)
        return v.reshape((3,) + self.shape3)

    def e(self, m, tm_2d=True):
        o = np.zeros(self.eps.size, complex)
        if self.nd == 1:
            v = self.modes[m]
            v = np.r_[1j * self.betas[m] * v, o, -(np.roll(v, -1) - v) / self.d] / (1j * self.k0 * self.eps_t().ravel()) \
                if tm_2d else np.r_[o, v, o]
            return v.reshape((3,) + self.shape3)
        h, beta = self.h(m), self.betas[m]

        def d(f, ax):
            return (f - np.roll(f, 1, ax)) / self.grid.spacing[ax]
        c = np.stack([d(h[2], 1) + 1j * beta * h[1], -1j * beta * h[0] - d(h[2], 0), d(h[1], 0) - d(h[0], 1)])
        return c / (1j * self.k0 * self.eps_t())


def poynting_z(e, h):
    """Yee-averaged (e x h*)_z on a cross section of shape (3, X, Y, 1)."""
    def avg(f, ax):
        return (f + np.roll(f, 1, ax)) / 2
    return avg(e[0], 1) * avg(h[1], 1).conj() - avg(e[1], 0) * avg(h[0], 0).conj()


class RefPorts:
    """Mode sources and mode measurements at the ports of a simulation, for its current permittivity."""

    def __init__(self, size, spacing, eps, ports, wavelength, pml=None, pml_sep=5, factor=3, num_modes=None):
        """ports: name -> (x, y, angle, w, z, h)"""
        self.grid = RefGrid(size, spacing, eps)
        self.ports, self.wavelength, self.factor, self.pml_sep = dict(ports), wavelength, factor, pml_sep
        self.pml = None if pml is None else [int(p / d) for p, d in zip(np.asarray(pml, float) * np.ones(self.grid.nd), self.grid.spacing)]
        self.num_modes = num_modes or {}
        self._m = {}

    def placement(self, name):
        x, y, a, w, z, h = self.ports[name]
        g = self.grid
        pos = []
        for ax, v in enumerate((x, y)):
            p = 0 if self.pml is None else (self.pml[ax] + self.pml_sep) * g.spacing[ax]
            pos.append(min(max(v, p), g.size[ax] - g.spacing[ax] - p))
        size = np.array((w, 0, h) if a % 180 != 0 else (0, w, h)) * self.factor
        return (pos[0], pos[1], z), size

    def region(self, name):
        center, size = self.placement(name)
        sp3 = np.r_[self.grid.spacing, [np.inf] * (3 - self.grid.nd)]
        out = []
        for c, s, d in zip(center, size, sp3):
            ci, si = int(np.around(c / d)), int(np.around(s / d))
            out.append(slice(ci - si // 2, ci - si // 2 + si) if si > 0 else slice(ci, ci + 1))
        return tuple(out), int(np.flatnonzero(size == 0)[0])

    def modes(self, name, num=1):
        key = (name, num)
        if key not in self._m:
            r, ax = self.region(name)
            eps = self.grid.eps[r]
            d = [self.grid.spacing[i] for i in range(self.grid.nd) if i != ax and eps.shape[i] > 1]
            self._m[key] = RefModes(eps.squeeze(), d[0] if len(d) == 1 else np.array(d), self.wavelength, num)
        return self._m[key]

    def source2d(self, weights, unidirectional=True):
        """weights: {(port, mode): weight}"""
        out = np.zeros(self.grid.shape, complex)
        for (name, m), wt in weights.items():
            r, ax = self.region(name)
            modes = self.modes(name, max([mm for nn, mm in weights if nn == name]) + 1)
            x = np.zeros(self.grid.shape, complex)
            sel = tuple(s if i != ax else s.start for i, s in enumerate(r[:2]))
            x[sel] = modes.modes[m]
            sh = 1 if self.ports[name][2] % 360 < 180 else -1
            x = np.roll(x * wt, 2 * sh, ax)
            out += x - (np.roll(x, sh, ax) * np.exp(-1j * self.grid.spacing[ax] * modes.betas[m]) if unidirectional else 0)
        return out

    def measure(self, fields, port_modes, tm_2d=True):
        """Amplitudes leaving and entering through the ports: array (2, number of measurements)."""
        out = []
        for name, m in port_modes:
            modes = self.modes(name, max([mm for nn, mm in port_modes if nn == name]) + 1)
            r, ax = self.region(name)
            view = self.view_axis(name)
            comp = {0: (1, 2, 0), 1: (0, 2, 1), 2: (0, 1, 2)}[view]

            def look(f):
                f = np.stack([f[c].reshape(self.grid.shape3) for c in comp])[(slice(None),) + r]
                return f.transpose((0,) + tuple(1 + c for c in comp))
            e, h = look(fields[0]), look(fields[1])
            em, hm = modes.e(m, tm_2d), modes.h(m, tm_2d)
            sm = np.sum(poynting_z(em, hm))
            a, b = np.sum(poynting_z(e, hm)) / sm / 2, np.conj(np.sum(poynting_z(em, h)) / sm) / 2
            ab = [a + b, a - b]
            out.append(ab if self.ports[name][2] % 360 < 180 else ab[::-1])
        return np.array(out).T

    def profile(self, name, m, num, use_h):
        """Mode of a port as a vector field of the cross section in the axes of the simulation."""
        modes = self.modes(name, num)
        f = modes.h(m) if use_h else modes.e(m)
        _, ax = self.region(name)
        comp = {0: (2, 0, 1), 1: (0, 2, 1), 2: (0, 1, 2)}[ax]
        sign = {0: (1, -1, 1), 1: (1, 1, 1), 2: (1, 1, -1)}[ax]
        return np.stack([s * f[c] for s, c in zip(sign, comp)]).transpose((0,) + tuple(1 + c for c in comp))

    def view_axis(self, name):
        _, size = self.placement(name)
        return max([i for i in range(self.grid.nd) if size[i] == 0] or [0])


# ------------------------------------------------------------------------------------------------ time domain

class RefFDTD:
    """Leapfrog time stepping with convolutional PML, on full-size arrays."""

    def __init__(self, size, spacing, eps, pml=None, pml_params=(3, -25, 1)):
        self.grid = RefGrid(size, spacing, eps)
        g = self.grid
        self.dt = 1 / np.sqrt(np.sum(1 / g.spacing ** 2))
        self.b, self.c = [], []  # per axis: for derivatives of e (half positions) and of h (whole positions)
        m, ln_r, corr = pml_params
        for ax in range(3):
            n = g.shape3[ax]
            sig = np.zeros((2, n))
            if pml is not None and ax < g.nd and n > 1:
                d = g.spacing[ax]
                t = int((np.asarray(pml, float) * np.ones(g.nd))[ax] / d)
                for i, off in ((0, .5), (1, 0.)):
                    pos = (np.arange(n) + off) * d
                    depth = np.zeros(n)
                    depth[:t] = (pos[t] - pos[:t]) / pos[t]
                    depth[n - t:] = (pos[n - t:] - pos[n - t]) / (n * d - pos[n - t])
                    sig[i] = -(m + 1) * depth ** m * ln_r / (2 * corr)
            b = np.exp(-(1e-8 + sig) * self.dt)
            self.b.append(b)
            self.c.append(np.where(sig > 0, (b - 1) * sig / (sig + 1e-8), 0) if pml is not None else 0 * b)
        self.has_pml = pml is not None
        z = np.zeros((3,) + g.shape3, complex)
        self.e, self.h = z.copy(), z.copy()
        self.psi_e, self.psi_h = np.zeros((6,) + g.shape3, complex), np.zeros((6,) + g.shape3, complex)

    TERMS = ((2, 1), (1, 2), (0, 2), (2, 0), (1, 0), (0, 1))  # (component, derivative axis) of the curl

    def state(self):
        return [x.copy() for x in (self.e, self.h, self.psi_e, self.psi_h)]

    def load(self, state):
        self.e, self.h, self.psi_e, self.psi_h = [x.copy() for x in state]

    def _curl(self, f, d, psi, i):
        g = self.grid
        terms = []
        for k, (comp, ax) in enumerate(self.TERMS):
            df = d(f[comp], ax)
            if self.has_pml:
                psi[k] = psi[k] * g._col(self.b[ax][i], ax) + df * g._col(self.c[ax][i], ax)
                df = df + psi[k]
            terms.append(df)
        return np.stack([terms[0] - terms[1], terms[2] - terms[3], terms[4] - terms[5]])

    def step(self, sources=()):
        g = self.grid
        et = g.eps_t()
        self.e = self.e + self._curl(self.h, g.bwd, self.psi_e, 1) / et * self.dt
        for j, _, region in sources:
            if j is not None:
                self.e[region] -= np.squeeze(j) / et[region] * self.dt
        self.h = self.h - self._curl(self.e, g.fwd, self.psi_h, 0) * self.dt
        for _, m, region in sources:
            if m is not None:
                self.h[region] -= np.squeeze(m) * self.dt

    def energy_pair(self, h_before):
        """Quantity conserved without PML and sources, from e(n), h(n-1/2) and h(n+1/2)."""
        return float(np.real(np.sum(self.grid.eps_t() * np.abs(self.e) ** 2) + np.sum(h_before.conj() * self.h)))
