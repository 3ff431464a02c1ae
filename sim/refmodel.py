"""Small executable reference model of a basis set / system.

Written from the documented definitions with einsum, independent of the
repository's code.  Values are ordinary numpy arrays that are never shared
with the objects under test.
"""
import copy
import functools

import numpy as np

from sim import core

ARRS = ["h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"]
SIG = ["sigma_x", "sigma_y", "sigma_z"]
RTOL = 1e-9


def expand2d(u):
    """<pq|u|rs> = u_pq d_pr d_qs."""
    l = u.shape[0]
    e = np.eye(l)
    return np.einsum("pq,pr,qs->pqrs", u, e, e)


def close(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)):
        return False
    sc = max(1.0, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= RTOL * sc)


class Ref:
    def __init__(self):
        self.l = self.dim = 0
        self.spin = self.anti = False
        self.a = {k: None for k in ARRS}
        self.sig = [None, None, None]
        self.nuc = 0
        self.grid = None
        self.skip = set()  # quantities whose definition is not tied down
        self.cplx = False

    def copy(self):
        r = Ref()
        r.__dict__.update({k: v for k, v in self.__dict__.items()})
        r.a = {k: None if v is None else v.copy() for k, v in self.a.items()}
        r.sig = [None if v is None else v.copy() for v in self.sig]
        r.grid = None if self.grid is None else np.array(self.grid)
        r.skip = set(self.skip)
        return r

    @classmethod
    def of(cls, b):
        """Snapshot of a freshly built basis set (bra orbitals not yet touched)."""
        r = cls()
        r.l, r.dim = b.l, b.dim
        r.spin, r.anti = b.includes_spin, b.anti_symmetrized_u
        for k in ARRS:
            if k == "bra_spf":
                continue
            v = getattr(b, k)
            r.a[k] = None if v is None else np.array(v)
        if r.a["u"] is not None and r.a["u"].ndim == 2:
            r.a["u"] = expand2d(r.a["u"])
        if r.a["spf"] is not None:
            r.a["bra_spf"] = np.conj(r.a["spf"])
        r.nuc = b.nuclear_repulsion_energy
        r.grid = None if b.grid is None else np.array(b.grid)
        return r

    # -- operations --------------------------------------------------------
    def change_basis(self, C, Ct=None):
        r = self.copy()
        C = np.array(C)
        Ct = np.conj(C).T if Ct is None else np.array(Ct)
        r.l = C.shape[1]
        one = lambda x: None if x is None else np.einsum("pa,ab,bq->pq", Ct, x, C, optimize=True)
        two = lambda x: None if x is None else np.einsum("pa,qb,abcd,cr,ds->pqrs", Ct, Ct, x, C, C, optimize=True)
        for k in ("h", "s", "spin_x", "spin_y", "spin_z", "spin_2"):
            r.a[k] = one(r.a[k])
        for k in ("u", "spin_2_tb"):
            r.a[k] = two(r.a[k])
        if r.a["dipole_moment"] is not None:
            r.a["dipole_moment"] = np.einsum("pa,iab,bq->ipq", Ct, r.a["dipole_moment"], C, optimize=True)
        if r.a["spf"] is not None:
            r.a["spf"] = np.einsum("ap,a...->p...", C, r.a["spf"])
            r.a["bra_spf"] = np.einsum("pa,a...->p...", Ct, r.a["bra_spf"])
        return r

    def antisym(self):
        r = self.copy()
        if not r.anti:
            for k in ("u", "spin_2_tb"):
                if r.a[k] is not None:
                    r.a[k] = r.a[k] - np.einsum("pqsr->pqrs", r.a[k])
            r.anti = True
        return r

    def cast(self):
        r = self.copy()
        r.cplx = True
        for k in ARRS:
            if r.a[k] is not None:
                r.a[k] = r.a[k].astype(complex)
        return r

    def general(self, a=(1, 0), b=(0, 1), anti=True, spinless=False):
        """spinless: the two-dimensional representation of u, which is
        documented not to carry spin matrices."""
        r = self.copy()
        if r.spin:
            return r
        r.spin = True
        r.l = 2 * r.l
        e = np.eye(2)
        s = r.a["s"]

        def one(x):
            o = np.einsum("ab,st->asbt", x, e)
            return o.reshape(2 * x.shape[0], 2 * x.shape[1])

        def two(x):
            n = 2 * x.shape[0]
            return np.einsum("abcd,st,uv->asbuctdv", x, e, e).reshape(n, n, n, n)

        sp = [np.asarray(a, dtype=complex).ravel(), np.asarray(b, dtype=complex).ravel()]
        pauli = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]
        r.a["h"], r.a["s"], r.a["u"] = one(r.a["h"]), one(s), two(r.a["u"])
        if not spinless:
            S = []
            for k in range(3):
                r.sig[k] = np.array([[np.vdot(x, pauli[k] @ y) for y in sp] for x in sp])
                m = np.einsum("ab,st->asbt", s, 0.5 * r.sig[k])
                S.append(m.reshape(r.l, r.l))
            r.a["spin_x"], r.a["spin_y"], r.a["spin_z"] = S
            r.a["spin_2"] = sum(x @ x for x in S)
            if not np.allclose(s, np.eye(len(s)), atol=1e-9):
                r.skip.add("spin_2")  # documented for orthonormal orbitals only
            r.a["spin_2_tb"] = sum(np.einsum("pr,qs->pqrs", x, x) for x in S)
        if anti:
            r = r.antisym()
        if r.a["dipole_moment"] is not None:
            r.a["dipole_moment"] = np.array([one(x) for x in r.a["dipole_moment"]])
        for k in ("spf", "bra_spf"):
            if r.a[k] is not None:
                r.a[k] = np.repeat(r.a[k], 2, axis=0)
        return r.cast()

    # -- observers ---------------------------------------------------------
    def energy(self, n, general):
        h, u = self.a["h"][:n, :n], self.a["u"][:n, :n, :n, :n]
        if general:
            return np.einsum("ii->", h) + 0.5 * np.einsum("ijij->", u)
        return 2 * np.einsum("ii->", h) + 2 * np.einsum("ijij->", u) - np.einsum("ijji->", u)

    @staticmethod
    def fock(h, u, n, general):
        if general:
            return h + np.einsum("piqi->pq", u[:, :n, :, :n])
        return h + 2 * np.einsum("piqi->pq", u[:, :n, :, :n]) - np.einsum("piiq->pq", u[:, :n, :n, :])

    def density(self, rho, C=None, Ct=None):
        ket, bra = self.a["spf"], self.a["bra_spf"]
        if C is not None:
            Ct = np.conj(C).T if Ct is None else Ct
            ket = np.einsum("ap,a...->p...", C, ket)
            bra = np.einsum("pa,a...->p...", Ct, bra)
        return np.einsum("p...,qp,q...->...", bra, rho, ket)


def diff_basis(b, r, spin_checked=True):
    """First observable difference between basis set b and model r, or None."""
    if b.l != r.l:
        return "l is %r, expected %r" % (b.l, r.l)
    if b.dim != r.dim:
        return "dim is %r, expected %r" % (b.dim, r.dim)
    if bool(b.includes_spin) != r.spin:
        return "includes_spin is %r" % (b.includes_spin,)
    if bool(b.anti_symmetrized_u) != r.anti:
        return "anti_symmetrized_u is %r" % (b.anti_symmetrized_u,)
    if b.np is None:
        return "array module is None"
    if b.nuclear_repulsion_energy != r.nuc:
        return "nuclear repulsion is %r" % (b.nuclear_repulsion_energy,)
    if not close(b.grid, r.grid):
        return "grid differs"
    return diff_arrays(b, r)


def diff_arrays(b, r, names=ARRS):
    for k in names:
        if not hasattr(b, k):
            continue
        v = getattr(b, k)
        w = r.a[k]
        if k == "u" and v is not None and np.ndim(v) == 2:
            v = expand2d(np.asarray(v))
        if (v is None) != (w is None):
            return "%s is %s" % (k, "missing" if v is None else "unexpectedly present")
        if v is None:
            continue
        if v.shape != w.shape:
            return "%s has shape %s, expected %s" % (k, v.shape, w.shape)
        if k in r.skip:
            continue
        if not close(v, w):
            return "%s differs by up to %.3g" % (k, np.max(np.abs(np.asarray(v) - w)))
        if r.cplx and np.asarray(v).dtype.kind != "c":
            return "%s has dtype %s after a cast to complex" % (k, v.dtype)
    if r.spin and r.sig[0] is not None and hasattr(b, "sigma_x"):
        for k, w in zip(SIG, r.sig):
            if not close(getattr(b, k), w):
                return "%s differs" % k
    return None


def diff_system(s, r, n):
    if s.n != n or s.l != r.l or s.m != r.l - n:
        return "sizes n=%r l=%r m=%r, expected n=%d l=%d m=%d" % (s.n, s.l, s.m, n, r.l, r.l - n)
    if s.o != slice(0, n) or s.v != slice(n, r.l):
        return "ranges o=%r v=%r, expected 0:%d and %d:%d" % (s.o, s.v, n, n, r.l)
    if s.np is None:
        return "array module is None"
    if s.nuclear_repulsion_energy != r.nuc:
        return "nuclear repulsion is %r" % (s.nuclear_repulsion_energy,)
    if not close(s.grid, r.grid):
        return "grid differs"
    return diff_arrays(s, r) or diff_basis(s._basis_set, r)


# --------------------------------------------------------------------------
# ingredients
# --------------------------------------------------------------------------
def crand(rs, shape, cplx=True):
    x = rs.standard_normal(shape)
    return x + 1j * rs.standard_normal(shape) if cplx else x


def coeff(spec, l):
    """Coefficient matrices from {"kind","newl","seed","cplx"}; returns C, C_tilde."""
    rs = np.random.RandomState(spec["seed"])
    cplx = spec["cplx"]
    k = spec["kind"]
    newl = max(1, min(spec["newl"], 2 * l)) if k == "wide" else max(1, min(spec["newl"], l))
    if k == "unitary":
        q, _ = np.linalg.qr(crand(rs, (l, l), cplx))
        return q, None
    if k == "isometry":
        q, _ = np.linalg.qr(crand(rs, (l, l), cplx))
        return q[:, :newl], None
    if k == "wide":
        return crand(rs, (l, newl), cplx) / np.sqrt(l), None
    if k == "general":
        return np.eye(l) + 0.3 * crand(rs, (l, l), cplx), None
    if k == "identity":
        return np.eye(l), None
    if k == "perm":
        return np.eye(l)[:, rs.permutation(l)], None
    if k == "biorth":
        C = np.eye(l) + 0.3 * crand(rs, (l, l), cplx)
        return C, np.linalg.inv(C)
    if k == "birect":
        C = np.eye(l) + 0.3 * crand(rs, (l, l), cplx)
        Ct = np.linalg.inv(C)
        return np.ascontiguousarray(C[:, :newl]), np.ascontiguousarray(Ct[:newl])
    raise KeyError(k)


def spinpair(spec):
    if spec is None:
        return None
    rs = np.random.RandomState(spec["seed"])
    q, _ = np.linalg.qr(crand(rs, (2, 2), spec["cplx"]))
    a, b = q[:, 0], q[:, 1]
    if spec.get("bad") == "norm":
        a = 1.5 * a
    elif spec.get("bad") == "orth":
        b = (a + b) / np.sqrt(2)
    elif spec.get("bad") == "shape":
        a = np.ones(3) / np.sqrt(3)
    if spec.get("aslist"):
        return list(a), list(b)
    return a, b


def make_custom(spec, QS):
    """BasisSet filled through its public setters."""
    rs = np.random.RandomState(spec["seed"])
    l, dim, cplx = spec["l"], spec["dim"], spec["cplx"]
    b = QS.BasisSet(l, dim, np=np, includes_spin=spec.get("spin", False), anti_symmetrized_u=False)
    h = crand(rs, (l, l), cplx)
    b.h = h + h.conj().T
    if spec["s"] == "eye":
        b.s = np.eye(l)
    elif spec["s"] == "spd":
        m = crand(rs, (l, l), cplx)
        b.s = np.eye(l) + 0.1 * m @ m.conj().T / l
    u = crand(rs, (l, l, l, l), cplx)
    if spec.get("u", True):
        b.u = u + u.transpose(1, 0, 3, 2)
    if spec["dip"]:
        d = crand(rs, (dim, l, l), cplx)
        b.dipole_moment = d + d.conj().transpose(0, 2, 1)
    bra = None
    if spec["spf"]:
        g = tuple(3 + i for i in range(dim))
        b.spf = crand(rs, (l,) + g, cplx)
        b.grid = rs.standard_normal(g)
        if spec["bra"]:
            bra = crand(rs, (l,) + g, cplx)
            b.bra_spf = bra.copy()
    b.nuclear_repulsion_energy = float(rs.standard_normal())
    r = Ref.of(b)
    if bra is not None:
        r.a["bra_spf"] = bra
    return b, r


class Bases:
    """Prebuilt basis sets of every provided family (two instances of each)."""

    def __init__(self, QS):
        self.QS = QS
        from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO

        G = QS.ODQD.GaussianPotential
        mk = {
            "odqd": lambda: QS.ODQD(4, 6, 21),
            "odqd_gauss": lambda: QS.ODQD(3, 6, 21, potential=G(1.0, 0.2, 0.8, np)),
            "odqd_dw": lambda: QS.ODQD(3, 6, 21, potential=QS.ODQD.DWPotentialSmooth(a=3), beta=0.2),
            "odho": lambda: ODHO(3, 6, 21),
            "dvr2d": lambda: QS.ODSincDVR(4, 5, u_repr="2d"),
            "dvr4d": lambda: QS.ODSincDVR(3, 5, u_repr="4d", beta=0.1),
            "dvr2d_large": lambda: QS.ODSincDVR(8, 6, u_repr="2d"),
            "odqd_large": lambda: QS.ODQD(6, 6, 22, beta=-0.1),
            "tdho": lambda: QS.TwoDimensionalHarmonicOscillator(3, 3, 4, omega=0.8),
            "tddw": lambda: QS.TwoDimensionalDoubleWell(3, 3, 4, omega=0.8, barrier_strength=2),
            "tdhob": lambda: QS.TwoDimHarmonicOscB(3, 3, 4, omega=0.8, omega_c=0.5),
        }
        self.made = {}
        self.failed = {}
        for k, f in mk.items():
            try:
                self.made[k] = [f(), f(), f(), f()]
            except Exception as e:  # C13 and C14 judge construction itself
                self.failed[k] = repr(e)

    def names(self):
        return sorted(self.made)

    def take(self, spec, slot):
        """Basis set and model for a scenario's spec."""
        k = spec["base"]
        if k == "custom":
            return make_custom(spec, self.QS)
        if k == "random":
            np.random.seed(spec["seed"])
            b = self.QS.RandomBasisSet(spec["l"], spec["dim"])
            return b, Ref.of(b)
        b = self.made[k][slot]
        return b, Ref.of(b)


def gen_base(rng, names, p_special=0.35):
    x = rng.random()
    if x < p_special:
        k = rng.choice(names)
        if k.endswith("_large") and rng.random() < 0.7:
            k = rng.choice(names)
        return {"base": k}
    if x < p_special + 0.2:
        return {"base": "random", "l": rng.choice((2, 3, 4) if rng.random() < 0.96 else (1, 5, 6, 9)), "dim": rng.choice((1, 2, 3)), "seed": rng.randrange(10**6)}
    return {"base": "custom", "l": rng.choice((2, 3, 4) if rng.random() < 0.96 else (1, 5, 6, 8)), "dim": rng.choice((1, 2)), "seed": rng.randrange(10**6),
            "cplx": rng.random() < 0.5, "s": rng.choice(("eye", "eye", "spd")), "dip": rng.random() < 0.8,
            "spf": rng.random() < 0.75, "bra": rng.random() < 0.4}


# --------------------------------------------------------------------------
# time-dependent operators
# --------------------------------------------------------------------------
def scalar_fn(spec):
    """A pulse / weight / switching function of time: (value to install, model f(t))."""
    k = spec["k"]
    A, w, ph = spec["A"], spec["w"], spec["ph"]
    if k == "const":
        return A, lambda t: A
    if k == "npconst":
        return np.float64(A), lambda t: A
    if k == "cconst":
        return complex(A, w), lambda t: complex(A, w)
    if k == "zero":
        return 0, lambda t: 0
    f = lambda t: A * np.sin(w * t + ph)
    if k == "ufunc":
        return np.cos, lambda t: np.cos(t)
    if k == "ccall":
        g = lambda t: A * np.exp(1j * (w * t + ph))
        return Callback(g), g
    if k == "icall":  # a window: integers, not floats
        g = lambda t: 1 if t > ph else 0
        return Callback(g), g
    if k == "partial":
        return functools.partial(_sine, A, w, ph), f
    if k == "object":
        return Pulse(A, w, ph), f
    return Callback(f), f


def _sine(A, w, ph, t):
    return A * np.sin(w * t + ph)


class Pulse:
    def __init__(self, *a):
        self.a = a

    def __call__(self, t):
        return _sine(*self.a, t)


class Callback:
    """User callback: another thread may run while it does, and it may fail."""

    def __init__(self, f):
        self.f = f
        self.fail = None
        self.calls = 0

    def __deepcopy__(self, memo):
        return self  # like a function

    def __call__(self, t):
        sim = core.cur_sim()
        if sim is not None:
            sim.point("callback", None)
        self.calls += 1
        if self.fail is not None:
            raise self.fail
        return self.f(t)


def gen_scalar(rng, kinds=("const", "npconst", "cconst", "zero", "call", "call", "call", "ufunc", "partial", "object", "ccall", "icall")):
    return {"k": rng.choice(kinds), "A": round(rng.uniform(0.2, 3), 3), "w": round(rng.uniform(0.1, 2), 3),
            "ph": round(rng.uniform(0.1, 3), 3)}


def vec_fn(spec, dim):
    """Polarisation: (value to install, model f(t), array the user still holds)."""
    k = spec["k"]
    if k == "none":
        e = np.zeros(dim)
        e[0] = 1
        return None, (lambda t: e), None
    rs = np.random.RandomState(spec["seed"])
    v = rs.standard_normal(dim)
    if k == "carray":
        v = v + 1j * rs.standard_normal(dim)
    m = v.copy()
    if k in ("array", "carray"):
        return v, (lambda t: m), v
    if k == "list":
        return list(v), (lambda t: m), None
    if k == "tuple":
        return tuple(v), (lambda t: m), None
    w = rs.standard_normal(dim)
    if k == "calllist":
        return Callback(lambda t: list(v * np.cos(t) + w)), (lambda t: m * np.cos(t) + w), None
    return Callback(lambda t: v * np.cos(t) + w), (lambda t: m * np.cos(t) + w), None


def gen_vec(rng):
    return {"k": rng.choice(("none", "array", "array", "carray", "list", "tuple", "call", "call", "calllist")), "seed": rng.randrange(10**6)}


class OpModel:
    """Expected action of an installed operator (None: static elements)."""

    def __init__(self, spec, dim, l):
        self.spec = spec
        k = spec["kind"]
        self.kind = k
        self.held = None
        if k == "laser":
            self.p, self.pf = scalar_fn(spec["pulse"])
            self.v, self.vf, self.held = vec_fn(spec["pol"], dim)
        elif k == "adiab":
            self.p, self.pf = scalar_fn(spec["pulse"])
        elif k == "custom":
            self.p, self.pf = scalar_fn(spec["pulse"])
            rs = np.random.RandomState(spec["seed"])
            self.mat = crand(rs, (l, l), spec.get("cplx", True))
            self.held = self.mat.copy()

    def build(self, T):
        if self.kind == "laser":
            if self.spec["pol"]["k"] == "none" and self.spec.get("omit"):
                return T.LaserField(self.p)
            return T.LaserField(self.p, self.v)
        if self.kind == "adiab":
            return T.AdiabaticSwitching(self.p)
        return T.CustomOneBodyOperator(self.p, self.held)

    def h(self, r, t):
        if self.kind == "laser":
            return r.a["h"] + self.pf(t) * np.einsum("i,iab->ab", np.asarray(self.vf(t)), r.a["dipole_moment"])
        if self.kind == "custom":
            return r.a["h"] + self.pf(t) * self.mat
        return r.a["h"]

    def u(self, r, t):
        if self.kind == "adiab":
            return self.pf(t) * r.a["u"]
        return r.a["u"]


def gen_op(rng, kinds=("laser", "laser", "adiab", "custom")):
    k = rng.choice(kinds)
    d = {"kind": k, "pulse": gen_scalar(rng)}
    if k == "laser":
        d["pol"] = gen_vec(rng)
        d["omit"] = rng.random() < 0.5
    if k == "custom":
        d["seed"] = rng.randrange(10**6)
        d["cplx"] = rng.random() < 0.5
    return d
