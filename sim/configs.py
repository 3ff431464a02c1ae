"""Constructions of every provided basis set: base configurations and their one-parameter neighbours."""
import numpy as np

POT = {
    "HO": [{"omega": 0.25}, {"omega": 0.5}, {"omega": 1.0}],
    "DW": [{"omega": 0.5, "l": 2.0}, {"omega": 0.5, "l": 3.0}, {"omega": 0.8, "l": 2.0}],
    "DWSmooth": [{"a": 4}, {"a": 3}],
    "Sym": [{"a": 0.5, "b": 1, "c": -7}, {"a": 0.5, "b": 2, "c": -7}, {"a": 0.25, "b": 1, "c": -7}, {"a": 0.5, "b": 1, "c": -5}],
    "Asym": [{"a": 1, "b": 1, "c": -2.5}, {"a": 1, "b": 0.5, "c": -2.5}, {"a": 1, "b": 1, "c": -2}],
    "Gauss": [{"weight": 1.0, "center": 0.2, "deviation": 0.8}, {"weight": 1.5, "center": 0.2, "deviation": 0.8},
              {"weight": 1.0, "center": -0.3, "deviation": 0.8}, {"weight": 1.0, "center": 0.2, "deviation": 1.1}],
    "GaussWall": [{"weight": 1.0, "center": 0.2, "deviation": 0.8, "x_wall": 3.0},
                  {"weight": 1.0, "center": 0.2, "deviation": 0.8, "x_wall": 2.0}],
    "Atomic": [{"Za": 2, "c": 0.54878464}, {"Za": 1, "c": 0.54878464}, {"Za": 2, "c": 0.7}],
}


def potential(spec):
    from quantum_systems.quantum_dots.one_dim import one_dim_potentials as P

    if spec is None:
        return None
    k, i = spec
    kw = dict(POT[k][i])
    cls = {"HO": P.HOPotential, "DW": P.DWPotential, "DWSmooth": P.DWPotentialSmooth, "Sym": P.SymmetricDWPotential,
           "Asym": P.AsymmetricDWPotential, "Gauss": P.GaussianPotential, "GaussWall": P.GaussianPotentialHardWall,
           "Atomic": P.AtomicPotential}[k]
    if k == "Gauss":
        kw["np"] = np
    return cls(**kw)


ALLPOT = [None] + [[k, i] for k in POT for i in range(len(POT[k]))]

BASE = {
    "odqd": {"l": 2, "grid_length": 5, "num_grid_points": 13, "a": 0.25, "alpha": 1.0, "beta": 0, "potential": None},
    "odho": {"l": 2, "grid_length": 5, "num_grid_points": 13, "omega": 0.25, "a": 0.25, "alpha": 1.0, "beta": 0},
    "dvr": {"l": 3, "grid_length": 5, "a": 0.25, "alpha": 1.0, "beta": 0, "potential": None, "u_repr": "2d"},
    "tdho": {"l": 2, "radius_length": 3, "num_grid_points": 4, "omega": 1, "mass": 1},
    "tddw": {"l": 2, "radius_length": 3, "num_grid_points": 4, "omega": 1, "mass": 1, "barrier_strength": 1, "axis": 0},
    "tdhob": {"l": 2, "radius_length": 3, "num_grid_points": 4, "omega": 1, "mass": 1, "omega_c": 0},
    "pyscf_ao": {"molecule": "he 0 0 0", "basis": "sto-3g", "add_spin": True, "anti_symmetrize": True},
    "f_h": {"num_orbitals": 3},
    "f_u": {"num_orbitals": 2},
    "f_dw": {"num_orbitals": 2, "omega": 1, "mass": 1, "barrier_strength": 1, "axis": 0},
    "f_sdw": {"num_orbitals": 2, "omega": 1, "mass": 1, "a": 2, "b": 2},
    "f_df": {"n": 2, "m": 3, "omega_c": 0, "omega": 1},
    "f_pot": {"potential": ["HO", 0], "n": 5, "x": 1.0},
    "general": {"of": "odqd", "anti_symmetrize": True},
}
ALT = {
    "odqd": {"l": [3, 4], "grid_length": [4, 6.5], "num_grid_points": [11, 16], "a": [0.5, 0.1, 0.2504], "alpha": [0.7, 2.0],
             "beta": [0.2, -0.1], "potential": ALLPOT[1:]},
    "odho": {"l": [3, 4], "grid_length": [4, 6.5], "num_grid_points": [11, 16], "omega": [0.5, 1, 0.2503], "a": [0.5, 0.1],
             "alpha": [0.7, 2.0], "beta": [0.2]},
    "dvr": {"l": [4, 5], "grid_length": [4, 6.5], "a": [0.5, 0.1], "alpha": [0.7, 2.0, 1.0004], "beta": [0.2, -0.1],
            "potential": ALLPOT[1:], "u_repr": ["4d"]},
    "tdho": {"l": [1, 3], "radius_length": [2], "num_grid_points": [5], "omega": [0.5, 2.0, 1.0003], "mass": [2, 0.5]},
    "tddw": {"l": [1, 3], "omega": [0.5, 1.0003], "mass": [2], "barrier_strength": [2, 0.5], "axis": [1], "num_grid_points": [5]},
    "tdhob": {"l": [1, 3], "omega": [0.5, 1.02], "mass": [2], "omega_c": [0.5, 1.2], "radius_length": [2]},
    "pyscf_ao": {"molecule": ["h 0 0 0; h 0 0 1.4", "h 0 0 0; h 0 0 2.0", "be 0 0 0"], "basis": ["3-21g"], "add_spin": [False],
                 "anti_symmetrize": [False]},
    "f_h": {"num_orbitals": [2, 5, 6]},
    "f_u": {"num_orbitals": [1, 3]},
    "f_dw": {"num_orbitals": [3], "omega": [0.5], "mass": [2], "barrier_strength": [2, 0.5], "axis": [1]},
    "f_sdw": {"num_orbitals": [3], "omega": [0.5], "mass": [2], "a": [3], "b": [1]},
    "f_df": {"n": [3], "m": [2], "omega_c": [0.7, 0.001], "omega": [0.5, 1.02]},
    "f_pot": {"potential": ALLPOT[2:], "n": [7], "x": [2.5]},
    "general": {"of": ["odho", "dvr", "tdho"], "anti_symmetrize": [False]},
}
COST = {"tdho": 3, "tddw": 3, "tdhob": 3, "f_dw": 3, "f_sdw": 3}


def configs():
    """Every configuration: base, then each single-parameter neighbour."""
    out = []
    for fam, base in BASE.items():
        out.append([fam, dict(base)])
        for k, vs in ALT[fam].items():
            for v in vs:
                out.append([fam, dict(base, **{k: v})])
    return out


CHEAP = ["odqd", "odho", "dvr", "f_h", "f_pot", "f_df", "general"]
WIDE = {"odqd": {"l": [5, 6], "grid_length": [60]}, "odho": {"l": [5, 6], "grid_length": [60]}, "dvr": {"l": [6, 8], "grid_length": [60]}, "f_h": {"num_orbitals": [9, 12, 21]},
        "f_pot": {}, "f_df": {"n": [4, 5]}, "general": {}}


def wild(rng):
    """A few configurations of one family with several parameters off their base
    values, each differing from the one before in one or two of them."""
    fam = rng.choice(CHEAP)
    opts = {k: [BASE[fam][k]] + ALT[fam].get(k, []) + WIDE[fam].get(k, []) for k in BASE[fam]}
    cur = {k: rng.choice(v) if rng.random() < 0.6 else v[0] for k, v in opts.items()}
    out = [[fam, dict(cur)]]
    for _ in range(rng.randrange(1, 4)):
        for k in rng.sample(sorted(opts), min(len(opts), rng.choice((1, 1, 2)))):
            cur[k] = rng.choice(opts[k])
            if isinstance(cur[k], float) and rng.random() < 0.4:
                cur[k] = cur[k] * (1 + rng.choice((1e-2, -1e-3, 1e-4, 1e-5)))
        out.append([fam, dict(cur)])
    return out


def key(cfg):
    fam, p = cfg
    return fam + ":" + ",".join("%s=%r" % (k, p[k]) for k in sorted(p))


def build(cfg, pot=None):
    """Run the construction; returns (result, argument object the caller still holds).
    pot: the potential made earlier for this configuration."""
    import quantum_systems as QS
    from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
    from quantum_systems.quantum_dots.two_dim import two_dim_helper as T

    fam, p = cfg
    p = dict(p)
    if fam in ("odqd", "dvr"):
        spec = p.pop("potential")
        pot = potential(spec) if pot is None else pot
        r = (QS.ODQD if fam == "odqd" else QS.ODSincDVR)(potential=pot, **p)
        return r, pot
    if fam == "odho":
        return ODHO(**p), None
    if fam == "tdho":
        return QS.TwoDimensionalHarmonicOscillator(**p), None
    if fam == "tddw":
        l, r, g = p.pop("l"), p.pop("radius_length"), p.pop("num_grid_points")
        return QS.TwoDimensionalDoubleWell(l, r, g, **p), None
    if fam == "tdhob":
        l, r, g = p.pop("l"), p.pop("radius_length"), p.pop("num_grid_points")
        return QS.TwoDimHarmonicOscB(l, r, g, **p), None
    if fam == "pyscf_ao":
        return QS.construct_pyscf_system_ao(p.pop("molecule"), **p), None
    if fam == "f_h":
        return T.get_one_body_elements(p["num_orbitals"]), None
    if fam == "f_u":
        return T.get_coulomb_elements(p["num_orbitals"]), None
    if fam == "f_dw":
        return T.get_double_well_one_body_elements(p["num_orbitals"], p["omega"], p["mass"], p["barrier_strength"],
                                                   dtype=np.complex128, axis=p["axis"]), None
    if fam == "f_sdw":
        return T.get_smooth_double_well_one_body_elements(p["num_orbitals"], p["omega"], p["mass"], a=p["a"], b=p["b"],
                                                          dtype=np.complex128), None
    if fam == "f_df":
        n, m = np.arange(p["n"]), np.arange(-p["m"], p["m"] + 1)
        return T.construct_dataframe(n, m, omega_c=p["omega_c"], omega=p["omega"]), (n, m)
    if fam == "f_pot":
        x = np.linspace(-p["x"], p["x"], p["n"])
        pot = potential(p["potential"]) if pot is None else pot
        try:
            d = pot.derivative(x)
        except NotImplementedError:
            d = None
        return (pot(x), d), (x, pot)
    if fam == "general":
        b, a = build([p["of"], BASE[p["of"]]])
        return b.change_to_general_orbital_basis(anti_symmetrize=p["anti_symmetrize"]), a
    raise KeyError(fam)


def image(res):
    """Detached, comparable image of a result."""
    from sim.objects import snap

    if isinstance(res, np.ndarray):
        return {"value": res.copy()}
    if isinstance(res, tuple):
        return {"value%d" % i: (None if x is None else np.array(x)) for i, x in enumerate(res)}
    if type(res).__name__ == "DataFrame":
        d = {"columns": list(map(str, res.columns))}
        for c in res.columns:
            d["col_" + str(c)] = np.asarray(res[c], dtype=float)
        return d
    return snap(res)


def vary(cfg):
    """Every array a caller could write into."""
    res = cfg
    if isinstance(res, np.ndarray):
        return [res]
    if isinstance(res, tuple):
        return [x for x in res if isinstance(x, np.ndarray)]
    out = []
    for o in (res, getattr(res, "_basis_set", None)):
        if o is None:
            continue
        for v in list(getattr(o, "__dict__", {}).values()):
            if isinstance(v, np.ndarray) and v.flags.writeable and not any(v is w for w in out):
                out.append(v)
    return out
