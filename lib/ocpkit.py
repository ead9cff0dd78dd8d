"""Builds real problems from configurations of Ocp.tla and reads what they report."""
import numpy as np

from checklib import short_exc

TOL = 1e-9
_CLS = {}
TRANSCRIPTION = {"FE": ("ForwardEuler",), "TR": ("Trapezoidal",), "LGR2": ("LGR", {"num_stages": 2}),
                 "LGR3": ("LGR", {"num_stages": 3}), "LGRI2": ("LGRIntegral", {"num_stages": 2}),
                 "LGRI3": ("LGRIntegral", {"num_stages": 3}), "ST4": ("VerifStandIn",)}
ST4 = dict(K=2.0, node=[0, .25, .5, 1.0], A=[[-3, 1, 2, 5], [4, -1, 3, -2], [1, 2, -5, 3]],
           B=[[2, -3, 1, 4], [-1, 5, 2, 3], [3, 1, -2, 7]])


def standin_available():
    """Offer the stand-in scheme to the library; False if it has no registry of schemes any more."""
    try:
        from lumos.optimal_control import transcription as T
        reg, LGR = T.TRANSCRIPTION_OPTIONS, T.LGR
    except (ImportError, AttributeError):
        return False
    if "VerifStandIn" not in reg:
        class VerifStandIn(LGR):
            def __init__(self):
                self.num_stages_per_interval = 4
                self.interp_points = np.array(ST4["node"])
                self.collocation_points = self.interp_points[1:]

            def _get_A_matrix(self):
                return np.array(ST4["A"]) / ST4["K"]

            def _get_B_matrix(self):
                return np.array(ST4["B"]) / ST4["K"]
        reg["VerifStandIn"] = VerifStandIn
    return True


class Skip(Exception):
    pass


class Mismatch(Exception):
    def __init__(self, what, exp=None, obs=None):
        super().__init__(what)
        self.what, self.exp, self.obs = what, exp, obs


def _j(v):
    try:
        return np.asarray(v).tolist()
    except Exception:
        return repr(v)


def same(what, exp, obs, tol=TOL):
    e, o = np.asarray(exp, dtype=float), np.asarray(obs, dtype=float)
    if e.shape != o.shape:
        raise Mismatch(what + " (shape %s, expected %s)" % (o.shape, e.shape), _j(e), _j(o))
    if e.size == 0:
        return
    if not np.all(np.isfinite(o)) or np.any(np.abs(e - o) > tol * (1 + np.abs(e))):
        raise Mismatch(what, _j(e), _j(o))


def rejected(what, fn):
    try:
        r = fn()
    except Exception:
        return
    raise Mismatch(what + " was accepted", "rejected", repr(r))


# -- polynomials of the specification --------------------------------------
def mono(m, var, t, par):
    r = m["c"]
    for q in m["q"]:
        r = r * par[q - 1]
    for _ in range(m["t"]):
        r = r * t
    for v in m["v"]:
        r = r * var[v - 1]
    return r


def poly(f, var, t, par):
    r = 0.0
    for m in f:
        r = r + mono(m, var, t, par)
    return r


def dmono(m, i):
    """d mono / d var i as monomials"""
    out = []
    for k, v in enumerate(m["v"]):
        if v == i:
            out.append(dict(m, v=m["v"][:k] + m["v"][k + 1:]))
    return out


def dpoly(f, i):
    return [d for m in f for d in dmono(m, i)]


def flat_params(spec, tree):
    out = []
    for p in spec["params"]:
        v = tree.get_param(p["path"])
        if p["n"] == 0:
            out.append(v)
        else:
            out += [v[i] for i in range(p["n"])]
    return out


def param_value(p, vals):
    return float(vals[0]) if p["n"] == 0 else np.array(vals, dtype=float)


def split_params(spec, flat):
    """[(path, value)] for a flat list of parameter numbers"""
    out, k = [], 0
    for p in spec["params"]:
        n = max(1, p["n"])
        out.append((p["path"], param_value(p, flat[k:k + n])))
        k += n
    return out


def model_class(spec):
    """The real StateSpaceModel for a model record of Ocp.tla"""
    name = "Toy" + spec["name"]
    if name in _CLS:
        return _CLS[name]
    from lumos.models.base import StateSpaceModel, StateSpaceIO, StateSpaceModelReturn, Model, ModelReturn, model_io
    from lumos.models.composition import ModelMaker
    import lumos.numpy as lnp

    direct = dict(split_params(spec, spec["def"]))
    own = {k: v for k, v in direct.items() if "." not in k}
    if spec["sub"]:
        subp = {k[4:]: v for k, v in direct.items() if k.startswith("sub.")}

        @model_io(inputs=("x", "u"), outputs=("f", "r"), residuals=("r",))
        class ToySubPart(Model):
            @classmethod
            def get_default_params(cls):
                return {k: np.copy(v) if np.ndim(v) else v for k, v in subp.items()}

            def forward(self, inputs):
                k, h = self._params["k"], self._params["h"]
                x, u = inputs["x"], inputs["u"]
                return ModelReturn(outputs=self.make_outputs_dict(f=k * x * u + h[0], r=h[0] * x - u))

        ModelMaker._registry.pop("ToySubPart", None)
        ModelMaker.add_to_registry(ToySubPart)

    nx = len(spec["states"])
    nu = len(spec["inputs"])
    sub_out = [o for o in spec["outputs"] if o.startswith("sub.")]

    class Toy(StateSpaceModel):
        _direct_names = StateSpaceIO(
            states=tuple(spec["states"]), states_dot=tuple(spec["states"]), inputs=tuple(spec["inputs"]),
            outputs=tuple(o for o in spec["outputs"] if "." not in o), con_outputs=(),
            residuals=tuple(spec["outputs"][r - 1] for r in spec["residuals"] if "." not in spec["outputs"][r - 1]))

        @classmethod
        def get_default_params(cls):
            return {k: np.copy(v) if np.ndim(v) else v for k, v in own.items()}

        @classmethod
        def get_default_submodel_config(cls):
            return {"sub": "ToySubPart"} if spec["sub"] else {}

        def _values(self):
            out = []
            for p in spec["params"]:
                if p["path"].startswith("sub."):
                    v = self._submodels["sub"]._params[p["path"][4:]]
                else:
                    v = self._params[p["path"]]
                out += [v] if p["n"] == 0 else [v[i] for i in range(p["n"])]
            return out

        def forward(self, states, inputs, mesh):
            var = [states[n] for n in spec["states"]] + [inputs[n] for n in spec["inputs"]]
            par = self._values()
            outs = {}
            if spec["sub"]:
                r = self.call_submodel("sub", inputs=dict(x=var[1], u=var[2]))
                par = list(par)
                # the submodel's contribution to the second state is taken from its output
                f = [poly(spec["f"][0], var, mesh, par),
                     poly([m for m in spec["f"][1] if not set(m["q"]) & {3, 4}], var, mesh, par) + r.outputs["f"]]
            else:
                f = [poly(g, var, mesh, par) for g in spec["f"]]
            for n, g in zip(spec["outputs"], spec["o"]):
                if "." not in n:
                    outs[n] = poly(g, var, mesh, par)
            return StateSpaceModelReturn(
                states_dot=self.make_dict("states_dot", **dict(zip(spec["states"], f))),
                outputs=self.make_outputs_dict(**outs))

        # derivatives for the custom backend, from the same data
        def _rows(self):
            con = [spec["outputs"].index(n) for n in self.names.con_outputs]
            return list(spec["f"]) + [spec["o"][i] for i in con] + [spec["o"][r - 1] for r in spec["residuals"]]

        def _lin(self):
            nc = len(self.names.con_outputs)
            off = nx + nu
            return [(i, off + i) for i in range(nx + nc)]

        def _jac_entries(self):
            out = []
            for r, f in enumerate(self._rows()):
                used = sorted({v for m in f for v in m["v"]})
                out += [(r, v - 1, dpoly(f, v)) for v in used]
            return out

        def _implicit_jacobianstructure(self):
            e = [(r, c) for r, c, _ in self._jac_entries()] + self._lin()
            a = np.array(e, dtype=int).reshape(-1, 2)
            return a[:, 0], a[:, 1]

        def _implicit_jac(self, flat_vars, mesh, params):
            par = flat_params(spec, params)
            v = [poly(d, flat_vars, mesh, par) for _, _, d in self._jac_entries()] + [-1.0] * len(self._lin())
            return np.array(v, dtype=float)

        def _hess_entries(self):
            out = {}
            for r, f in enumerate(self._rows()):
                for i in range(1, nx + nu + 1):
                    for j in range(i, nx + nu + 1):
                        d = dpoly(dpoly(f, i), j)
                        if d:
                            out.setdefault((i - 1, j - 1), []).append((r, d))
            return sorted(out.items())

        def _implicit_hessianstructure(self):
            a = np.array([k for k, _ in self._hess_entries()], dtype=int).reshape(-1, 2)
            # one triangle only suffices: list the upper one
            return a[:, 0], a[:, 1]

        def _implicit_hess(self, flat_vars, mesh, params, mult):
            par = flat_params(spec, params)
            return np.array([sum(mult[r] * poly(d, flat_vars, mesh, par) for r, d in e)
                             for _, e in self._hess_entries()], dtype=float)

    Toy.__name__ = Toy.__qualname__ = name
    _CLS[name] = Toy
    return Toy


def make_model(spec):
    return model_class(spec)()


def make_config(cfg, spec, backend, **over):
    from lumos.optimal_control.config import SimConfig
    names = ["states." + n for n in spec["states"]] + ["inputs." + n for n in spec["inputs"]]
    d = dict(num_intervals=cfg["nI"], interval_points=np.array(cfg["pts"], dtype=float) / cfg["D"],
             transcription=TRANSCRIPTION[cfg["sch"]], is_cyclic=cfg["cyc"],
             non_cyclic_vars=[names[i - 1] for i in sorted(cfg["noncyc"])], is_condensed=cfg["cond"], backend=backend,
             con_output_names=tuple(spec["outputs"][i - 1] for i in cfg["con"]))
    d.update(over)
    return SimConfig(**d)


def make_ocp(cfg, spec, backend, model=None, **over):
    from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
    from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
    if cfg["sch"] == "ST4" and not standin_available():
        raise Skip()
    model = make_model(spec) if model is None else model
    sc = make_config(cfg, spec, backend, **over)
    if cfg["cls"] == "fixed":
        return FixedMeshOCP(model, sc, mesh_scale=float(cfg["ms"]))
    return ScaledMeshOCP(model, sc)


def set_params(ocp, spec, flat):
    for path, value in split_params(spec, [float(v) for v in flat]):
        ocp.modify_model_param(path, value)


# -- expected matrices -----------------------------------------------------
def exp_jac(case, blk):
    """dense (exact, frozen mesh) Jacobians of a block"""
    n = case["n"]
    out = []
    for frozen in (False, True):
        J = np.zeros((len(blk["val"]), n))
        for r, row in enumerate(blk["jac"]):
            for c, v in row:
                if c == n:
                    if frozen:
                        continue
                    c = n - 1
                J[r, c] += v / blk["den"][r]
        out.append(J)
    return out


def exp_hess(case, lam):
    """dense symmetric (exact, frozen mesh) Lagrangian Hessians; lam: block name -> multipliers"""
    n = case["n"]
    out = []
    for frozen in (False, True):
        H = np.zeros((n, n))
        for blk in case["blocks"]:
            for r, row in enumerate(blk["hess"]):
                w = lam[blk["name"]][r] / blk["den"][r]
                for i, j, v in row:
                    v = v * w
                    if i == n or j == n:
                        if frozen:
                            continue
                        i2, j2 = min(i, n - 1), min(j, n - 1)
                        if i2 == j2 and i != j:
                            v = 2 * v
                        i, j = i2, j2
                    H[min(i, j), max(i, j)] += v
        H = H + np.triu(H, 1).T
        out.append(H)
    return out


def obs_jac(ocp, x):
    r, c = ocp.jacobianstructure()
    v = np.asarray(ocp.jacobian(x))
    r, c = np.asarray(r), np.asarray(c)
    if not (r.shape == c.shape == v.shape) or v.ndim != 1:
        raise Mismatch("jacobian has %s values for %s/%s structure entries" % (v.shape, r.shape, c.shape))
    if r.size and (r.min() < 0 or r.max() >= ocp.num_con or c.min() < 0 or c.max() >= ocp.num_dec):
        raise Mismatch("jacobian structure outside the matrix")
    J = np.zeros((ocp.num_con, ocp.num_dec))
    np.add.at(J, (r, c), v)
    return J


def obs_hess(ocp, x, lam, of):
    v = np.asarray(ocp.hessian(x, lam, of))
    r, c = ocp.hessianstructure()
    r, c = np.asarray(r), np.asarray(c)
    if not (r.shape == c.shape == v.shape) or v.ndim != 1:
        raise Mismatch("hessian has %s values for %s/%s structure entries" % (v.shape, r.shape, c.shape))
    if r.size and (min(r.min(), c.min()) < 0 or max(r.max(), c.max()) >= ocp.num_dec):
        raise Mismatch("hessian structure outside the matrix")
    pairs = set(zip(r.tolist(), c.tolist()))
    for i, j in pairs:
        if i != j and (j, i) in pairs:
            raise Mismatch("hessian entry (%d, %d) is listed in both triangles" % (i, j))
    H = np.zeros((ocp.num_dec, ocp.num_dec))
    np.add.at(H, (r, c), v)
    return np.triu(H) + np.tril(H, -1).T + (np.triu(H, 1) + np.tril(H, -1).T).T


def offsets(ocp):
    """block name -> row numbers in the constraint vector"""
    return {k: np.asarray(v).astype(int) for k, v in ocp.split_constraints(np.arange(ocp.num_con)).items()}


def check_values(ocp, case, x):
    c = np.asarray(ocp.constraints(x))
    off = offsets(ocp)
    want = {b["name"] for b in case["blocks"]}
    if set(off) != want:
        raise Mismatch("constraint blocks", sorted(want), sorted(off))
    total = sum(len(b["val"]) for b in case["blocks"])
    if ocp.num_con != total or c.shape != (total,):
        raise Mismatch("number of constraints", total, [ocp.num_con, list(c.shape)])
    n = 0
    for b in case["blocks"]:
        e = np.array(b["val"], dtype=float) / np.array(b["den"], dtype=float) if b["val"] else np.zeros(0)
        same("constraints of %s" % b["name"], e, c[off[b["name"]]])
        n += len(e)
    return n


class Frozen(Exception):
    """derivatives are those with the mesh position held fixed (and not the exact ones)"""


def either(what, exact, frozen, obs, report):
    try:
        same(what, exact, obs)
    except Mismatch:
        if np.array_equal(exact, frozen):
            raise
        same(what, frozen, obs)
        report.append(what)


def check_derivatives(ocp, case, x, rng, of=1.0, frozen_seen=None):
    frozen_seen = [] if frozen_seen is None else frozen_seen
    off = offsets(ocp)
    J = obs_jac(ocp, x)
    for b in case["blocks"]:
        ex, fr = exp_jac(case, b)
        either("jacobian of %s" % b["name"], ex, fr, J[off[b["name"]]], frozen_seen)
    lam = np.zeros(ocp.num_con)
    bl = {}
    for b in case["blocks"]:
        bl[b["name"]] = np.array([rng.randint(-3, 3) for _ in b["val"]], dtype=float)
        lam[off[b["name"]]] = bl[b["name"]]
    H = obs_hess(ocp, x, lam, of)
    ex, fr = exp_hess(case, bl)
    either("lagrangian hessian", ex, fr, H, frozen_seen)
    return J.size + H.size
