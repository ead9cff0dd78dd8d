"""A stand-in for the solver: records what crosses the boundary and plays a scripted solve."""
import numpy as np


class Stopped(Exception):
    """raised by the scripted solver itself"""


class FakeSolver:
    """Takes the place of cyipopt.Problem.  script(problem, x0) -> (x, info)"""
    script = None
    made = []

    def __init__(self, *args, **kw):
        names = ("n", "m", "problem_obj", "lb", "ub", "cl", "cu")
        d = dict(zip(names, args))
        d.update(kw)
        for k in ("lb", "ub", "cl", "cu"):
            d[k] = None if d.get(k) is None else np.array(d[k], dtype=float)
        self.given = d
        self.options = {}
        self.problem = d["problem_obj"]
        self.solves = []
        type(self).made.append(self)

    def add_option(self, name, value):
        if isinstance(name, bytes):
            name = name.decode()
        self.options[name] = value

    addOption = add_option

    def close(self):
        pass

    def solve(self, x, lagrange=(), zl=(), zu=()):
        self.solves.append(dict(x=np.array(x, dtype=float), lagrange=lagrange, zl=zl, zu=zu))
        return type(self).script(self, np.array(x, dtype=float))


def install(script):
    """Every solver constructed by the library from now on plays script."""
    import cyipopt
    import lumos.optimal_control.nlp as nlp
    FakeSolver.script = staticmethod(script)
    FakeSolver.made = []
    cyipopt.Problem = FakeSolver
    cyipopt.problem = FakeSolver
    # in case the library binds the class by name
    for k in ("Problem", "problem"):
        if hasattr(nlp, k) and getattr(nlp, k) is not nlp:
            setattr(nlp, k, FakeSolver)
    return FakeSolver
