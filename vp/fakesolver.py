"""A stand-in for IPOPT: returns generated values for every variable a solver would be sent, with a chosen status.

It is registered with Pyomo under the solver's name, so the code under test finds it where it looks for IPOPT.
"""
import io
import os

import numpy as np
from pyomo.common.collections import Bunch
from pyomo.core.staleflag import StaleFlagManager
from pyomo.opt import SolverFactory, SolverManagerFactory, SolverResults, SolverStatus, TerminationCondition
from pyomo.repn.plugins.nl_writer import NLWriter

STATUS = {
    "ok": (SolverStatus.ok, TerminationCondition.optimal),
    "warning": (SolverStatus.warning, TerminationCondition.maxIterations),
    "infeasible": (SolverStatus.warning, TerminationCondition.infeasible),
    "error": (SolverStatus.error, TerminationCondition.internalSolverError),
    "aborted": (SolverStatus.aborted, TerminationCondition.userInterrupt),
    "unknown": (SolverStatus.unknown, TerminationCondition.unknown),
}


class Plan:
    """What the next solve does; `sent` records the variables the solver was given."""

    outcome = "ok"
    values = None  # function(list of variables) -> list of values
    sent = None
    calls = 0
    options = None  # of the last call
    tee = None
    email = None


def _run(model, options=None, tee=False):
    Plan.calls += 1
    Plan.options = {str(k): str(v) for k, v in (options or {}).items()}
    Plan.tee = bool(tee)
    Plan.email = os.environ.get("NEOS_EMAIL")
    if Plan.outcome == "raises":
        raise RuntimeError("the solver executable crashed")
    info = NLWriter().write(model, io.StringIO(), io.StringIO(), io.StringIO(), linear_presolve=False)
    res = SolverResults()
    res.solver.status, res.solver.termination_condition = STATUS[Plan.outcome]
    Plan.sent = list(info.variables)
    if Plan.values is not None:
        StaleFlagManager.mark_all_as_stale()
        for v, x in zip(Plan.sent, Plan.values(Plan.sent)):
            v.set_value(float(x), skip_validation=True)
    return res


class FakeSolver:
    def __init__(self, *args, **kwargs):
        self.options = Bunch(**(kwargs.get("options") or {}))

    def available(self, *args, **kwargs):
        return True

    def solve(self, model, *args, **kwargs):
        options = dict(self.options)
        options.update(kwargs.get("options") or {})
        return _run(model, options, kwargs.get("tee", False))


class FakeManager(FakeSolver):
    pass


def install():
    for factory, name, cls in ((SolverFactory, "ipopt", FakeSolver), (SolverManagerFactory, "neos", FakeManager)):
        try:
            factory.unregister(name)
        except KeyError:
            pass
        factory.register(name, "stand-in")(cls)


def random_values(seed, clip=True):
    rs = np.random.RandomState(seed)

    def values(vs):
        out = []
        for v in vs:
            x = rs.uniform(0.2, 1.6) * 10.0 ** rs.choice([-2, 0, 0, 1])
            if clip:
                lb, ub = v.lb, v.ub
                if lb is not None and ub is not None:
                    x = lb + (ub - lb) * rs.uniform(0.02, 0.98)
                elif lb is not None:
                    x = max(x, lb)
                elif ub is not None:
                    x = min(x, ub)
            out.append(x)
        return out

    return values
