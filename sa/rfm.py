"""A synthetic reference metric for the closed-world interpreter: one precomputable function per
dependency class the generators distinguish."""

from types import SimpleNamespace

import sympy as sp

XX = [sp.Symbol(f"xx{i}", real=True) for i in range(3)]


def fake(names=None):
    x0, x1, x2 = XX
    fv = {
        "f0_of_xx0": x0**2 + 1,
        "f0_of_xx0__D0": 2 * x0,
        "f1_of_xx1": sp.sin(x1),
        "f1_of_xx1__D1": sp.cos(x1),
        "f3_of_xx2": 3 * x2,
        "f9_of_xx0xx1": x0 * x1,
        "sc": sp.Symbol("sc"),
    }
    items = [(k, v) for k, v in fv.items() if names is None or k in names]
    # order as the library might produce it: not sorted
    items = items[::-1]
    return SimpleNamespace(xx=list(XX), freevars_uniq_xx_indep=[sp.Symbol(k) for k, _ in items], freevars_uniq_vals=[v for _, v in items], CoordSystem="Fake", grid_physical_size_dict={"AMPL": "grid_physical_size"})


DEPS = {"f0_of_xx0": (0,), "f0_of_xx0__D0": (0,), "f1_of_xx1": (1,), "f1_of_xx1__D1": (1,), "f3_of_xx2": (2,), "f9_of_xx0xx1": (0, 1)}


def install(I, table):
    """table: CoordSystem name -> fake metric (both plain and precompute variants)"""
    m = I.module("nrpy.reference_metric")
    d = {}
    for k, v in table.items():
        d[k] = v
        d[k + "_rfm_precompute"] = v
    m.scope.vars["reference_metric"] = d
