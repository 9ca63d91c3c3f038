"""Stand-ins for generator functions: each hands back an environment with entries named after its arguments."""

import nrpy.helpers.parallel_codegen as pcg
import nrpy.params as par

CALLS = []


def gen(tag, value=0):
    CALLS.append(("gen", tag, value, par.parval_from_str("parallel_codegen_stage")))
    return (
        {f"par_{tag}": ("P", tag, value)},
        {f"cpar_{tag}": ("C", tag, value)},
        {f"fn_{tag}": ("F", tag, value)},
        {f"gf_{tag}": ("G", tag, value)},
        {"shared": {f"ex_{tag}": ("E", tag, value)}, f"own_{tag}": {"deep": {f"d_{tag}": value}}, "deep2": {"lvl": {f"k_{tag}": value}}},
    )


def other(tag):
    CALLS.append(("other", tag, None, par.parval_from_str("parallel_codegen_stage")))
    return ({f"par_o{tag}": 1}, {f"cpar_o{tag}": 2}, {f"fn_o{tag}": 3}, {f"gf_o{tag}": 4}, {"shared": {f"ex_o{tag}": 5}})


def failing(tag):
    raise ValueError(tag)


def phase():
    return pcg.pcg_registration_phase()


def env():
    return pcg.NRPyEnv()
