"""P04: generated text does not depend on unordered iteration, listings, identities, clocks, randomness."""

from sa import order, templates


def run(ctx):
    ctx.rule("order", "interprocedural taint: the order of sets, free_symbols/atoms, directory listings and completion order, and the values of clocks, identities, random numbers and process ids never reach text, registries, attributes or files without passing a total sort")
    P = templates.prog()
    mods = [m for m in sorted(P.paths) if m.startswith("nrpy") and ".tests" not in m and "validate_expressions" not in m]
    A = order.Analysis(P, mods)
    reports = A.run()
    for origin, where in sorted(reports.items()):
        parts = origin.split(": ", 1)
        ctx.violation("order", parts[0], f"{origin} ({where})")
    ctx.ok("functions", A.nfun)
    ctx.ok("unordered iterations followed", A.sites)
    ctx.ok("modules", len(mods))
    for a, t in sorted(A.attrs.items()):
        ctx.sample(f"attribute {a} has undetermined order ({t[1]}); every use sorts")
    ctx.floor("functions", 400)
    ctx.floor("unordered iterations followed", 10)
