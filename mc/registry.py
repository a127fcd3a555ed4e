"""property id -> module, level and assumptions"""
SIM = "mc.sim_props"
_sim = dict(module=SIM, level="model_checking", assumptions=[
    "amounts are compared with tolerances well above the simulator's rounding to 12 decimals",
    "operation histories, books and amount grids are bounded as listed in coverage.bounds"])
REGISTRY = {p: dict(_sim) for p in
            ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S09", "S10", "S11", "S12", "S13", "S15", "S17")}
REGISTRY.update({p: dict(_sim, module="mc.sim_pairs") for p in ("S08", "S14", "S16", "S18")})


def reg(module, level, assumptions, *ids):
    for i in ids:
        REGISTRY[i] = dict(module=module, level=level, assumptions=list(assumptions))


_tol = "numbers are compared with tolerances well above floating point error and well below the effects of interest"
_grid = "inputs and histories are bounded as listed in coverage.bounds"
reg("mc.ordx", "model_checking", [_tol, _grid], "S19")
reg("mc.oui", "model_checking", [_tol, _grid], "U01", "U02", "U03", "U04")
reg("mc.pairs", "model_checking", [_tol, _grid], "P01", "P02")
reg("mc.cpcx", "model_checking", [_tol, _grid], "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09")
reg("mc.optx", "model_checking", [_tol, _grid], "O01", "O02", "O03", "O04", "O05")
reg("mc.arbx", "model_checking", [_tol, _grid], "G01", "G02", "G03", "G04", "G05")
reg("mc.benchx", "model_checking", [_tol, _grid], "B01", "B02", "B03")
reg("mc.helpx", "model_checking", [_tol, _grid], "H01", "H02", "H03", "H04", "H05", "H06", "H07", "H08")
reg("mc.encx", "model_checking", [_tol, _grid, "the remote API is represented by a model server in the check"], "E01", "E02", "E03", "E04")
reg("mc.anax", "model_checking", [_tol, _grid], "A01", "A02")
reg("mc.nodex", "model_checking", ["express, body-parser, ethers and the Carbon SDK are stand-ins; the server's own modules run unchanged", _grid], "N01", "N02", "N03")
reg("mc.wpx", "model_checking", ["sympy and mpmath of the tool environment evaluate the formulas", _grid], "W01", "W02")
reg("mc.nbx", "model_checking", ["generated files are executed by the interpreter of the tests"], "T01")
