"""What decides each property."""
PROPS = {}
NOT_APPLICABLE = {}
_D = "deductive: contracts on the builder functions, VCs from symbolic execution of /repo's code objects, discharged by z3"
_BASE = ("no bound on assets, buses, snapshots or periods; reals instead of floats; the pandas, xarray and linopy operations used are modelled (trusted, "
         "cross-checked by evaluating the same contracts on real networks); preconditions in DESIGN.md section 7")
_N = {
    "C01": _BASE + "; one obligation set per constraint family and attachment class (class slicing)",
    "C02": _BASE, "C03": _BASE, "C04": _BASE + "; time-varying ramp limits of committable units excluded", "C05": _BASE,
    "C06": "loss tangents, flow definition and voltage-law rows proved (" + _BASE + "); for the latter that sub_network.C is a cycle basis of the period's "
           "topology (networkx) is assumed, bounded in C15 and in this check's bounded part",
    "C07": _BASE + "; class slicing",
    "C09": _BASE + "; what linopy reports as primal and dual values is taken as given (its relation to the optimum, signs of duals, voltage angles: bounded)",
    "C10": _BASE, "C11": _BASE,
    "C21": "no bound on snapshots, horizon, overlap or assets; n.optimize is replaced by its contract (overwrites result tables only); equality with hand-solved windows additionally bounded",
    "C14": "no bound on assets; real arithmetic; element-wise pandas operations modelled; shunt, transformer, line and type tables; preconditions: buses exist, positive v_nom, "
           "s_nom and num_parallel, no other zero denominators",
}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
    PROPS[_p] = dict(level="proof", deductive=True, bounded="dv.bounded_opt", technique=_D, note=_N[_p])
for _p in ("C08",):
    PROPS[_p] = dict(level="exploration", bounded="dv.bounded_opt", technique="contracts evaluated on generated inputs (bounded)",
                     note="bounded evaluation of the contracts in dv/specs/opt.py on generated networks")

for _p in ("C10", "C11"):
    PROPS[_p] = dict(level="proof", deductive=True, bounded="dv.rt", technique=_D.replace("builder functions", "descriptor functions"), note=_N[_p])
PROPS["C09"] = dict(level="proof", deductive=True, bounded="dv.rt", technique="deductive: contracts on assign_solution, assign_duals and post_processing (with set_from_frame in line), symbolic "
                    "execution of /repo's code objects on mutable symbolic tables, every cell compared with the contract by z3", note=_N["C09"])
PROPS["C21"] = dict(level="proof", deductive=True, bounded="dv.rt", technique="deductive: contract on optimize_with_rolling_horizon, /repo's code object executed for the first and a generic "
                    "later window with symbolic lengths, n.optimize replaced by its contract; obligations discharged by z3", note=_N["C21"])
PROPS["C14"] = dict(level="proof", deductive=True, bounded="dv.rt", technique="deductive: contracts on the parameter functions, symbolic execution of /repo's code objects on "
                    "symbolic columns, polynomial identities and path conditions discharged by polynomial normal form and z3", note=_N["C14"])
for _p, _w in (("C12", "non-linear power flow"), ("C13", "linear power flow, PTDF, BODF and contingency analysis"),
               ("C15", "topology"), ("C16", "adding, removing and re-timing components (against a reference model of the tables)"),
               ("C17", "CSV, netCDF and HDF5 round trips"), ("C18", "copies and slices"),
               ("C19", "statistics, as sums over the tables of the network"),
               ("C20", "spatial clustering"),
               ("C22", "security-constrained optimisation (rows and dispatch against outages simulated from scratch)"),
               ("C23", "near-optimal alternatives (objective, budget and carried-over constraints)"),
               ("C24", "iterative transmission expansion (recorded calls of the inner optimisation)")):
    PROPS[_p] = dict(level="exploration", bounded="dv.rt", technique="run-time contracts (pre/postconditions) on the real functions, evaluated on generated inputs (bounded)",
                     note=f"bounded: postconditions of {_w} recomputed independently and evaluated on generated networks; not a proof")
PROPS["C24"].update(deductive=True, technique="run-time contracts on the iteration, evaluated on generated inputs (bounded); the rounding function discretized_capacity deductively "
                    "(symbolic execution of /repo's code object on reals, z3)",
                    note=PROPS["C24"]["note"] + "; only discretized_capacity is proved (76 obligations)")
