"""Writes /verif/properties.jsonl (kept as source so the statements stay reviewable)."""
import json, pathlib
O = "pypsa/optimization/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


NET = "every network (any number of components, any attachment pattern, static or time-varying attributes, inactive assets, build years and lifetimes), every contiguous choice of optimised snapshots, single- and multi-investment-period mode"
p("C01", "Every bus balances at every snapshot of the optimisation model",
  "The optimisation model built from a network contains, for every bus with something dispatchable attached and every optimised snapshot, exactly one equality: signed generator, store and storage-unit dispatch, plus line and transformer flow entering minus leaving, minus half of each attached branch's loss, minus link input, plus each link output (any number of ports) times that port's efficiency at that snapshot, equals the signed load at the bus. Assets contribute exactly while they are active in that snapshot, loads exactly when flagged active. The equality is the same whether or not a bus is treated as strongly meshed, and a nonzero load at a bus without anything attached is rejected with an error.",
  ["inputs", "configurations"], NET + "; with and without transmission losses and the strongly-meshed split",
  "The tests solve a handful of fixed networks and look at a few optimal values; a wrong sign, port, efficiency or index alignment shows only for specific attachments, orderings, snapshots or multi-port links.",
  [O + "constraints.py", O + "common.py", "pypsa/common.py"],
  [("define_nodal_balance_constraints", O + "constraints.py"), ("get_strongly_meshed_buses", O + "common.py"), ("Components.get_active_assets / as_dynamic", "pypsa/descriptors.py")],
  [("buses_t.marginal_price", "dual of the balance", "network")], ["n.model.constraints['Bus-nodal_balance']"])
p("C02", "Dispatch, capacities and set points stay within their declared limits",
  "For every asset and optimised snapshot in which it is active the optimisation model contains one dispatch variable bounded below and above by its per-unit limits of that snapshot times its fixed capacity, or times its capacity variable when extendable (committable assets are limited by their status instead; branch limits are tightened by the loss variable), and no variable or limit while it is inactive. Capacity variables exist exactly for extendable assets and lie between the declared minimum and any finite maximum, equal a whole number of modules when a module size is given, and equal any given set value. Given (non-missing) dispatch or state-of-charge set points, spillage limits (zero to inflow) and minimum or maximum generated energy are imposed exactly for the assets and snapshots they are given for.",
  ["inputs", "configurations"], NET,
  "Tests solve a few small networks; limits that are missing, shifted to another asset by a misaligned index, or imposed on an inactive asset only show for particular mixtures of fixed, extendable, committable and time-varying assets.",
  [O + "constraints.py", O + "variables.py", O + "optimize.py", "pypsa/descriptors.py"],
  [("define_operational_constraints_for_non_extendables / _for_extendables", O + "constraints.py"), ("define_nominal_constraints_*", O + "constraints.py"), ("define_fixed_*_constraints", O + "constraints.py"), ("define_modular_constraints", O + "constraints.py"), ("define_*_variables", O + "variables.py")])
p("C03", "Unit commitment enforces status, transitions and minimum up/down times",
  "For every committable generator or link and every snapshot in which it is active, dispatch lies between status times its lower and upper per-unit limit times capacity, start-up and shut-down are at least the change of status up and down, every start-up (shut-down) within the last minimum-up-time (minimum-down-time) snapshots forces status on (off), and an asset that was up (down) for fewer snapshots than its minimum before the horizon must stay so for the remainder. The state before the first optimised snapshot is the declared up/down time before, or, when the horizon continues an earlier one, the status history stored in the network. Status variables are binary, or relaxed to [0,1] with the documented tightening inequalities when linearised unit commitment is requested.",
  ["inputs", "configurations", "histories"], "every set of committable assets, every up/down time, every stored status history, all snapshot selections, binary and linearised formulation",
  "Existing tests check a few hand-made 4-snapshot cases; windows, first-snapshot handling and rolling histories have unboundedly many combinations.",
  [O + "constraints.py", O + "variables.py", "pypsa/common.py"],
  [("define_operational_constraints_for_committables", O + "constraints.py"), ("define_status_variables, define_start_up_variables, define_shut_down_variables", O + "variables.py")])
p("C04", "Ramp limits bound the change of dispatch between consecutive snapshots",
  "Wherever an active generator or link has a (possibly time-varying) ramp limit, the model bounds the change of its dispatch since the previous snapshot by that limit times its fixed or variable capacity; a missing limit means no bound. For committable assets the bound is the ramp limit times capacity while running plus the start-up (shut-down) ramp limit when the status changes. The first optimised snapshot is bounded only if the horizon continues an earlier one, and then relative to the dispatch and status stored for the snapshot immediately before.",
  ["inputs", "configurations", "histories"], "every mixture of fixed, extendable and committable assets with static, time-varying or missing ramp limits, inactive assets, and every rolling start",
  "Tests use one generator with constant limits; broadcasting, missing values and the coupling to earlier horizons are not sampled together.",
  [O + "constraints.py"], [("define_ramp_limit_constraints", O + "constraints.py")])
p("C05", "Stored energy carries over between snapshots exactly",
  "For every storage unit or store and snapshot in which it is active, energy level equals the previous active level times (1 - standing loss)^(hours) plus what is charged (times efficiency and hours), minus what is discharged (over efficiency, times hours), plus inflow minus spillage. The previous level of the first active snapshot is the declared initial level, or the level at the last active snapshot when the asset is cyclic. In multi-investment-period models the same holds within every period for assets that are cyclic or initialised per period, and across period boundaries otherwise.",
  ["inputs", "configurations"], NET + "; every combination of cyclic / initial flags, snapshot weightings, time-varying losses and efficiencies",
  "Tests compare a few solved examples; the combination of inactive snapshots, weightings, cyclicity and period boundaries is not enumerable by examples.",
  [O + "constraints.py"], [("define_storage_unit_constraints", O + "constraints.py"), ("define_store_constraints", O + "constraints.py")])
p("C06", "Passive flows obey Kirchhoff's voltage law and loss approximation",
  "For every optimised snapshot the voltage-law rows of the model use only flows of lines and transformers active in that snapshot and are equivalent to: the impedance-weighted flow (effective per-unit reactance for AC, resistance for DC parts, including tap ratio) around every closed cycle of active branches is zero. When transmission losses are modelled with K tangents, each active passive branch has a non-negative loss variable which is at most resistance times squared maximum flow and at least each of the 2K tangents of resistance times squared flow at k/K of the maximum flow, k=1..K in both directions.",
  ["inputs", "configurations"], NET + "; every topology including parallel branches, several sub-networks and activity changing between investment periods",
  "Cycle bases depend on topology, ordering and activity; tests cover a few fixed meshed networks.",
  [O + "constraints.py", "pypsa/pf.py", "pypsa/networks.py"],
  [("define_kirchhoff_voltage_constraints", O + "constraints.py"), ("define_loss_constraints", O + "constraints.py"), ("find_cycles", "pypsa/pf.py"), ("determine_network_topology", "pypsa/networks.py")])
p("C07", "The objective is total weighted system cost",
  "The model minimises the sum over optimised snapshots of objective weighting times: marginal cost times dispatch (generators, links, stores, storage discharge), quadratic marginal cost times squared dispatch, storage cost times energy level, spill cost times spillage, and stand-by cost times status, plus (unweighted) start-up and shut-down cost per transition, plus capital cost times the capacity variable of every extendable active asset, minus the capital cost of their already existing capacity. In multi-period models operational terms are also weighted by the period's objective weighting and capital costs by the sum of objective weightings over the periods in which the asset is active. The constant for existing capacity is stored with the network.",
  ["inputs", "configurations"], NET,
  "Tests compare a few objective values; a missing term, weighting or misaligned cost only shows for specific attribute combinations.",
  [O + "optimize.py"], [("define_objective", O + "optimize.py")], [("objective_constant", "cost of existing capacity", "Network")])
p("C08", "Each global constraint limits exactly the quantity it declares",
  "For every row of the global-constraint table the model contains one constraint of the declared sense and constant on: weighted primary energy use (emission factor over efficiency times dispatch, plus depletion of non-cyclic storage), operational use of a carrier, transmission volume (length times capacity) or its cost, or installed capacity of a carrier (optionally per bus), over exactly the extendable assets, carriers, snapshots and investment period it names. Per-bus nominal limits of a carrier given as bus attributes, and growth limits of a carrier per investment period (absolute, or relative to the previous period, counting capacity in the first period in which it is active), are imposed likewise. Constraints with nothing to limit may be absent.",
  ["inputs", "configurations"], NET + "; every selection of global constraint types, senses, carriers and periods",
  "The tests contain one or two instances per type, mostly single-period; carrier parsing, period selection and cross-component sums have unbounded combinations.",
  [O + "global_constraints.py"],
  [("define_primary_energy_limit, define_operational_limit", O + "global_constraints.py"), ("define_transmission_volume_expansion_limit, define_transmission_expansion_cost_limit", O + "global_constraints.py"), ("define_tech_capacity_expansion_limit, define_nominal_constraints_per_bus_carrier, define_growth_limit", O + "global_constraints.py")])
p("C09", "Solved results written to the network equal the model solution",
  "After a successful optimisation the network's dispatch series, energy levels and optimal capacities equal the solver's primal values (storage power is discharge minus charge; link and branch ports carry input at the first and minus the delivered power, including efficiency or losses, at every other), unsolved snapshots keep their previous values, and fixed assets report their fixed capacity as optimal. Bus injections equal the net power the attached components deliver and balance the passive flows. Marginal prices and global-constraint prices equal the corresponding shadow prices, prices per unit of objective weight.",
  ["inputs", "configurations", "histories"], "every solvable network and snapshot subset",
  "Tests look at single entries of a few solved networks.",
  [O + "optimize.py"], [("assign_solution, assign_duals, post_processing", O + "optimize.py")])
p("C10", "An asset is active exactly within its lifetime and when flagged active",
  "An asset counts as active in an investment period exactly if its active flag is set and build year <= period < build year + lifetime; over several periods it is active if it is active in at least one of them, and without an investment period only the flag counts. The activity mask over snapshots assigns to each snapshot and asset the activity in that snapshot's period (or the flag alone for single-period use), in the order and for the assets and snapshots requested.",
  ["inputs", "configurations"], "all build years, lifetimes (including infinite), flags, periods, snapshot selections and asset selections",
  "Boundary cases (period equals build year or end of life), reordered or repeated selections are not enumerable by tests.",
  ["pypsa/descriptors.py"], [("get_active_assets, get_activity_mask", "pypsa/descriptors.py")])
p("C11", "Time-varying data override static data; per-unit bounds follow from them",
  "The dense view of an attribute returns for each requested snapshot and asset the time-varying value if the asset has a time series for that attribute and its static value otherwise, for exactly the requested snapshots (in order) and assets. Per-unit bounds derived from it are symmetric for lines and transformers, zero to maximum for storage discharge, zero to minus minimum for storage charge, zero to maximum hours for the state of charge, and minimum to maximum otherwise.",
  ["inputs"], "all mixtures of static and time-varying attributes, all snapshot and asset selections",
  "Tests check single attributes on a fixed network.",
  ["pypsa/descriptors.py"], [("get_switchable_as_dense, get_switchable_as_iter, get_bounds_pu", "pypsa/descriptors.py")])
p("C12", "A converged non-linear power flow satisfies the AC power-flow equations",
  "Whenever the non-linear power flow reports convergence for a snapshot, the stored voltages satisfy the AC power balance at every bus (up to the requested tolerance) given the stored injections, PV buses keep their set voltage and active power, PQ buses their set active and reactive power, and the slack bus its angle and voltage. Stored branch flows equal those implied by terminal voltages, tap ratio, phase shift and shunts of the branch model. With distributed slack the missing power is shared in proportion to the weights.",
  ["inputs", "configurations"], "every AC/DC sub-network, snapshot, slack choice and tolerance for which convergence is reported",
  "Tests compare with one exported reference case; sign, tap-side and phase-shift errors only show in specific configurations.",
  ["pypsa/pf.py"], [("network_pf / sub_network_pf_* ", "pypsa/pf.py"), ("newton_raphson_sparse", "pypsa/pf.py"), ("calculate_Y", "pypsa/pf.py")])
p("C13", "Linear power flow and its sensitivity factors satisfy the DC equations",
  "After a linear power flow every bus's injection equals the sum of its branch flows, each AC branch flow equals angle difference (minus phase shift) over effective reactance, the slack bus has zero angle and absorbs each sub-network's imbalance, and inactive or excluded branches carry nothing. Power transfer distribution factors map any balanced injection to those flows, and branch outage distribution factors give the flows after removing a non-bridge branch.",
  ["inputs", "configurations"], "every connected or disconnected topology, impedances, injections, slack choice and snapshot selection",
  "Tests compare one reference case and one small ring.",
  ["pypsa/pf.py"], [("network_lpf, sub_network_lpf", "pypsa/pf.py"), ("calculate_B_H, calculate_PTDF, calculate_BODF", "pypsa/pf.py")])
p("C14", "Electrical parameters follow from types and nominal values",
  "Lines with a standard type get resistance, reactance and susceptance from the type's per-length values times length, divided (series) or multiplied (shunt) by the number of parallel lines; lines without a type keep the given values. Per-unit values use the bus nominal voltage squared for lines and the transformer's rated power for transformers, with the type's losses, short-circuit voltage, no-load current and tap position giving impedance, shunt and tap ratio of typed transformers. Effective series impedance used for flows is the per-unit impedance times tap ratio for transformers.",
  ["inputs"], "all types, lengths, parallel counts, voltages, tap positions and sides, typed and untyped mixtures",
  "Tests check a few types at single parameter values.",
  ["pypsa/pf.py"], [("apply_line_types, apply_transformer_types, apply_transformer_t_model", "pypsa/pf.py"), ("calculate_dependent_values", "pypsa/pf.py")])
p("C15", "Topology: sub-networks are the connected components of passive branches",
  "Two buses are in the same sub-network exactly if a path of lines and transformers flagged active (and, when an investment period is given, active in that period) connects them; every bus belongs to exactly one. The adjacency matrix counts exactly the requested branches of all requested classes between each pair of buses; the incidence matrix has +1 at the first and -1 at the second bus of each branch. The cycle matrix has one independent column per cycle of the sub-network, each a closed walk of its branches with consistent orientation, parallel branches included.",
  ["inputs", "configurations"], "every multigraph of buses and branches, any activity pattern, ordering and investment period",
  "Tests check single small graphs.",
  ["pypsa/graph.py", "pypsa/networks.py", "pypsa/pf.py"], [("adjacency_matrix, incidence_matrix", "pypsa/graph.py"), ("determine_network_topology", "pypsa/networks.py"), ("find_cycles", "pypsa/pf.py")])
p("C16", "Adding and removing components keeps the tables consistent",
  "Adding one or many components creates exactly the named rows with the given attributes (scalar, sequence or series aligned by name; time series aligned by snapshot and name) and defaults for every other attribute, appends after existing rows, leaves all other components untouched and rejects or ignores existing names unless overwriting is requested. Removing components deletes exactly their rows and all their time series. Changing the snapshots keeps the time series values of snapshots that remain.",
  ["inputs", "histories"], "every sequence of add, remove, rename of snapshots, all attribute kinds and name collisions",
  "Histories of mutations are unbounded; tests replay a few.",
  ["pypsa/networks.py"], [("add, remove, set_snapshots, merge", "pypsa/networks.py")])
p("C17", "Export followed by import restores the network",
  "Exporting a network to CSV files, netCDF or HDF5 and importing it again gives a network with the same components, static attributes, time series, snapshots, weightings, investment periods, coordinate system and metadata, also for custom attributes and components whose values all equal the default.",
  ["inputs"], "all networks including multi-period, custom columns, empty and default-valued components",
  "Round trips of a few example networks say little about default handling, dtype or index restoration.",
  ["pypsa/io.py"], [("_export_to_exporter, _import_from_importer", "pypsa/io.py")])
p("C18", "Copies and slices are faithful and independent",
  "Copying a network yields an equal network sharing no mutable data with the original; copying with a selection of snapshots or investment periods, or slicing by buses and snapshots, keeps exactly the selected snapshots and buses, the components attached only to selected buses with all their static and time-varying data, and leaves the original unchanged.",
  ["inputs", "histories"], "all networks, selections and later mutations",
  "Tests copy one fixture and compare.",
  ["pypsa/networks.py"], [("copy, __getitem__", "pypsa/networks.py")])
p("C19", "Statistics report sums that agree with the solved network",
  "Statistics per component and carrier equal the corresponding sums over the network's data: installed, optimal and expanded capacity; capital and operational expenditure; supply, withdrawal and energy balance with snapshot weightings; revenue as marginal price times injection; curtailment and capacity factor as ratios of the same sums. Supply minus withdrawal equals energy balance, and for every bus carrier the energy balance over all components of a solved network is zero (branch losses aside).",
  ["inputs", "configurations"], "all solved networks, groupings, bus-carrier selections and weightings",
  "Tests only check that functions run and a few totals.",
  ["pypsa/statistics/expressions.py"], [("StatisticsAccessor", "pypsa/statistics/expressions.py")])
p("C20", "Spatial clustering preserves totals and re-attaches components",
  "Clustering a network by a bus map yields one bus per cluster, attaches every one-port component and link to the cluster of its original bus, keeps exactly the lines and links that join different clusters, and preserves total capacity, load and dispatch potential per carrier where components are aggregated (capacities and set points add up, per-unit profiles are capacity-weighted).",
  ["inputs", "configurations"], "all networks, bus maps, aggregation options",
  "Tests cluster one or two example networks.",
  ["pypsa/clustering/spatial.py"], [("get_clustering_from_busmap, aggregateoneport, aggregatelines, aggregatebuses", "pypsa/clustering/spatial.py")])
p("C21", "Rolling horizon covers every snapshot and carries state over",
  "Rolling-horizon optimisation solves consecutive windows of the given length, one starting every (length minus overlap) snapshots for as long as requested snapshots remain and cut off at the last one, so that every requested snapshot is optimised; an overlap that is not smaller than the length is rejected. Each window starts from the storage levels stored for the snapshot immediately before it, so that results equal those of optimising the windows by hand one after another.",
  ["inputs", "configurations", "histories"], "all snapshot counts, horizon lengths and overlaps, all storage assets",
  "Tests run two or three lengths.",
  [O + "abstract.py"], [("optimize_with_rolling_horizon", O + "abstract.py")])
p("C22", "Security-constrained dispatch respects ratings after every outage",
  "Security-constrained optimisation adds, for every considered (non-bridging) branch outage, every remaining branch of the same sub-network and every snapshot, both limits on flow plus outage factor times the outaged branch's flow against the branch's rating (fixed or variable), so that the dispatch stays within ratings after any single considered outage.",
  ["inputs", "configurations", "fault_sequences"], "all topologies, outage selections, fixed and extendable branches, snapshots",
  "One example network is tested.",
  [O + "abstract.py"], [("optimize_security_constrained", O + "abstract.py"), ("calculate_BODF", "pypsa/pf.py")])
p("C23", "Modelling to generate alternatives keeps cost within the slack",
  "The near-optimal alternative optimises exactly the given weighted combination of model variables in the requested sense subject to all original constraints and total cost at most (1 + slack) times the optimal cost.",
  ["inputs", "configurations"], "all networks, weights, senses and slacks",
  "One example is tested.",
  [O + "mga.py"], [("optimize_mga", O + "mga.py")])
p("C24", "Iterative transmission expansion updates impedances consistently",
  "In each iteration the impedance of an expanded line (reactance, and resistance in DC networks) is its initial impedance scaled by the ratio of its initial to its current capacity, typed lines instead get a number of parallel circuits in proportion to their capacity, and iteration ends once (after the minimal number of iterations) the mean square change of the capacities falls below the given threshold, or at the maximal number of iterations. The final dispatch is computed with these branches' capacities fixed at the expanded values (rounded to unit sizes where given), and afterwards they are extendable again with their original capacities.",
  ["inputs", "configurations", "histories"], "all networks and iteration settings",
  "One example is tested.",
  [O + "abstract.py"], [("optimize_transmission_expansion_iteratively", O + "abstract.py")])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
