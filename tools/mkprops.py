#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": ["pypower/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "A successful AC power flow is a physical solution of the given case",
     "Whenever an AC power flow (any algorithm) reports success, the returned case obeys the circuit equations: at every in-service bus generation minus load equals what the branches and shunt draw at the returned voltages, and every reported branch flow is the one its pi/transformer model gives. "
     "Set points are honoured: voltage-controlled buses keep their generator's voltage set point, non-slack units keep their real output, the reference bus keeps its angle, and slack mismatch is put on the first in-service unit at the reference bus, with reactive output of units sharing a bus split in proportion to their ranges. "
     "Out-of-service units and branches report zero, isolated buses and everything connected to them take no part, and all input-only columns are returned as given.",
     ["inputs", "configurations"], "every case reachable by up to 2 (quick) or 3 (thorough) elementary edits of small base networks (statuses, bus types, taps, phase shifts, parallel lines, unit placement, numbering, row orders, base MVA, loads, shunts), under each of the four algorithms",
     "t_pf compares a single 9-bus case with stored numbers; taps, shifters, shared buses, offline units, isolated buses, renumbering and their combinations are never exercised together.",
     ["runpf.py", "pfsoln.py", "newtonpf.py", "fdpf.py", "gausspf.py", "bustypes.py", "makeSbus.py", "makeYbus.py", "makeB.py", "ext2int.py", "int2ext.py"],
     [("solve, update, convert back", "runpf.py: runpf"), ("dispatch of slack P and shared Q", "pfsoln.py: pfsoln")],
     ["runpf() return value"])

prop("C02", "Power flow solvers tell the truth about convergence",
     "Each AC solver (Newton, fast-decoupled XB and BX, Gauss-Seidel) reports convergence if and only if the largest mismatch component at the voltages it returns is below the requested tolerance, performs at most the requested number of iterations, and changes neither its inputs nor the magnitudes of voltage-controlled buses nor the reference voltages. "
     "A case that has no solution is reported as a failure, never as success; a case that an independent Newton iteration solves from the same start is solved by Newton with the same result, and on lightly loaded cases all algorithms reach that same solution.",
     ["inputs", "configurations"], "networks x load levels from light to beyond the solvability limit x tolerance x iteration limits (0,1,2,..., default) x algorithms, all bus-type assignments",
     "the tests only run each algorithm once on one easy case at default settings; stopping rules, iteration caps and failing cases are not exercised.",
     ["newtonpf.py", "fdpf.py", "gausspf.py", "runpf.py", "pplinsolve.py", "dSbus_dV.py"],
     [("stopping test", "newtonpf.py, fdpf.py, gausspf.py")], ["newtonpf/fdpf/gausspf return values", "runpf success flag"])

prop("C03", "DC power flow solves the linearised network exactly",
     "A DC power flow returns angles that satisfy the lossless linear flow equations exactly: each in-service branch carries (angle difference minus phase shift)/(x times tap), flows are equal and opposite at the two ends, every bus balances including shunt conductance, and the slack unit takes up the difference. "
     "Voltage magnitudes are reported as 1, reactive flows as 0, the reference angle is kept and non-slack outputs are unchanged.",
     ["inputs", "configurations"], "every case reachable by up to 2/3 elementary edits of the base networks that leaves the network connected",
     "t_pf's DC section does not even run on this tree; tests hold one stored 9-bus solution.",
     ["runpf.py", "rundcpf.py", "dcpf.py", "makeBdc.py", "makeSbus.py"], [("B matrices and phase-shift injections", "makeBdc.py"), ("slack update", "runpf.py")], ["rundcpf() return value"])

prop("C04", "Enforcing reactive limits yields a limit-respecting, truthful solution",
     "With reactive limit enforcement on (all at once or one at a time), a successful power flow has every in-service unit within its reactive limits; units fixed at a limit sit exactly at that limit and their bus is no longer held at set point, while buses without a unit at a limit are still held at their set point. "
     "The result is a solution of the original case (loads, statuses and real outputs of non-slack units as given, original reference angle), it equals the plain power flow when nothing is violated, and when every remaining regulating unit violates, failure is reported.",
     ["inputs", "configurations"], "all assignments of a small alphabet of reactive ranges to units in small networks (including several units per bus and the slack) x enforcement mode x algorithm",
     "no test switches the option on.", ["runpf.py", "bustypes.py", "pfsoln.py"], [("PV to PQ conversion loop", "runpf.py")], ["runpf() with ENFORCE_Q_LIMS"])

prop("C05", "Internal and external numbering conversions are exact inverses",
     "Converting a case to internal form keeps exactly the in-service elements on non-isolated buses, numbered consecutively and units ordered by bus, with every reference translated consistently. "
     "Converting back reproduces the original case: every bus, unit, branch, cost and area row and every column that was not modified internally, in the original order and numbering, with internal modifications landing in the right rows; the same holds for user matrices and fields converted with the ordering helpers, for any mix of orderings and any dimension, sparse or dense.",
     ["inputs", "histories"], "all small cases over status x type x numbering x ordering alphabets, and all sequences of convert/modify/convert-back steps up to a bounded depth",
     "tests convert one stored case; the field helpers' test cannot run on this tree.",
     ["ext2int.py", "int2ext.py", "e2i_data.py", "i2e_data.py", "e2i_field.py", "i2e_field.py", "get_reorder.py", "set_reorder.py"],
     [("order bookkeeping", "ext2int.py")], ["ext2int/int2ext/e2i_*/i2e_* results"],
     [("order", "saved external data, maps and status lists", "ppc['order']")])

prop("C06", "Results do not depend on how the case is written down",
     "Bus numbering, the order of bus, generator and branch rows, the direction a plain line is written in, writing a nominal tap explicitly or as zero, listing an out-of-service or isolated element versus deleting it, and the choice of system base MVA never change the physical result of a power flow, DC power flow or optimal power flow. "
     "The same element always gets the same flow, output, voltage and price.",
     ["inputs", "configurations"], "every renumbering and every permutation of rows (all of them, for small networks) and every equivalence-preserving rewrite, alone and in pairs, for each analysis",
     "tests use a single case file with a single ordering.", ["ext2int.py", "int2ext.py", "runpf.py", "opf.py", "opf_setup.py", "bustypes.py"],
     [("conversion around every analysis", "ext2int/int2ext callers")], ["runpf, rundcpf, runopf, rundcopf results"])

prop("C07", "Analyses leave the caller's data alone and have no memory",
     "No analysis or query function modifies the case, options, constraint or matrix objects passed in by the caller, whether it succeeds, fails or raises. "
     "Repeating a call, in any order and after any history of other calls in the process, returns the same result as in a fresh process; returned results can be edited without affecting anything else, and a result can be used as the input of the next analysis.",
     ["histories", "inputs"], "all sequences of analyses up to a bounded length on shared case and option objects, compared step by step with the history-free reference run",
     "each test uses fresh data and one call; sharing and aliasing between calls is not observed.",
     ["runpf.py", "opf.py", "opf_args.py", "opf_execute.py", "uopf.py", "runcpf.py", "loadcase.py", "pips.py", "qps_pips.py", "ppoption.py", "scale_load.py", "modcost.py", "add_userfcn.py"],
     [("copying on entry", "loadcase.py, opf_args.py, ppoption.py")], ["argument objects after each call", "results of repeated calls"])

prop("C08", "Case loading accepts every documented form and rejects the rest cleanly",
     "Loading a case gives the same data whether it is passed as a dict, a Python case file (with or without extension) or a MAT-file, as a case dict or as separate matrices; version-1 data are converted to version 2 with every value kept in its proper column, optional parts are carried through, and missing ones are filled or dropped as documented. "
     "Whatever is wrong with the source (missing file, wrong extension, syntax or run-time error, missing or wrongly typed fields) is reported through the documented error codes or exception, and the caller's object is never altered or aliased.",
     ["inputs", "fault_sequences"], "every combination of source form x version x present/absent fields x return form, and every fault in the list at every stage",
     "t_loadcase covers valid forms of one case and a handful of error codes.",
     ["loadcase.py"], [("validation and conversion", "loadcase.py")], ["loadcase() return values, error codes, exceptions"])

prop("C09", "A saved case loads back as the same case",
     "Saving any valid case, solved or not, as a Python file or a MAT-file and loading it again reproduces every matrix and field (bus, gen, branch, areas, costs, user constraints and costs, base MVA, version) to printed precision, including solved columns, extreme and signed values, wide cost rows, and empty or optional parts. "
     "The function returns the name of the file written, writes nothing else, and leaves the case unchanged.",
     ["inputs", "histories"], "all cases over a shape/value alphabet (optional parts, cost models and widths, solved columns, special values) x file format x comment/version arguments, followed by repeated save/load chains",
     "t_savecase stores two case files without user data.", ["savecase.py", "loadcase.py"], [("formatting", "savecase.py")], ["file written", "loadcase(savecase(x))"])

prop("C10", "Network matrices represent the branch model exactly",
     "The bus and branch admittance matrices, DC susceptance matrices with phase-shift injections, and fast-decoupled B'/B'' matrices equal those obtained branch by branch from the documented pi model with taps, phase shifts, charging, shunts and statuses, for any number of parallel or out-of-service branches. "
     "The complex bus injection vector is generation of in-service units minus load, per unit.",
     ["inputs"], "all combinations of branch attribute values over a small alphabet for two-branch motifs and all edit combinations on the base networks",
     "tests compare derivatives or flows on case9/30, which have no combination of taps, shifts, outages and parallels.",
     ["makeYbus.py", "makeBdc.py", "makeB.py", "makeSbus.py"], [("vectorised branch model", "makeYbus.py: makeYbus")], ["returned matrices"])

prop("C11", "First derivatives of injections and flows are exact",
     "The derivative functions for bus injections, complex branch flows, branch currents and squared flow limits return the exact partial derivatives with respect to every voltage angle and magnitude, at every voltage, for every network, identically for sparse and dense inputs.",
     ["inputs"], "all edit-reachable networks x a grid of voltage states x both ends x sparse/dense, compared with independently derived elementwise derivatives",
     "t_jacobian samples one voltage state of case30 in which every magnitude and tap is generic and compares with finite differences.",
     ["dSbus_dV.py", "dSbr_dV.py", "dIbr_dV.py", "dAbr_dV.py"], [("closed-form derivatives", "dSbus_dV.py etc.")], ["returned jacobians"])

prop("C12", "Second derivatives and OPF callbacks are mutually consistent and exact",
     "The second-derivative functions return the exact Hessians of the multiplier-weighted injections, flows, currents and squared flows. "
     "The AC OPF objective, constraint and Lagrangian-Hessian callbacks agree with each other: gradients are the derivatives of the values and the Hessian is the derivative of the Lagrangian gradient, for every flow-limit type, cost model, user cost and multiplier vector.",
     ["inputs", "configurations"], "all edit-reachable networks x voltage grid x all unit multipliers; OPF callbacks over limit type x cost model x limited-branch subset x user cost",
     "t_hessian evaluates one random point of case30; the OPF callbacks are never checked.",
     ["d2Sbus_dV2.py", "d2Sbr_dV2.py", "d2Ibr_dV2.py", "d2ASbr_dV2.py", "d2AIbr_dV2.py", "opf_costfcn.py", "opf_consfcn.py", "opf_hessfcn.py"],
     [("closed-form Hessians", "d2*.py"), ("OPF callbacks", "opf_costfcn.py, opf_consfcn.py, opf_hessfcn.py")], ["returned matrices and vectors"])

prop("C13", "Shift factors predict DC flows and outages exactly",
     "PTDF columns give the exact change of every DC branch flow per unit injection withdrawn at the chosen slack, for every choice of slack bus or slack distribution, and flows do not depend on that choice for balanced transfers. "
     "LODF entries give the exact change in every remaining branch flow when a branch is outaged, with -1 on the diagonal, for every outage that keeps the network connected.",
     ["inputs"], "all edit-reachable connected networks x every slack bus and a set of distributions x every injection bus x every branch outage, compared with re-solved DC power flows",
     "t_makePTDF/t_makeLODF test one network and one dispatch.", ["makePTDF.py", "makeLODF.py", "makeBdc.py"], [("closed form", "makePTDF.py, makeLODF.py")], ["returned matrices"])

prop("C14", "Cost evaluation and cost transformations follow their algebra",
     "Total cost of a unit equals its polynomial or piecewise-linear (with extension of the end segments) cost at its output, in any mix of models and widths; polynomial cost derivatives of every order match. "
     "Scaling or shifting a cost by value or quantity changes the cost curve exactly as documented and composes, splitting P and Q costs loses nothing, and converting a polynomial to piecewise-linear form interpolates it at the requested points and leaves other rows alone.",
     ["inputs", "histories"], "all cost rows over model x order x coefficient alphabets, evaluated on a quantity grid, and all sequences of up to three transformations",
     "t_totcost and t_modcost use one table of costs and single transformations; polynomial-to-piecewise conversion is never run.",
     ["totcost.py", "polycost.py", "modcost.py", "pqcost.py", "poly2pwl.py"], [("evaluation and transformation", "totcost.py, polycost.py, modcost.py")], ["return values"])

prop("C15", "LP/QP solutions are optimal, certified and honestly reported",
     "For any convex LP or QP given as arguments or as a problem dict, a success flag means the returned point satisfies all bounds and constraints, attains the minimum objective value, and comes with sign-correct multipliers satisfying the optimality conditions. "
     "Infeasible or unbounded problems never get a success flag; every problem with independent equality constraints, a strictly feasible point and a bounded set of solutions is solved; and omitted arguments mean absent constraints.",
     ["inputs", "configurations"], "all problems over small integer coefficient alphabets in 1-3 variables with 0-3 constraints (bounds, equalities, one- and two-sided inequalities, redundant and degenerate ones) x objective types x calling forms x solver selection, versus complete active-set enumeration",
     "t_qps_pypower solves seven fixed problems.", ["qps_pypower.py", "qps_pips.py", "pips.py"], [("interior point", "pips.py"), ("argument handling", "qps_pips.py, qps_pypower.py")], ["returned x, f, flag, multipliers"])

prop("C16", "The nonlinear solver reports first-order optimal points truthfully",
     "When the nonlinear interior-point solver reports convergence, the returned point is feasible within tolerance, its objective value is the objective there, and with the returned multipliers it satisfies the first-order optimality conditions within tolerance; all bounds and linear and nonlinear constraints take part whatever combination is present. "
     "When the iteration limit is hit or the problem is infeasible it reports non-convergence, and it never exceeds the iteration limit. Convex quadratic programs with a strict interior are solved, and strictly feasible bounded convex programs are solved from some explored start.",
     ["inputs", "configurations"], "a family of small nonlinear programs over all combinations of bound, linear and nonlinear constraint kinds x starting points x option settings (step control, iteration limits, tolerances, cost scale) x calling forms",
     "t_pips solves five fixed problems with default settings.", ["pips.py"], [("primal-dual interior point", "pips.py: pips")], ["pips() solution dict"])

prop("C17", "DC optimal power flow is truly optimal and its prices support it",
     "A successful DC OPF returns a dispatch and angles that satisfy unit limits, DC network equations, branch ratings and angle-difference limits, whose reported cost is the true cost of that dispatch and cannot be improved by any other feasible dispatch. "
     "Reported bus prices and limit multipliers satisfy the optimality conditions; infeasible cases are reported as failures, feasible ones succeed.",
     ["inputs", "configurations"], "edit-reachable small networks x cost models (linear, quadratic, piecewise-linear, mixed) x rating/limit/angle-limit alphabets, compared with an independent exhaustive active-set optimum",
     "t_opf_dc_pips has one 9-bus case with stored answers.", ["dcopf_solver.py", "opf_setup.py", "opf_execute.py", "opf.py", "makeAy.py", "makeAang.py", "makeBdc.py"],
     [("QP assembly", "dcopf_solver.py, opf_setup.py")], ["rundcopf() results"])

prop("C18", "AC optimal power flow solutions are feasible, consistent and locally optimal",
     "A successful AC OPF returns voltages and dispatch that satisfy the power balance, voltage, unit (including reactive cost, capability-curve and constant-power-factor) limits and branch limits of the chosen type (apparent power, real power or current), with reported flows and objective equal to those of the returned point. "
     "With the reported prices and multipliers the first-order optimality conditions hold, and no sampled-grid alternative dispatch in small cases is cheaper; failures are flagged.",
     ["inputs", "configurations"], "edit-reachable small networks x flow-limit type x cost model x limit alphabets (voltage, P, Q, rating, angle difference, capability curve, dispatchable loads), judged by independent physics, independent gradients and an exhaustive dispatch grid",
     "t_opf_pips has one 9-bus case with stored answers.", ["opf.py", "opf_setup.py", "opf_execute.py", "pipsopf_solver.py", "opf_costfcn.py", "opf_consfcn.py", "opf_hessfcn.py", "update_mupq.py", "makeAvl.py", "makeApq.py"],
     [("problem assembly and result extraction", "opf_setup.py, pipsopf_solver.py")], ["runopf() results"])

prop("C19", "OPF constraint builders describe exactly the intended feasible sets",
     "The linear constraints built for piecewise-linear costs, reactive capability curves, dispatchable-load power factors and angle-difference limits admit a point if and only if it satisfies the documented requirement (cost variable on or above the curve, point inside the capability trapezoid, constant power factor, angle difference within its limits), for the right unit or branch, and unconstrained ones contribute nothing.",
     ["inputs"], "all parameter combinations over an alphabet of curves/limits for one to three units or branches in every order, with membership compared on a grid of points",
     "tests only see the builders through a stored OPF answer.", ["makeAy.py", "makeApq.py", "hasPQcap.py", "makeAvl.py", "makeAang.py", "isload.py"],
     [("row construction", "makeAy.py, makeApq.py, makeAvl.py, makeAang.py")], ["returned A, l, u"])

prop("C20", "User-supplied OPF constraints and costs mean what they say",
     "User linear constraints, extra variables with bounds, and generalized user costs (linear, quadratic, dead-zone, shifted, scaled) given with a case, as arguments or through the option fields, are applied in the caller's external ordering to the stated variables: the solution satisfies them, its objective includes exactly their cost, the optimum equals that of the problem so defined, and results report their multipliers. "
     "Supplying the same thing by any documented route gives the same answer, also when some units, branches or buses are out of service.",
     ["inputs", "configurations"], "all single and paired user constraints/costs over an alphabet (variable, bound side, cost parameters) x supply route x offline element x DC/AC, against an independent reference optimum or equivalent native formulation",
     "t_opf_* use one fixed set of extras without outages.", ["opf.py", "opf_args.py", "opf_setup.py", "opf_model.py", "ext2int.py", "e2i_data.py", "opf_costfcn.py", "dcopf_solver.py"],
     [("argument parsing", "opf_args.py"), ("reordering", "ext2int.py, opf.py"), ("user cost", "opf_model.py: build_cost_params")], ["opf()/runopf() results"])

prop("C21", "The OPF model object indexes variables, constraints and costs consistently",
     "After any sequence of adding named variable, linear-constraint, nonlinear-constraint and cost sets (empty ones included), the model's index ranges partition 1..N in insertion order, bounds, initial values, matrices and cost parameters returned for the whole problem and for each named set are exactly those supplied placed at those ranges, defaults are as documented, and queries change nothing. "
     "Invalid additions (duplicate names, inconsistent dimensions, unknown variable sets) are rejected and leave the model as it was.",
     ["histories"], "all add/query operation sequences up to a bounded depth over a small alphabet of sets, against a reference list model",
     "the model is only exercised in the one order used by the OPF.", ["opf_model.py"], [("bookkeeping", "opf_model.py")], ["opf_model methods"],
     [("var/lin/nln/cost", "ordered named sets with i1/iN/N", "opf_model attributes")])

prop("C22", "User callbacks run in order, at their stage, exactly once",
     "After any sequence of registrations and removals of callbacks, each stage runs exactly the currently registered callbacks of that stage, in registration order, with their own arguments, each receiving the previous one's result; removing takes out the most recently added matching one and nothing else, invalid stages are rejected. "
     "Every analysis invokes ext2int, formulation and int2ext stages once per solve in that order and printpf/savecase stages only when printing or saving, and a failing callback surfaces as that exception without corrupting the caller's case.",
     ["histories", "fault_sequences"], "all sequences of add/remove/run up to a bounded depth over stages and callbacks, and an exception injected at every callback position",
     "t_opf_userfcns registers one fixed callback set.", ["add_userfcn.py", "remove_userfcn.py", "run_userfcn.py", "ext2int.py", "int2ext.py", "opf.py", "printpf.py", "savecase.py"],
     [("registry and dispatch", "add_userfcn.py, run_userfcn.py")], ["trace of callback invocations"])

prop("C23", "Reserve co-optimisation meets requirements at least cost",
     "With fixed zonal reserves enabled, a successful OPF procures in every zone at least the requirement from in-service participating units, keeps every unit's energy plus reserve within capacity and reserve within its offered quantity and ramp limit, at minimum total energy plus reserve cost. "
     "Reported reserve quantities, limits, prices and costs refer to the right external units (zero for non-participants), and disabling reserves restores the plain OPF.",
     ["inputs", "configurations"], "all assignments over an alphabet of reserve limits, costs, ramp limits, zone memberships and requirements x unit outages x DC/AC, versus an independent optimum; plus on/off toggle sequences",
     "one stored case is tested.", ["toggle_reserves.py", "runopf_w_res.py"], [("extra variables, constraints and cost", "toggle_reserves.py")], ["results['reserves']"])

prop("C24", "Interface flow limits are enforced on the sum of directed flows",
     "With interface limits enabled, a successful DC OPF keeps the directed sum of the branch flows of every limited interface between its bounds, at the least cost among such dispatches; reported interface flows and multipliers refer to the right interface, whatever branch numbering or outages the case has. "
     "Disabling the limits restores the plain OPF.",
     ["inputs", "configurations"], "all small interfaces (subset of branches x directions x bound alphabet, one or two at once) x branch outages x orderings, versus an independent optimum; plus on/off sequences",
     "no test enables interface limits on this tree other than one stored case.", ["toggle_iflims.py"], [("rows from DC flow equations", "toggle_iflims.py")], ["results['if']"])

prop("C25", "DC transmission lines transfer, lose and limit power as specified",
     "With DC lines enabled, each in-service line withdraws power at its from bus and injects that power minus its linear loss at its to bus, within its power and reactive limits, in power flow and OPF alike; its cost is counted and its results (flows, losses, voltages, multipliers) are reported in the external ordering, out-of-service lines keeping their input values with zero multipliers. "
     "The case's own units, costs and their order are returned as given, and disabling restores the plain analysis.",
     ["inputs", "configurations"], "all assignments over an alphabet of line status, limits, loss coefficients, cost and placement for one or two lines x unit outages x analyses, versus an equivalent hand-built case",
     "t_dcline stops after 13 checks on this tree.", ["toggle_dcline.py", "idx_dcline.py"], [("dummy generator expansion", "toggle_dcline.py")], ["results['dcline']"])

prop("C26", "Unit decommitment never makes things worse and only ever switches off",
     "The unit-decommitment OPF returns an OPF solution of a commitment obtained from the given one only by switching off units (never dispatchable loads, never units that were already off), whose objective is no higher than the plain OPF's when that is feasible and which cannot be lowered by switching off any single further unit allowed by its rule. "
     "Units are first shed, most expensive at minimum output first, while the minimum outputs exceed the load; failure is reported only if the OPF of the commitment then left fails.",
     ["inputs", "configurations"], "all assignments over an alphabet of minimum outputs, cost constants and loads for up to four units, in DC and AC, versus OPF runs of every commitment",
     "test_pypower runs it once on case24 and checks nothing about the commitment.", ["uopf.py", "runuopf.py", "runduopf.py", "fairmax.py"], [("stage search", "uopf.py")], ["runuopf() results"])

prop("C27", "Continuation power flow traces genuine solutions and stops where told",
     "Every point a continuation power flow reports solves the AC power flow of the base case moved by the reported lambda toward the target, starting from the base solution at lambda 0 with continuous progress. "
     "It stops at the requested lambda, at the nose (maximum lambda of the curve), or after a full trace, as asked; step-size, parameterization and adaptive options change the spacing but not the curve, the maximum lambda reported is the largest of the trace, and user callbacks see each accepted step in order.",
     ["inputs", "configurations"], "small networks x transfer directions x parameterization x step sizes x adaptive on/off x stop criterion, each point re-solved independently",
     "no stable test runs it.", ["runcpf.py", "cpf_predictor.py", "cpf_corrector.py", "cpf_p.py", "cpf_p_jac.py", "cpf_callbacks.py"], [("predictor-corrector", "runcpf.py")], ["runcpf() results and callback trace"])

prop("C28", "Load totals and load scaling add up",
     "Totalling load gives, per zone or bus, exactly the sum of fixed demand and (nominal) in-service dispatchable demand as selected, for any zone map. "
     "Scaling load by factor or to a target quantity changes exactly the selected kind of load in the selected zones by the required amount (active only, or active and reactive together so that power factors are kept), leaves everything else and the arguments untouched, totals afterwards equal the target, and an impossible target is rejected.",
     ["inputs", "histories"], "all small cases over load/dispatchable placement x zone maps x option combinations x factor/quantity, and sequences of two scalings",
     "t_scale_load does not run on this tree; t_total_load stops after 3 checks.", ["total_load.py", "scale_load.py"], [("per-zone factors", "scale_load.py")], ["return values"])

prop("C29", "Options default, override and fail predictably",
     "Option vectors start from the documented defaults, each named override changes exactly that option in the returned dict and nothing else, overrides compose in any order, and the options given by the caller are the ones the analysis obeys (formulation, algorithm, tolerances, iteration limits, output switches). "
     "Convenience wrappers are equivalent to setting the corresponding option.",
     ["histories", "configurations"], "all sequences of up to three overrides over all options x calling forms, and every wrapper versus the explicit option",
     "tests set a few options once.", ["ppoption.py", "rundcpf.py", "rundcopf.py", "dcopf.py", "runopf.py", "runuopf.py", "runduopf.py"], [("merge", "ppoption.py")], ["ppoption() dict", "wrapper results"])

prop("C30", "Printed reports state the results they print",
     "Printing results never fails or changes them for any combination of output options, case contents and solver outcome, and every section prints only when its option selects it. "
     "The numbers printed (bus, branch, generator tables, totals, limits and their multipliers) are the values in the results rounded to the printed precision, in external numbering, listing exactly the in-service or binding elements the section promises.",
     ["inputs", "configurations"], "all combinations of output switches over solved PF/DC PF/OPF/failed results of small edit-reachable cases, with the report parsed back",
     "test_pypower prints reports but checks no content.", ["printpf.py", "runpf.py", "runopf.py"], [("report writer", "printpf.py")], ["text written"])

prop("C31", "Output files are written as asked whatever happens around them",
     "When a report file or solved-case file name is given, the report is appended to that file (not printed) and the solved case is written to a loadable file holding the returned results; when the file cannot be opened the failure is reported without losing the computed results. "
     "The command-line entry points run the analysis selected by their arguments and options with the same outcome as the library call, and reject bad arguments.",
     ["configurations", "fault_sequences"], "every analysis x output form x file state (absent, existing, unwritable directory) x command-line option, in a scratch directory",
     "not tested.", ["runpf.py", "runopf.py", "runuopf.py", "runcpf.py", "main.py", "savecase.py", "opf_args.py"], [("output tail of each run function", "runpf.py etc."), ("option parser", "main.py")], ["files written", "exit status"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
