#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, check.py and the notes below."""
import json, os, sys
sys.dont_write_bytecode = True
import check
V = os.path.dirname(os.path.abspath(__file__))
NOTES = {
    "Q01": ("property-based testing: generated QPs, independent KKT-residual oracle", "Every generated problem reported Optimal satisfied the optimality conditions of the user's data; covers all 8 problem representations; sampled, not exhaustive."),
    "Q02": ("property-based testing: QPs proved free of certificates by construction", "No false infeasibility verdict on generated problems for which the absence of any certificate is proved per case; sampled."),
    "Q03": ("property-based testing: QPs of known status by construction", "Right verdict on every generated well-conditioned problem; 'no limit' is represented by 1e5 (1e6 unscaled) iterations."),
    "Q04": ("differential property-based testing across problem representations", "All representations agree in verdict and, up to their own residuals, in the solution; sampled."),
    "Q05": ("metamorphic property-based testing", "Verdict, objective and solution transform as they should under random compositions of nine equivalence transformations; sampled."),
    "Q06": ("stateful model-based testing of solver objects against fresh solvers", "Random histories of up to 24 operations on up to 4 objects; sampled."),
    "Q07": ("property-based testing: warm versus cold differential", "Nine kinds of warm starts on problems of known status; sampled."),
    "Q08": ("property-based testing: limited versus unlimited runs", "Limits chosen so that no verdict depends on the wall clock (0 s or 1 h); sampled."),
    "S01": ("property-based testing against a dense matrix model", "block_add/block_write/block_add_identity/block_write_identity against dense arithmetic for all storage orders, expression kinds and shapes drawn; sampled."),
    "S02": ("property-based testing against a dense matrix model", "set_zero, count_explicit_zeros and mark_explicit_zeros on matrices, blocks and vectors in all storage states; sampled."),
    "S03": ("property-based testing against dense factorizations and products", "The remaining sparse utilities against dense arithmetic; sampled."),
    "N01": ("property-based testing of random TNLP query sequences against a dense model", "Every answer Ipopt can ask for compared with the user's program, under the address and undefined-behaviour sanitizers; sampled."),
    "N02": ("property-based testing: generated programs through the real Ipopt, first-order-condition oracle", "Real Ipopt solves of convex, non-convex, infeasible and rejected programs; convergence itself is Ipopt's and is only demanded for convex programs (in one of three ways); sampled."),
    "O01": ("property-based testing with a recording stand-in for OSQP", "Everything handed to and returned by OSQP is compared exactly; OSQP itself is not installed, so its interface is a stand-in."),
    "E01": ("stateful model-based testing of filter histories against textbook equations", "Every operation of a history is compared with a model evaluated from the state before it, over 8 state spaces and 3 steppers; nonlinear prediction by extrapolation to zero step size; the Lie-group library is a stand-in; sampled."),
    "C01": ("stateful model-based testing of controller histories", "Histories of up to 25 operations over 6 state spaces and 8 time types against a model of the control law; the Lie-group library is a stand-in; sampled."),
    "A01": ("property-based testing: generated systems, dense reference model and optimality oracle", "Constraint rows of the safety filter against an independent simulation of the backup trajectory and its sensitivity, filtered inputs against an enumeration of active sets; the Lie-group library is a stand-in; sampled."),
    "M01": ("stateful model-based testing of mesh histories, independent quadrature and polynomial oracles", "Partitions after histories of refinements against a model; nodes, weights, matrices, search and evaluation against independently computed rules and random polynomials over six degree ranges; sampled."),
    "M02": ("property-based testing: generated functions with exact derivatives, dense chain-rule reference", "Values, Jacobians and weighted Hessians of every mesh function against dense assembly, for dense, sparse and numerical inner derivatives and reused buffers; sampled."),
    "M03": ("property-based testing: exact integration reference, exact solutions with planted violations", "Error estimates against exact integration of the interpolant, zero on exact solutions, flagged exactly in the violated intervals, refinement confined to them; sampled."),
    "L01": ("property-based testing: generated problems, dense chain-rule reference and conversion round trips", "Variables, objective, constraints, bounds and first and second derivatives of the NLP of random problems against dense assembly by definition, for dense, sparse and numerical inner derivatives; solution conversion round trips; sampled."),
    "L02": ("property-based testing: generated problems and re-transcription histories, dense second-order model by definition", "Every coefficient of the QP after complete and partial transcriptions into the same storage against a dense model; for linear-quadratic problems also values at random deviations; trajectories of random solutions; groups with numerical reference; sampled."),
    "L03": ("property-based testing: generated problems on Lie groups, differences and kinematics as the reference", "Flattened functions against the original functions in the chart (dynamics by following states along the vector field), both derivatives against differences, unflattened solutions; 7 combinations of spaces; sampled."),
    "L04": ("property-based testing with planted derivative errors", "Random problems with right derivatives or one displaced entry; the judge is compared with what was planted; sampled."),
    "R01": ("stateful model-based testing: controller histories against a dense interior-point reference", "Every call of a history compared with an independent solution of the problem assembled by definition, on 4 state spaces; the few problems the reference does not solve only have their optimal plans checked for feasibility; sampled."),
    "T01": ("property-based testing with an exact integer model", "24 time types including a ROS time stand-in, exact rational reference; sampled."),
}
NA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in check.CHECKS and i in NOTES:
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=NOTES[i][0], level="exploration", level_note=NOTES[i][1]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
