"""Writes MANIFEST.json: the checks that exist, the rest as not applicable (yet)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIN = "TLA+ specification; TLC generates mechanism files, TLC judges recorded executions against the spec (trace validation)"
SIM = "TLA+ state machine of the batched simulation; TLC generates solver behaviours that drive the real run_simulation, and TLC judges the recorded runs against the specification"
PART = "TLA+ specification of gas-particle exchange; TLC generates compositions, bins and gas levels, TLC judges what the generated and compiled partitioning code did with them"
PROP = "TLA+ specification; TLC generates the inputs and checks the specification's own promises, TLC judges what the real functions returned for them"
DRV = "TLA+ specification of the drivers' life cycle and set-up; TLC generates histories and settings that are run through the real driver scripts in a scratch directory, TLC judges the recorded simulations"
CHECKS = {
 "C01": (KIN, "Every mechanism text TLC generated (exhaustive in a small scope, random beyond) parses to the reactions the specification's ReadReaction actions give. Bounded: sizes and layouts of MechGen; shipped files are read by an independent reader."),
 "C02": (KIN, "Numbering after every prefix of every mechanism, and the positions every generated artefact reads and writes, equal those of the specification. Bounded by the generated mechanisms."),
 "C03": (KIN, "Reactant products of the generated Numba, Fortran and OpenMP code equal Kinetics!RateProduct on generated mechanisms and probe vectors, relative tolerance 1e-6."),
 "C04": (KIN, "Tendencies of the generated code equal Kinetics!TendencyTerms on generated mechanisms and probe rates; conservation and background inertness model-checked in the spec."),
 "C05": (KIN, "Jacobians of the generated code equal the derivative of the tendency, entry by entry including the zeros; that the spec's Jacobian is the derivative is model-checked in a small scope."),
 "C06": (KIN, "Every expression of RateGen (exhaustive for small ones, random for larger) and every shipped expression evaluates in the generated Numba, Fortran and OpenMP rate modules to Rates!Val within the propagated single-precision error bound, along every conversion history RateConv enumerates."),
 "C07": (KIN, "All 39 named constants and 36 photolysis rates against Rates!Const and Rates!Photo on a grid plus random temperatures, water contents and times over many days; that the photolysis rates repeat daily and vanish at night is model-checked."),
 "C08": (KIN, "Saved index sets for mechanisms covering all 1228 names of the MCM peroxy-radical list, near-miss decoys, and no peroxy radicals; the run-time sum is observed through rates proportional to RO2 in all simulations."),
 "C09": (SIM, "That any split into batches is one integration is model-checked (all run/batch lengths and start times of a small scope); the four real run_simulation functions are driven by generated solver behaviours whose tendencies reveal time of day, temperature, water and peroxy total."),
 "C10": (SIM, "Everything returned or written by generated runs of all four simulations equals the rows, times and labels of the specification's run; nothing is written when not asked for."),
 "C11": (SIM, "First solver state of generated runs (random initial mixtures, orders and units) equals the specification's initial state in all simulations."),
 "C20": (SIM, "Every tendency and Jacobian handed to the solver at arbitrary states and moments equals the specification's ODE (rates, mass action, stoichiometry, gas-particle exchange), real generated code, f2py-built Fortran included."),
 "C12": (PART, "The generated partitioning code conserves each compound between gas and particles for generated set-ups; conservation, untouched and non-organic entries are model-checked; whole simulations too. Tolerance 1e-6 (single-precision pi in the generated code)."),
 "C13": (PART, "Radius, water activity, flux and direction of transfer of the generated partitioning code equal the specification's for generated set-ups, gas placed around equilibrium."),
 "C14": ("TLA+ interleaving model of the parallel loops (TLC, exhaustive) and TLA+-generated schedules replayed in the real generated OpenMP code on a scheduling runtime of our own; TLC judges the results", "The parallel loops of the generated code give the sequential result on every generated schedule of generated mechanisms and populations. Bounded: schedules at the granularity of shared 4-byte words' definitions in harness/omp; that private/shared/reduction classes suffice is model-checked."),
 "C15": (PROP, "Classes, property arrays and kinetic properties of the real property calculation equal those of Selection.tla on generated species sets, and the entries the aerosol drivers hand the solver show in the tendencies of generated driver runs, with a stand-in for UManSysProp that answers from the generated tables (the package is not installed); vapour pressures on the cut-off included."),
 "C16": (PROP, "Sizes and numbers of the real size distribution equal SizeDist.tla on a grid of populations; the promises (total, one mode, range, log spacing) are model-checked on the same grid."),
 "C19": (PROP, "Structures attached by the real reader, and the real snapshot reader's compounds, equal Attach.tla on generated databases and snapshots (Pybel is a stand-in that keeps the SMILES)."),
 "C17": (DRV, "Histories of fresh and re-using runs over two mechanisms whose files change (all of three runs for the Numba driver, a sample for the others) start the simulation Lifecycle.tla says; that clearing makes numbering and code agree is model-checked. Drivers run unmodified except for the values of literals."),
 "C21": (DRV, "The first state, tendencies, times and outputs of runs of the four drivers under generated settings equal those of the set-up Driver.tla derives from the settings."),
 "C22": (SIM, "Everything handed to matplotlib (a recording stand-in) by the two contribution plots for generated snapshots, and by generated runs of all four simulations and a driver, equals the stacks, curves, titles and labels of Plots.tla / Simulation.tla; that stacks tile the unit interval and ignore water, gas and negative amounts is model-checked."),
 "C18": (KIN, "Saved sparse matrices and index files equal the specification's reactions on generated mechanisms."),
}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            t, n = CHECKS[i]
            checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
        else:
            na.append(dict(property=i, reason="its check is not built yet"))
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as h:
        json.dump(m, h, indent=1); h.write("\n")
main()
