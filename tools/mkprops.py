#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))

PE="Parse_eqn_file.py"; RC="rate_coeff_conversion.py"
NOASSERT="The repository's tests parse one shipped mechanism and only check that generation and compilation run: their numeric comparisons are never asserted."

prop("C01","Parsing keeps every reaction exactly as written",
 "Parsing a KPP/MCM mechanism file yields every reaction in it, exactly once and in file order, each with exactly the reactants, products, stoichiometric coefficients (repeated terms added up) and rate-coefficient text that the file gives it. Nothing depends on the reaction labels, on how a reaction is laid out over lines, blanks and tabs, or on whether a coefficient is written as 2, 2.0 or 2.0 followed by a blank; 'hv' is never a species.",
 ["inputs"],"all well-formed mechanism files: any number of reactions, any species names, any mixture of coefficients, repeated terms, photolysis terms and layouts",
 NOASSERT+" The shipped mechanisms contain no coefficients at all and labels 1..n only.",
 [PE],[("equation splitting, coefficient extraction and loss/gain accumulation",PE+":extract_mechanism")],
 [("loss","coefficient of every reactant per reaction",PE+":loss_dict"),("gain","coefficient of every product per reaction",PE+":gain_dict"),("rates","rate text per reaction",PE+":rate_dict")],
 ["return value of extract_mechanism"])

prop("C02","Species numbering is one bijection shared by every artefact",
 "Parsing numbers the species 0..n-1 without gaps or sharing, in order of first appearance, with name-to-number and number-to-name being inverse of each other. Every generated artefact (reactant products, loss/gain, Jacobian, index arrays, sparse matrices, peroxy-radical indices, saved column names) refers to a species by that same number, in the Python and in the Fortran (one-based) variants alike.",
 ["inputs"],"all well-formed mechanism files",
 NOASSERT+" An off-by-one or a swapped index in one artefact passes them.",
 [PE,"ODE_solver.py","f2py/ODE_solver.py"],[("first-appearance numbering",PE+":extract_mechanism"),("index emission",PE+":write_*")],
 [("numbering","species name <-> array index",PE+":species_dict, species_dict2array")],
 ["return value of extract_mechanism","generated modules","<name>_output_names.csv"])

prop("C03","Each reaction proceeds at its mass-action reactant product",
 "For every mechanism and every concentration vector, the generated reactant-product functions, in the Numba and in the Fortran variant, with OpenMP or without, return for each reaction the product of its reactant concentrations each raised to that reactant's total stoichiometry, fractional and repeated reactants included.",
 ["inputs","configurations"],"all mechanisms, all concentration vectors, both backends, OpenMP on and off",
 NOASSERT+" No shipped mechanism has a coefficient, and no reaction is compared with an independent mass-action value.",
 [PE],[("Numba emission",PE+":write_reactants_indices"),("Fortran emission",PE+":write_reactants_indices_fortran")],
 [],["reactants() of the generated modules"])

prop("C04","Tendencies are net stoichiometry times reaction rate",
 "For every mechanism and every vector of reaction rates, the generated loss/gain functions, in both backends and with OpenMP or without, give each species the sum over reactions of (products minus reactants) times the reaction's rate. Species treated as constant background (AIR, H2O, O2) get a zero tendency, and a quantity conserved by every reaction is conserved by the tendencies.",
 ["inputs","configurations"],"all mechanisms, all rate vectors, both backends, OpenMP on and off",
 NOASSERT+" The loss/gain output is never compared with the mechanism.",
 [PE],[("Numba emission",PE+":write_loss_gain_matrix"),("Fortran emission",PE+":write_loss_gain_fortran")],
 [],["dydt()/loss_gain() of the generated modules"])

prop("C05","The analytic Jacobian is the derivative of the tendencies",
 "For every mechanism, concentration vector and vector of rate coefficients, the generated Jacobian, in both backends and with OpenMP or without, holds in row i and column j the partial derivative of species i's tendency with respect to species j's concentration at fixed rate coefficients. Entries between species that share no reaction are zero, and the rows of background species (AIR, H2O, O2) are zero.",
 ["inputs","configurations"],"all mechanisms, concentrations and rate coefficients, both backends, OpenMP on and off",
 NOASSERT+" A wrong Jacobian entry only slows the implicit solver down or makes it stall, which no test notices.",
 [PE],[("Fortran emission",PE+":write_gas_jacobian_fortran"),("Numba emission",PE+":write_gas_jacobian_numba")],
 [],["jacobian() of the generated modules"])

prop("C06","Converting a rate expression never changes its value",
 "Every rate expression in the supported MCM syntax (numbers with Fortran D or E exponents, TEMP, RO2, H2O, M, N2, O2, named constants, J(n) photolysis rates, EXP/LOG/SQRT/ABS, arithmetic and powers) evaluates in the generated Numba and Fortran rate modules to the value the expression has as written, at every temperature, humidity, peroxy total and time of day. This holds for each reaction whatever the other reactions' expressions are, and however often the expressions were converted for Fortran before being converted for Numba.",
 ["inputs","histories"],"all expressions of the grammar, all conditions, all conversion histories Fortran* Numba*, both backends",
 "The tests run the conversion on one mechanism and assert nothing about values; a mis-replaced substring in a rarely used form compiles and runs.",
 [RC,PE],[("textual conversion",RC+":convert_rate_mcm_numba, convert_rate_mcm_fortran"),("emission",PE+":write_rate_file_numba, write_rate_file_fortran")],
 [],["evaluate_rates() of the generated modules"])

prop("C07","Named rate constants and photolysis rates have their MCM definition",
 "At every temperature, water concentration and time of day, each named constant a rate expression may use (KRO2NO, KRO2HO2, KAPHO2, KAPNO, KRO2NO3, KNO3AL, KDEC, KROSEC, KALKOXY, KALKPXY, KFPAN, KBPAN, KMT01..KMT18, M, N2, O2 and the like) and each photolysis rate J(n) has the value of its MCM definition in the generated Numba and Fortran rate modules, so the two backends agree. Photolysis rates follow the solar zenith angle for the time of day, repeat every day, and vanish at night.",
 ["inputs","configurations"],"all temperatures, water concentrations and times of day, all named constants and photolysis indices, both backends",
 "No test evaluates a named constant or compares the two backends' tables; each table is several hundred lines written twice by hand.",
 [PE],[("constant and photolysis tables",PE+":write_rate_file_numba, write_rate_file_fortran")],
 [],["evaluate_rates() of the generated modules"])

prop("C08","The peroxy-radical sum counts each RO2 species exactly once",
 "For every mechanism the saved peroxy-radical index set holds exactly the indices of those species of the mechanism that the MCM peroxy-radical list names, each once, so that summing the concentrations at these indices gives the total RO2 concentration; a mechanism without any such species yields an empty, usable set and an RO2 total of zero. The summation made at run time uses these indices on the gas-phase concentrations only.",
 ["inputs"],"all mechanisms: any subset of the listed peroxy radicals, in any order and numbering",
 "The RO2 test counts the indices for one shipped mechanism; a missing, merged or duplicated list entry for a species outside that mechanism is invisible to it.",
 [PE,"ODE_solver.py","f2py/ODE_solver.py","Aerosol/f2py/ODE_solver.py"],[("RO2 list and index file",PE+":write_RO2_indices"),("run-time sum","ODE_solver.py:dydt_func")],
 [],["<name>_RO2_indices.npy","the RO2 argument of evaluate_rates"])

prop("C09","The batched integration is one continuous simulation",
 "A simulation split into batches is one continuous integration: each batch starts from exactly the state in which the previous one ended, the first from the initial concentrations, and the batches together cover the requested simulation time. At every moment the rate coefficients are evaluated for the true time of day, the start time plus all simulated time so far, and for the run's temperature, water content and current peroxy total, in the gas-phase (Numba and Fortran) and aerosol simulations alike.",
 ["inputs","histories"],"all start times, simulation times and batch lengths, all solver step sequences within a batch",
 "The solver package is absent from the tests: no test runs a simulation, let alone two batches.",
 ["ODE_solver.py","f2py/ODE_solver.py","Aerosol/f2py/ODE_solver.py","Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"],
 [("batch loop","*/ODE_solver*.py:run_simulation"),("time of day","*/ODE_solver*.py:dydt_func, jac")],
 [("total_time","simulated time before the current batch","run_simulation"),("y0","state the batch starts from","run_simulation")],
 ["problem objects handed to the solver","rhs/jac calls and the generated functions they invoke"])

prop("C10","Outputs hold one row per batch, complete and in order",
 "A run that is asked for output writes one row per batch, in time order, each holding the full end-of-batch state with the columns in species numbering and labelled so; the time axis holds the end time of each batch. What is saved equals what is returned and what the solver produced, no batch is dropped, duplicated or left as zeros, for simulation times that are or are not multiples of the batch length, and nothing is written when no output is asked for.",
 ["inputs","histories"],"all simulation times, batch lengths, solver step counts per batch, save flag on and off",
 "No test runs a simulation or reads an output file.",
 ["ODE_solver.py","f2py/ODE_solver.py","Aerosol/f2py/ODE_solver.py","Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"],
 [("output matrix and save","*/ODE_solver*.py:run_simulation")],
 [("y_matrix","end-of-batch states","run_simulation"),("t_array","end-of-batch times","run_simulation")],
 ["return value","<name>_output.npy","<name>_output_matrix.csv","<name>_output_names.csv","<name>_{y,t,SOA,size}_output.pickle"])

prop("C11","Initial concentrations land on their species, in the right unit",
 "The state a simulation starts from holds, for every species the user gave an initial mixing ratio, that mixing ratio in ppb times 2.55e10 molecules/cc at that species' own index (water in the aerosol simulations is given and kept in molecules/cc), zero for every other gas-phase species, and the initial condensed-phase amounts unchanged behind the gas-phase block.",
 ["inputs"],"all assignments of initial mixing ratios to species, in any order and with water anywhere in it, all condensed-phase initialisations",
 "No test starts a simulation.",
 ["ODE_solver.py","f2py/ODE_solver.py","Aerosol/f2py/ODE_solver.py","Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"],
 [("initial state","*/ODE_solver*.py:run_simulation")],[],["y0 of the first problem object"])

prop("C12","Gas-to-particle partitioning conserves every compound",
 "For every state, number of size bins and choice of condensing compounds, what the partitioning step takes from the gas phase of a compound equals what it adds to that compound over all size bins, compounds that do not condense are left untouched, and each size bin's slots hold the compounds in the same order as the list of condensing compounds, water last. The reported organic aerosol mass is the mass of all condensed compounds except water over all bins.",
 ["inputs","configurations"],"all gas/particle states, all numbers of bins and species, all selections of condensing compounds",
 "The tests only generate and compile this code for one configuration; they never call it with a state and check the result.",
 [PE,"Aerosol/f2py/ODE_solver.py"],[("partitioning emission",PE+":write_partitioning_section_fortran_ignore")],
 [],["dydt_partition() of the generated module","dydt_func of the aerosol simulation"])

prop("C13","Droplet growth follows Raoult, Kelvin and Fuchs-Sutugin exactly per bin",
 "For every state the partitioning step computes, independently for each size bin, the particle size from the bin's mass, composition-weighted density and number, the equilibrium vapour concentration of each compound from its mole fraction (solute core included), Kelvin factor and saturation vapour pressure, and the transfer rate from gas concentration minus equilibrium concentration with the transition-regime corrected diffusivity. A compound therefore evaporates from, is in balance with or condenses onto a bin exactly when its gas concentration is below, at or above that bin's equilibrium concentration.",
 ["inputs"],"all states, all compound properties, all bins",
 "No test evaluates the growth equation against an independent formula.",
 [PE],[("growth equation emission",PE+":write_partitioning_section_fortran_ignore")],[],["dydt_partition() of the generated module: size, water activity and tendency arrays"])

prop("C14","Generated parallel code computes the same under every thread schedule",
 "The OpenMP variants of the generated code (rate coefficients, reactant products, loss/gain, Jacobian, partitioning) give, for every number of threads and every interleaving of their parallel sections or loop iterations, the result of the sequential code: no two concurrent parts write, or read and write, the same memory, each section is executed exactly once, and every statement of the sequential code is in exactly one section.",
 ["schedules","inputs","configurations"],"all interleavings, all thread counts, all mechanisms and numbers of bins, all numbers of cores on the generating machine",
 "The tests compile the sequential variant or run each parallel routine once on one machine; a race shows only under particular interleavings.",
 [PE],[("SINGLE sections",PE+":write_rate_file_fortran, write_reactants_indices_fortran, write_loss_gain_fortran, write_gas_jacobian_fortran"),("PARALLEL DO clauses",PE+":write_partitioning_section_fortran_ignore")],
 [],["OpenMP directives and statements of the generated .f90","results with 1..n threads"])

prop("C15","Condensable selection splits the species cleanly and keeps arrays aligned",
 "For every set of species the property calculation puts each species in exactly one of the condensing and the ignored class: a species is ignored exactly if it has no known structure or, when volatile species are to be dropped, its vapour pressure is above the cut-off. The property arrays it returns (molar mass, density, vapour pressure and the like) hold at each position the properties of the species with that number, and the aerosol drivers hand the solver exactly one entry per condensing species, in increasing species number and with water last, each belonging to the species at its position.",
 ["inputs","configurations"],"all species sets with any pattern of missing structures and volatilities, cut-off on and off, every property method choice",
 "No test calls the property calculation; the packages it needs are absent from the test environment.",
 ["Aerosol/Property_calculation.py","Aerosol/f2py/Aerosol_simulation_f2py.py","Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py"],[("selection loop","Aerosol/Property_calculation.py:Pure_component1"),("selection of entries","Aerosol/f2py/Aerosol_simulation_f2py.py section 5")],
 [],["return value of Pure_component1 and Pure_component2"])

prop("C16","The initial size distribution carries the requested number and range",
 "For every requested total number, median size, width, size range and number of bins, the initial size distribution has one size and one number per bin, sizes spaced evenly in the logarithm from the lower to the upper bound, numbers that are non-negative, follow the log-normal density at their sizes and add up to the requested total.",
 ["inputs"],"all admissible totals, medians, widths, ranges and bin counts",
 "No test calls it.",["Aerosol/Size_distributions.py"],[("log-normal binning","Aerosol/Size_distributions.py:lognormal")],
 [],["return value of lognormal"])

prop("C17","Re-using generated files gives the same simulation as generating them",
 "A run that re-uses the files a previous run of the same mechanism left behind starts the solver with the same species numbering, number of reactions, peroxy-radical indices, initial concentrations and generated functions as the run that generated them, and a run that generates its files never picks up stale ones from another mechanism or an earlier run, in any sequence of fresh and re-using runs.",
 ["histories","configurations"],"all sequences of fresh and re-using runs over mechanisms in one directory",
 "No test runs a driver script, in particular not twice.",
 ["Gas_simulation.py","f2py/Gas_simulation_f2py.py","Aerosol/f2py/Aerosol_simulation_f2py.py","Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py"],
 [("files_exist branch","*simulation*.py main block")],
 [],["arguments the driver passes to run_simulation","files on disk"])

prop("C18","Saved index and matrix files describe the same system as the code",
 "For every mechanism the saved sparse matrices and index files describe the same kinetics as the generated code: the loss/gain matrix times a rate vector equals the generated tendencies (row per species, column per reaction, net coefficients, zero rows for AIR, H2O and O2), and the reactant matrix and index lists hold for each reaction its reactants and their orders.",
 ["inputs"],"all mechanisms, species on both sides of a reaction and repeated terms included",
 "No test reads these files.",[PE],[("sparse matrices",PE+":write_loss_gain_matrix, write_reactants_indices, save_sparse_csr")],
 [],["loss_gain_<name>.npz","reactants_indices_sparse_<name>.npz","<name>_reactant_indices.npy","<name>_reactants_stoich_indices.npy"])

prop("C19","Structures and snapshot concentrations are attached to the right species",
 "When structures are attached to a mechanism's species, each species gets the SMILES string its own database entry gives, species without an entry or without a SMILES (and OH, HO2, O3) get none, and no species of other mechanisms appears. Reading a composition snapshot numbers its compounds 0..n-1 in file order, keeps the first entry of a repeated compound, and attaches to each compound its own concentration.",
 ["inputs"],"all species databases and snapshot files, any order, missing and repeated entries",
 "No test reads a species database or a snapshot.",[PE],[("XML matching",PE+":extract_smiles_species"),("snapshot reading",PE+":extract_species")],
 [],["return values of extract_smiles_species and extract_species"])

prop("C20","The assembled simulation evolves exactly the mechanism's kinetic ODE",
 "For every mechanism and every state and time at which the solver evaluates it, the tendency handed to the solver equals the mechanism's kinetic ODE: net stoichiometry times rate coefficient (at the current temperature, water, peroxy total and time of day) times mass-action product, in the Numba and Fortran gas-phase simulations, and in the aerosol simulation this plus the gas-to-particle exchange on the right slots. The Jacobian handed to the solver is the one belonging to that same state and time.",
 ["inputs","configurations","histories"],"all mechanisms, states, times and batches, all simulation variants",
 "No test assembles the pieces: rate coefficients, reactant products and loss/gain are never combined and compared with the mechanism.",
 ["ODE_solver.py","f2py/ODE_solver.py","Aerosol/f2py/ODE_solver.py"],[("right-hand side","*/ODE_solver.py:dydt_func"),("Jacobian callback","*/ODE_solver.py:jac")],
 [],["rhs and jac attributes of the problem object"])

prop("C21","The driver scripts set up the state their settings describe",
 "For every choice of the settings at the top of a driver script (temperature, relative humidity, hour of day, run and batch length, initial mixing ratios or total organic mass, particle population, property methods, cut-off) the simulation it starts begins at that hour of day, runs for that time in those batches at that temperature and with the water vapour that humidity gives at that temperature, with those initial gas concentrations, and, where there are particles, with cores of the core material of the requested sizes and numbers, each carrying the water that is in equilibrium with the humidity and no other condensed compound.",
 ["inputs","configurations"],"all settings of the four driver scripts",
 "No test runs a driver script.",
 ["Gas_simulation.py","f2py/Gas_simulation_f2py.py","Aerosol/f2py/Aerosol_simulation_f2py.py","Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py"],
 [("set-up sections 1-11","*imulation*.py main block")],
 [],["arguments the driver passes to run_simulation","first state and tendencies of the simulation"])

prop("C22","Plots show the simulated amounts they are labelled with",
 "The curves a gas-phase run plots show, for each labelled species, the base-ten logarithm of its concentration at the end of every batch against the time of that batch's end; the mass curve of an aerosol run shows the condensed organic mass at those times. The contribution plot shows, for every snapshot it is given and every size bin, each condensed compound's share of that bin's organic mass (water excluded, negative amounts counted as nothing), stacked in the order of the compounds without gaps or overlaps, and states the total organic mass of that snapshot - for any number of bins and any number of compounds, those that are left out of the partitioning included.",
 ["inputs","configurations"],"all states, bin counts, compound counts, molecular weights and batch counts",
 "No test draws anything.",
 ["ODE_solver.py","f2py/ODE_solver.py","Gas_simulation.py","Aerosol/f2py/ODE_solver.py","Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py","Plotting.py","Aerosol/f2py/Fixed_yield/Plotting.py"],
 [("contribution plot","Plotting.py:stacked_bar, Aerosol/f2py/Fixed_yield/Plotting.py:stacked_bar"),("curves","ODE_solver*.py:run_simulation with_plots / plot_mass sections")],
 [],["what is handed to matplotlib: bars, curves, titles and labels"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
