"Writes properties.jsonl (the statements live here)."
import json
import os
P = []


def prop(id_, title, statement, over, qtext, why, files, mech, **kw):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anchors.update(kw)
    P.append({"id": id_, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": anchors})


prop("N01", "Nomial arithmetic denotes pointwise arithmetic",
     "For all monomials, posynomials and signomials and all numbers, the result of +, -, *, /, ** and "
     "unary minus, evaluated at any positive point, equals that arithmetic on the operands' values, with "
     "units accounted for. Operands are never changed by an operation, and equal-exponent terms are "
     "merged with exact cancellation, never lost or duplicated.",
     ["inputs", "programs"],
     "every operand with any coefficients, exponents and units, every evaluation point, and every "
     "composition of operations",
     "t_nomials samples a dozen integer-coefficient expressions; merging and cancellation depend on "
     "coincidences between arbitrary real exponents and coefficients.",
     ["gpkit/nomials/math.py", "gpkit/nomials/map.py", "gpkit/small_classes.py"],
     [("Signomial.__add__/__mul__/__truediv__/__pow__/__neg__/__sub__", "gpkit/nomials/math.py"),
      ("Monomial.__pow__/__rtruediv__", "gpkit/nomials/math.py"),
      ("HashVector arithmetic", "gpkit/small_classes.py"), ("NomialMap.__add__", "gpkit/nomials/map.py")])
prop("N02", "Nomials keep a canonical form that decides class, equality and hash",
     "Every nomial produced by construction, arithmetic, substitution or differentiation stores no zero "
     "exponents and no cancelled terms, is a monomial exactly when it has one positive term, a posynomial "
     "exactly when all terms are positive and a signomial otherwise. Two nomials with the same terms and "
     "units compare equal and hash equally however they were built, and different ones do not compare "
     "equal. A nomial with a nonpositive term cannot be created outside a signomials-enabled scope.",
     ["inputs", "programs"],
     "every nomial with any coefficients and exponents reached by any sequence of operations",
     "the tests compare a few literal pairs; incremental hash updates and zero removal only go wrong for "
     "particular exponent coincidences.",
     ["gpkit/nomials/math.py", "gpkit/nomials/data.py", "gpkit/nomials/core.py", "gpkit/small_classes.py"],
     [("Signomial.__init__", "gpkit/nomials/math.py"), ("HashVector.__hash__", "gpkit/small_classes.py"),
      ("NomialData.__eq__", "gpkit/nomials/data.py")])
prop("N03", "Substitution commutes with evaluation",
     "Substituting numbers (including zero, negative numbers, united quantities, and constant nomials) for "
     "any subset of a nomial's variables gives a nomial whose value at every completion of the point equals "
     "the original's value at the full point, and leaves the original unchanged. The bookkeeping that maps "
     "each remaining term back to the original terms gives fractions that sum to one for each surviving "
     "term and equal each original term's share.",
     ["inputs"],
     "every nomial, every subset of variables and every substituted value",
     "t_sub uses fixed values; term collisions, cancellations and zero values arise only for particular "
     "combinations.",
     ["gpkit/nomials/map.py", "gpkit/nomials/math.py", "gpkit/nomials/substitution.py"],
     [("NomialMap.sub", "gpkit/nomials/map.py"), ("subinplace", "gpkit/nomials/map.py"),
      ("NomialMap.mmap", "gpkit/nomials/map.py")])
prop("N04", "Differentiation returns the partial derivative",
     "The derivative of any nomial with respect to any of its variables, evaluated at any positive point, "
     "is the true partial derivative, in the units of the nomial divided by those of the variable; with "
     "respect to an absent variable it is zero. The nomial is unchanged, and derivatives combine with "
     "other nomials correctly.",
     ["inputs"], "every nomial with any real exponents, every variable and point",
     "tests differentiate three fixed expressions.",
     ["gpkit/nomials/map.py", "gpkit/nomials/math.py"],
     [("NomialMap.diff", "gpkit/nomials/map.py"), ("Signomial.diff", "gpkit/nomials/math.py")])
prop("N05", "Monomial approximations are tangent at their point",
     "The monomial approximation of a posynomial at a point has exactly the posynomial's value and "
     "logarithmic gradient at that point, so it never exceeds the posynomial anywhere; a monomial is its "
     "own approximation. Points missing one of the variables are rejected.",
     ["inputs"], "every posynomial, with units or not, and every positive point",
     "t_nomials checks one posynomial at one point.",
     ["gpkit/nomials/math.py"],
     [("Signomial.mono_approximation", "gpkit/nomials/math.py"),
      ("Posynomial.mono_lower_bound", "gpkit/nomials/math.py")])
prop("U01", "Units are converted consistently, whatever happened before",
     "Adding, comparing, constraining, substituting and converting quantities in different but compatible "
     "units gives the same physical result as doing it in SI; incompatible units always raise a "
     "dimensionality error rather than producing a number. The outcome does not depend on which unit "
     "operations were done earlier in the process.",
     ["inputs", "histories"],
     "every pair of units of a vocabulary, every magnitude and every earlier history of unit operations",
     "conversion factors are cached in process-global tables, so wrong answers need a particular history.",
     ["gpkit/units.py", "gpkit/nomials/map.py", "gpkit/nomials/math.py"],
     [("GPkitUnits.of_division/of_product", "gpkit/units.py"), ("NomialMap.to/__add__/units_of_product",
                                                                "gpkit/nomials/map.py")])
prop("A01", "Vector operations act elementwise",
     "Arithmetic, substitution, comparison, indexing, sum and product of vector variables and arrays of "
     "nomials equal the same operation applied element by element, in broadcast order, including products "
     "with numbers, numeric arrays and dot products. A vector constraint holds exactly when all of its "
     "elements hold.",
     ["inputs"], "every array of nomials within the size bound, every numeric array and scalar",
     "t_nomial_array uses 2 or 3-element arrays of bare variables.",
     ["gpkit/nomials/array.py", "gpkit/constraints/array.py"],
     [("NomialArray", "gpkit/nomials/array.py"), ("ArrayConstraint", "gpkit/constraints/array.py")])
prop("K01", "Variable-keyed dictionaries resolve every alias to one value",
     "A value stored under a variable is returned under the variable, its key, its name where unambiguous, "
     "and for vectors under the whole vector or any element; storing or deleting one entry changes no "
     "other entry. Copies are independent of the original, and numbers come back exactly as stored.",
     ["histories", "inputs"],
     "every short history of store, update, delete, copy and lookup over scalar and vector variables",
     "t_keydict exercises single operations; aliasing bugs need particular sequences.",
     ["gpkit/keydict.py"],
     [("KeyDict", "gpkit/keydict.py"), ("KeySet", "gpkit/keydict.py"),
      ("KeyMap", "gpkit/keydict.py")])
prop("K02", "Variables are identified by name, lineage, index and units",
     "Two variables are the same exactly when their names, models they belong to, vector indices and units "
     "are; equal variables hash equally, and pickling and unpickling preserves identity. Elements of a "
     "vector variable know their vector and position.",
     ["inputs"], "every combination of name, lineage, index, shape, units and other attributes from a "
     "bounded vocabulary",
     "t_vars compares a handful of pairs.",
     ["gpkit/varkey.py", "gpkit/nomials/variables.py"],
     [("VarKey", "gpkit/varkey.py"), ("ArrayVariable", "gpkit/nomials/variables.py")])
prop("S01", "Substitutions are split faithfully into constants, sweeps and links",
     "Given any mixture of numbers, quantities, vectors, sweeps and functions keyed by variables, names or "
     "vectors, every constant, sweep and function reaches exactly the variables it names, with vector "
     "values distributed by index, and NaN entries left free. Nothing is dropped, duplicated or attached to "
     "another variable.",
     ["inputs"], "every assignment of substitution kinds and values to scalar and vector variables",
     "t_sub checks individual forms on fixed numbers.",
     ["gpkit/nomials/substitution.py", "gpkit/small_scripts.py"],
     [("parse_subs/append_sub", "gpkit/nomials/substitution.py"), ("splitsweep", "gpkit/small_scripts.py")])
prop("C01", "Posynomial constraints compile to equivalent normal forms",
     "The normal form generated from a posynomial inequality or monomial equality, under any substitution, "
     "is satisfied by exactly the points that satisfy the constraint as written, up to the documented "
     "feasibility tolerance. Constraints that become always true disappear, ones that become impossible "
     "raise an infeasibility error, and the result is the same however often and with whatever other "
     "substitutions it was generated before.",
     ["inputs", "histories"],
     "every constraint with any coefficients, exponents and units, every substitution and every earlier "
     "generation",
     "constants are moved across the inequality after substitution; whether a term is constant, tautological "
     "or infeasible depends on arbitrary numbers.",
     ["gpkit/nomials/math.py", "gpkit/constraints/single_equation.py"],
     [("PosynomialInequality._gen_unsubbed/_simplify_posy_ineq/as_hmapslt1", "gpkit/nomials/math.py"),
      ("MonomialEquality._gen_unsubbed", "gpkit/nomials/math.py")])
prop("C02", "Signomial constraints are approximated conservatively and tightly",
     "The geometric-programming approximation of a signomial inequality at any point only admits points "
     "that satisfy the signomial inequality, and agrees with it in value and gradient at that point; a "
     "signomial equality is approximated by the tangent monomial equality. When a signomial inequality "
     "becomes GP-compatible after substitution its normal form is exactly equivalent, and signomial "
     "constraints cannot be created outside a signomials-enabled scope.",
     ["inputs"], "every signomial constraint and every expansion point",
     "tests solve a few example models and look at the optimum only.",
     ["gpkit/nomials/math.py", "gpkit/constraints/sigeq.py"],
     [("SignomialInequality.as_gpconstr/as_hmapslt1", "gpkit/nomials/math.py"),
      ("SingleSignomialEquality.as_gpconstr", "gpkit/nomials/math.py"),
      ("Signomial.posy_negy", "gpkit/nomials/math.py")])
prop("C03", "Nested constraint sets contribute every constraint exactly once",
     "However constraints are nested in lists, dictionaries, sets, arrays, cost sets and models, the "
     "compiled problem contains the normal form of every leaf constraint exactly once and in order, and "
     "the set knows every variable, default value and link of its members, and finds them by name, in the "
     "order of their elements, or through views of one element of a vectorized model. Invalid elements "
     "are rejected with an error naming them.",
     ["programs", "inputs"],
     "every nesting shape within the bound over symbolic constraints",
     "tests use two or three nesting shapes.",
     ["gpkit/constraints/set.py", "gpkit/constraints/costed.py", "gpkit/constraints/array.py"],
     [("ConstraintSet.__init__/flat/as_hmapslt1", "gpkit/constraints/set.py"),
      ("CostedConstraintSet", "gpkit/constraints/costed.py"), ("add_meq_bounds", "gpkit/constraints/set.py")])
prop("C04", "Relaxations contain the original problem and are exact at no relaxation",
     "At the no-relaxation value each relaxed problem admits exactly the points the original does; each "
     "larger relaxation admits them too, and scales only what it claims to: all constraints by one factor, "
     "each constraint by its own factor, or each fixed value within its own factor. The reported relaxed "
     "set lists exactly the constraints and constants that were loosened, and by how much. Model.debug "
     "first relaxes constants within bounds, then constraints, and says what it took.",
     ["inputs"], "every constraint set in the bound, every point and every relaxation amount",
     "tests solve one infeasible model per relaxation type.",
     ["gpkit/constraints/relax.py", "gpkit/nomials/math.py"],
     [("ConstraintsRelaxedEqually/ConstraintsRelaxed/ConstantsRelaxed", "gpkit/constraints/relax.py"),
      ("ScalarSingleEquationConstraint.relaxed", "gpkit/nomials/math.py")])
prop("C05", "Bounded, tight and loose diagnostics report exactly what holds",
     "A variable artificially bounded away from zero and infinity is reported as reaching a bound exactly "
     "when its solved value or sensitivity touches it; a constraint declared tight is reported exactly when "
     "its sides differ beyond tolerance at the solution, and one declared loose exactly when its sensitivity "
     "exceeds the threshold. The wrappers never change which points are feasible inside the bounds.",
     ["inputs"], "every solution value, sensitivity and tolerance",
     "tests sample one violating and one satisfying solution.",
     ["gpkit/constraints/bounded.py", "gpkit/constraints/tight.py", "gpkit/constraints/loose.py"],
     [("Bounded.check_boundaries", "gpkit/constraints/bounded.py"), ("Tight.process_result",
                                                                     "gpkit/constraints/tight.py"),
      ("Loose.process_result", "gpkit/constraints/loose.py")])
prop("G01", "The compiled geometric program is the model as written",
     "The coefficients, exponent matrix and term-to-constraint maps handed to solvers describe exactly the "
     "substituted cost and constraints: the same terms in the same groups, with every variable in its own "
     "column and monomial equalities marked as such. Evaluating the matrices at any point gives the same "
     "cost and constraint values as the model.",
     ["inputs", "programs"], "every model in the bound with symbolic coefficients, exponents and substitutions",
     "tests look at a few matrix entries and otherwise trust the solver.",
     ["gpkit/constraints/gp.py"],
     [("GeometricProgram.__init__/gen", "gpkit/constraints/gp.py"), ("genA", "gpkit/constraints/gp.py")])
prop("G02", "Unbounded and missing variables are reported exactly",
     "Before solving, a program is rejected exactly when some variable lacks an upper or lower bound that "
     "no constraint, cost or chain of monomial equalities provides, and the report names exactly those "
     "variables and directions. Programs whose variables are all bounded are never rejected.",
     ["inputs", "programs"], "every sign pattern of exponents in cost, inequalities and equalities within the bound",
     "tests use a few examples; conditional bounds through equality chains form a fixpoint.",
     ["gpkit/constraints/gp.py", "gpkit/constraints/set.py"],
     [("GeometricProgram.check_bounds", "gpkit/constraints/gp.py"),
      ("gen_meq_bounds/fulfill_meq_bounds", "gpkit/constraints/gp.py")])
prop("G03", "The built-in solver interface translates faithfully both ways",
     "The problem given to the built-in convex solver has the objective, inequalities and equalities of "
     "the compiled program in logarithmic form, each term once; its answer is returned as the primal "
     "values, cost and dual values belonging to the right variables and constraints. A non-optimal solver "
     "status never comes back as a solution.",
     ["inputs"], "every compiled program within the bound and every solver answer",
     "tests call the real solver on a few programs and never see other answers.",
     ["gpkit/solvers/cvxopt.py"],
     [("optimize", "gpkit/solvers/cvxopt.py")])
prop("G04", "The MOSEK interfaces translate faithfully both ways",
     "The problem file or conic program generated for MOSEK represents exactly the compiled program, and "
     "answers read back are assigned to the variables and constraints they belong to. Failure statuses "
     "raise the matching error.",
     ["inputs", "fault_sequences"], "every compiled program within the bound and every solver answer or status",
     "the tests cannot run MOSEK at all here.",
     ["gpkit/solvers/mosek_cli.py", "gpkit/solvers/mosek_conif.py"],
     [("write_output_file/optimize_generator", "gpkit/solvers/mosek_cli.py"), ("optimize",
                                                                              "gpkit/solvers/mosek_conif.py")])
prop("G05", "Reported sensitivities are the logarithmic derivatives of the optimal cost",
     "Given a primal-dual optimal answer, the reported sensitivity of every constraint, fixed variable, "
     "free variable and linked input equals the logarithmic derivative of the optimal cost implied by the "
     "duals, summed over all the places a variable appears, whether in the cost, inequalities, equalities, "
     "moved constants or signomials. Fixed values' sensitivities are in the same keys as the values.",
     ["inputs"], "every model within the bound and every dual answer",
     "tests compare a few numbers to one solver run.",
     ["gpkit/constraints/gp.py", "gpkit/nomials/math.py", "gpkit/constraints/set.py"],
     [("GeometricProgram.generate_result/generate_nula", "gpkit/constraints/gp.py"),
      ("sens_from_dual", "gpkit/nomials/math.py")])
prop("G06", "Solutions are verified before being returned",
     "A solver answer is accepted without complaint exactly when every constraint holds within tolerance "
     "at the primal point, the dual values satisfy the optimality identities within tolerance and the "
     "duality gap is within tolerance; otherwise the appropriate infeasibility is raised or reported. "
     "The returned cost and variable values are those of the answer.",
     ["inputs"], "every program within the bound and every solver answer, right or wrong",
     "real solvers nearly always answer correctly, so the rejecting paths are never sampled.",
     ["gpkit/constraints/gp.py"],
     [("GeometricProgram.check_solution", "gpkit/constraints/gp.py"),
      ("GeometricProgram.solve", "gpkit/constraints/gp.py")])
prop("G07", "Every solver failure surfaces and leaves the process as it was",
     "Whatever status, exception or malformed answer a solver produces, a solve raises the error class "
     "documented for it rather than returning the answer as a solution (an interactive solve, of verbosity "
     "1 or more, may instead return what its debugging found), and leaves standard output, solver options, "
     "substitutions and model state as they were. A model that failed can be solved again, with the result "
     "it would have had if it never had failed.",
     ["fault_sequences"], "every solver status or exception at every solve",
     "tests force two failure modes.",
     ["gpkit/constraints/gp.py", "gpkit/constraints/prog_factories.py", "gpkit/solvers/cvxopt.py"],
     [("GeometricProgram.solve", "gpkit/constraints/gp.py"), ("_solve_factory",
                                                              "gpkit/constraints/prog_factories.py")])
prop("Q01", "Each sequential step solves the approximation at the previous solution",
     "At every iteration of a signomial program the geometric program solved is the one obtained by "
     "approximating the original signomial constraints afresh at the previous solution, with all other "
     "constraints and the cost (times the slack penalty) unchanged, whichever terms vanish or appear there. "
     "The first one is at the starting point given, if any, with fixed variables at their fixed values and "
     "other variables at one; the programs of earlier iterations stay as they were solved.",
     ["inputs", "histories"], "every signomial model in the bound and every sequence of intermediate solutions",
     "tests only look at the final optimum.",
     ["gpkit/constraints/sgp.py"],
     [("SequentialGeometricProgram.gp/init_gp", "gpkit/constraints/sgp.py")])
prop("Q02", "Sequential solving stops only on convergence or with an error",
     "The sequential solver returns only once two successive costs agree within the requested tolerance, "
     "never because a cost rose, performs no more than the allowed number of solves, and otherwise raises the "
     "documented infeasibility error. The returned result is the last iterate's, with the artificial slack "
     "removed from it when negligible and kept, with a warning, when not; each iteration's own result "
     "remains available.",
     ["histories", "inputs"], "every sequence of costs and slacks produced by the inner solver",
     "tests see a handful of convergent runs.",
     ["gpkit/constraints/sgp.py"],
     [("SequentialGeometricProgram.localsolve", "gpkit/constraints/sgp.py")])
prop("W01", "Sweeps solve every grid point once and keep rows matched",
     "A sweep solves exactly the product grid of its swept values, each point with its own values and the "
     "model's other constants, and in the result every row holds the inputs and outputs of the same solve. "
     "Failed points are skipped only when asked, and are then absent from all columns.",
     ["inputs", "fault_sequences"], "every number of swept variables and values within the bound, every failure pattern",
     "tests sweep one or two variables over fixed lists without failures.",
     ["gpkit/constraints/prog_factories.py"],
     [("run_sweep", "gpkit/constraints/prog_factories.py"), ("_solve_factory",
                                                            "gpkit/constraints/prog_factories.py")])
prop("W02", "Autosweep results bracket the true optimum within the requested tolerance",
     "For a cost that is log-convex in the swept variable, at every swept value the reported lower and "
     "upper bounds bracket the true optimal cost, bounds coincide at solved points, and refinement stops "
     "only when the gap is within the tolerance. Looking a value up returns data of the interval that "
     "contains it, and values outside the swept range are rejected.",
     ["inputs"], "every convex cost function, tolerance and lookup value",
     "tests sample a few lookups of two models.",
     ["gpkit/tools/autosweep.py"],
     [("BinarySweepTree", "gpkit/tools/autosweep.py"), ("recurse_splits/get_tol/ SolutionOracle",
                                                        "gpkit/tools/autosweep.py")])
prop("W03", "Sweeping leaves the model unchanged",
     "After a sweep or autosweep, successful or failed, the model's substitutions are exactly what they "
     "were before it, including values that are zero, absent or arrays. Solving the model afterwards gives "
     "the same problem as before.",
     ["histories", "fault_sequences"], "every prior substitution value or absence and every failure point",
     "tests never inspect the model after sweeping.",
     ["gpkit/constraints/model.py", "gpkit/tools/autosweep.py"],
     [("Model.sweep/autosweep", "gpkit/constraints/model.py"), ("autosweep_1d", "gpkit/tools/autosweep.py")])
prop("D01", "Solution containers keep every value in its place",
     "Appending solutions and converting to arrays keeps, for each variable, constraint and point, exactly "
     "the value that solve produced, in order; indexing at a point returns that solve's data and nothing "
     "else. Combining values with solutions, saving and reloading preserves them, and saving leaves the "
     "object usable.",
     ["inputs", "histories"], "every number of points within the bound, every value, every key structure",
     "tests inspect single-point or two-point solutions.",
     ["gpkit/small_classes.py", "gpkit/solution_array.py"],
     [("DictOfLists", "gpkit/small_classes.py"), ("SolutionArray", "gpkit/solution_array.py")])
prop("L01", "Computed variables receive their function's value and derivative",
     "A variable defined as a function of others takes exactly that function's value at the substituted "
     "inputs, in its own units, before solving or after it if marked as evaluated afterwards, with chains "
     "evaluated in dependency order. Sensitivities are carried through by the chain rule.",
     ["inputs"], "every input value and function within the vocabulary",
     "tests use one or two functions at one point.",
     ["gpkit/nomials/substitution.py", "gpkit/constraints/gp.py", "gpkit/constraints/prog_factories.py"],
     [("evaluate_linked", "gpkit/constraints/prog_factories.py"),
      ("parse_subs linked", "gpkit/nomials/substitution.py")])
prop("E01", "Scoped environments restore the surrounding state",
     "Entering and leaving the signomials-enabled, vectorized and named-variable scopes, in any nesting "
     "and with exceptions at any point, leaves the surrounding scope exactly as it was. Inside a scope its "
     "effect applies to everything created and nothing else.",
     ["histories", "fault_sequences"], "every nesting of scopes and every exception point within the bound",
     "tests never nest scopes or raise inside them.",
     ["gpkit/globals.py", "gpkit/constraints/tight.py", "gpkit/constraints/model.py"],
     [("SignomialsEnabled/Vectorize/NamedVariables", "gpkit/globals.py")])
prop("T01", "Approximation tools compute the stated Taylor polynomials",
     "The exponential, secant and tangent expansions have exactly the Taylor coefficients of e^x-1, sec x and "
     "tan x up to the requested order (secant terms past the twelfth to their documented approximation), for any "
     "nomial argument, with units checked and converted. Orders past the tables are refused and the argument is "
     "left as it was.",
     ["inputs"], "every argument and every order within the bound",
     "tests compare two or three orders for one variable.",
     ["gpkit/tools/tools.py"],
     [("te_exp_minus1/te_secant/te_tangent", "gpkit/tools/tools.py")])
prop("R01", "Printed expressions denote the expression they print",
     "The text of a nomial or constraint, read with ordinary operator precedence, denotes that nomial or "
     "constraint up to the printed precision, whatever operations built it. Units and model names are "
     "shown unless excluded. A constraint set lists each of its constraints once, in order, under the names of "
     "the models and constraints it is in.",
     ["programs", "inputs"], "every expression tree within the bound",
     "tests compare a few literal strings.",
     ["gpkit/repr_conventions.py", "gpkit/nomials/core.py"],
     [("ReprMixin.parse_ast", "gpkit/repr_conventions.py"), ("Nomial.str_without", "gpkit/nomials/core.py")])
prop("P01", "Printed tables show exactly what the solution holds",
     "A solution's table lists each requested variable with a nonzero value exactly once, under its own model, with its "
     "name, units, label and every element of its value to the printed precision, and its sensitivity and constraint "
     "sections list exactly those beyond their threshold, the most sensitive first. A CSV holds the same rows; a diff "
     "lists exactly the variables that differ by more than its tolerance or are on one side only. Printing or looking "
     "up anything changes nothing in the solution.",
     ["inputs", "programs"], "every value and sensitivity, every selection within the bound",
     "tests compare no table's numbers; which rows appear and in which order depends on every value.",
     ["gpkit/solution_array.py", "gpkit/repr_conventions.py", "gpkit/keydict.py"],
     [("SolutionArray.table/diff/savecsv/savetxt", "gpkit/solution_array.py"),
      ("var_table/constraint_table/topsenss_filter", "gpkit/solution_array.py")])
prop("V01", "Sankey diagrams account for every sensitivity exactly once",
     "A Sankey diagram draws one link for each constraint and each fixed variable of a named model (or, for one variable, "
     "each constraint that depends on it, and the cost) with its sensitivity, and each model's, label's and array's link is "
     "the total of those within it. Links below minsenss are left out, and if more than maxlinks remain only those that the "
     "documented order of culling removes. Drawing changes nothing in the solution, nor in any later diagram.",
     ["inputs"], "every sensitivity within the bound",
     "no test draws one.",
     ["gpkit/interactive/sankey.py"],
     [("Sankey.link/linkfixed/filter/_links_and_nodes", "gpkit/interactive/sankey.py")])
prop("V02", "Plots show the values of the solution they are made from",
     "Plotting a solved sweep or autosweep draws, for each thing asked for (the cost, a variable, a name, or any nomial), "
     "one line through the swept values and that thing's value in the solution at each (for the cost of an autosweep, the "
     "band between its bounds), on the axes given or new labelled ones. plot_1dsweepgrid does so for each swept "
     "variable with all else as the model has it, marks the value the model had with a dot at its own solution, and leaves "
     "the substitutions as they were; compare draws each model's own sweep, and plot_convergence the cost of every solved "
     "GP at its number. No argument is changed.",
     ["inputs"], "every value of the solutions plotted",
     "no test plots anything.",
     ["gpkit/interactive/plot_sweep.py", "gpkit/interactive/plotting.py", "gpkit/solution_array.py",
      "gpkit/tools/autosweep.py"],
     [("plot_1dsweepgrid/assign_axes/format_and_label_axes", "gpkit/interactive/plot_sweep.py"),
      ("compare/plot_convergence", "gpkit/interactive/plotting.py"), ("SolutionArray.plot", "gpkit/solution_array.py"),
      ("SolutionOracle.plot", "gpkit/tools/autosweep.py")])
prop("X01", "Docstring variable tables declare exactly the variables they list",
     "Every row of a docstring's Variables, Constants, or Variables-of-length table declares one variable with the "
     "name, value, units, label, length and constancy written there, as an attribute and a local name of setup(), "
     "and no line outside a table declares any. Malformed rows are refused with an error, and the decorated setup "
     "otherwise runs as written.",
     ["inputs"], "every table row text",
     "tests parse two example docstrings; any character can appear in a label.",
     ["gpkit/tools/docstring.py"],
     [("parse_variables/parse_varstring/check_and_parse_flag/variable_declaration", "gpkit/tools/docstring.py")])
prop("X02", "Unbounded variables declared in docstrings are verified exactly",
     "A model whose docstring declares Upper or Lower Unbounded variables is accepted exactly when its constraints "
     "provide none of the declared bounds and, given them, every other bound of each of its variables. Otherwise "
     "the error names exactly the offending bounds.",
     ["inputs"], "every set of declarations, every exponent of the constraints",
     "tests have a handful of correct docstrings.",
     ["gpkit/constraints/model.py", "gpkit/tools/docstring.py", "gpkit/constraints/set.py"],
     [("Model.verify_docstring", "gpkit/constraints/model.py"),
      ("expected_unbounded", "gpkit/tools/docstring.py"), ("add_meq_bounds", "gpkit/constraints/set.py")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P))
