"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
LP = "pytimize/programs/_linear.py"
IP = "pytimize/programs/_integer.py"
UN = "pytimize/programs/_unconstrained.py"
UG = "pytimize/graphs/_undirected.py"
DG = "pytimize/graphs/_directed.py"
FE = "pytimize/formulations/linear/_equation.py"
FV = "pytimize/formulations/linear/_variable.py"
FO = "pytimize/formulations/linear/_objective.py"
FA = "pytimize/formulations/linear/_abstract.py"
PG = "pytimize/parsers/_graph.py"
PL = "pytimize/parsers/_linear.py"
UC = "pytimize/utilities/_comparator.py"
UD = "pytimize/utilities/_disjoint.py"

P = []
def prop(id, title, statement, over, text, tests, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": tests,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })

prop("L01", "Solving a linear program gives the right verdict and an optimum",
 "For every linear program - maximise or minimise, any mix of =, <= and >= rows (redundant and degenerate ones included), any mix of nonnegative, nonpositive and free variables - solving terminates without an error and returns a feasible point attaining the exact optimum when there is one, and None exactly when the program is infeasible or unbounded. The reported optimal value is that optimum, objective constant included, or None.",
 ["inputs", "programs"],
 "all programs (shape, coefficients, relations, sign restrictions, sense, constant)",
 "test_solve has nine hand-picked programs, none infeasible, unbounded, redundant or with nonpositive variables; the verdict must be right for every combination of row kinds and variable kinds.",
 [LP], [("conversion to SEF, choice of start basis, mapping back", LP + ": solve, to_sef"), ("two phases", LP + ": two_phase_simplex, simplex")],
 ["LinearProgram.solve", "LinearProgram.optimal_value"])

prop("L02", "Two-phase simplex ends in exactly one certified outcome",
 "For every program in standard equality form, the two-phase method terminates with exactly one of: an optimal feasible basic solution with its basis and a dual vector proving optimality (dual feasible, same objective value); a Farkas vector proving infeasibility and no solution or basis; or a feasible point and a ray proving unboundedness and no solution or basis. The outcome is the true status of the program, each certificate satisfies its mathematical definition, and the library's own verifiers accept it.",
 ["inputs", "programs"],
 "all SEF programs, including negative right-hand sides, degenerate phase one and linearly dependent rows",
 "test_two_phase_simplex lists seven programs and its unbounded case is an empty TODO; a degenerate phase one that leaves artificial columns in the basis needs specific numbers.",
 [LP], [("auxiliary program and basis hand-over", LP + ": auxiliary, two_phase_simplex"), ("certificates", LP + ": simplex")],
 ["LinearProgram.two_phase_simplex"])

prop("L03", "Simplex pivoting stays sound and never cycles from any feasible basis",
 "For every program in standard equality form and every feasible basis, listed in any order, one simplex iteration either returns an optimal solution, reports unboundedness, or moves to another feasible basis whose basic solution is no worse, and the program it returns is the same program in canonical form for the basis it started from. Iterating from any feasible basis reaches an optimal or unbounded verdict that agrees with the program's true status; no sequence of iterations cycles, however degenerate the program.",
 ["programs", "histories"],
 "all SEF programs and all feasible start bases (every permutation of the index list)",
 "Tests run four pivots on two programs; absence of cycling is a statement about every path in the basis graph of every degenerate program.",
 [LP], [("Bland's rule and ratio test", LP + ": simplex_iteration"), ("loop and certificates", LP + ": simplex")],
 ["LinearProgram.simplex", "LinearProgram.simplex_iteration"])

prop("L04", "Certificate verifiers accept only genuine certificates",
 "For every program in standard equality form and every candidate vector: the infeasibility verifier accepts it exactly when it is a Farkas certificate, the unboundedness verifier accepts a point and a vector exactly when the point is feasible and the vector is a nonnegative kernel direction that improves the objective, and the optimality verifier accepts it exactly when it is dual feasible. Hence no accepted certificate ever contradicts the program's true status.",
 ["inputs"], "all SEF programs times all candidate certificates",
 "Only verify_infeasibility has tests (two matrices); verify_unboundedness and verify_optimality have none.",
 [LP], [("verifiers", LP + ": verify_infeasibility, verify_unboundedness, verify_optimality")],
 ["LinearProgram.verify_infeasibility", "LinearProgram.verify_unboundedness", "LinearProgram.verify_optimality"])

prop("L05", "Conversion to standard equality form preserves the program",
 "For every linear program, conversion to standard equality form yields a maximisation with only equalities and nonnegative variables, in which every feasible point of the original appears with the same objective (negated for a minimisation, apart from the constant) and every feasible point maps back to a feasible point of the original with the same objective. Negated columns, split columns and slack columns appear in the documented order, and converting a program already in this form changes nothing.",
 ["inputs", "programs"], "all programs, all mixes of row and variable kinds",
 "test_to_sef compares six literal matrices; the interaction of negated, split and slack columns must hold for every pattern.",
 [LP], [("conversion", LP + ": to_sef")], ["LinearProgram.to_sef"])

prop("L06", "The dual program is the true dual",
 "For every linear program, its dual has one variable per row and one row per variable with the standard textbook sense, relations and sign restrictions, and never carries the objective constant. Weak duality holds for every pair of feasible points; if the program has an optimum so does its dual, with the same value apart from the constant; an unbounded program has an infeasible dual; and the dual of the dual is the original program (without its constant).",
 ["inputs", "programs"], "all programs (both senses, all relations, all sign restrictions)",
 "There is no test of dual() at all.",
 [LP], [("dual construction", LP + ": dual")], ["LinearProgram.dual"])

prop("L07", "Canonical form for a basis is an equivalent program",
 "For every program in standard equality form and every basis, conversion to canonical form gives an identity matrix on the basis columns and zero objective coefficients there, with the same solutions of the equalities and the same objective value at every one of them. The canonical-form test answers yes exactly for a program having this shape for that basis, and index lists that are not a basis are refused with ValueError, programs not in standard equality form with ArithmeticError.",
 ["inputs", "programs"], "all SEF programs, all bases in every listing order",
 "One matrix and two bases are tested; is_canonical_form_for has no test.",
 [LP], [("canonical form", LP + ": to_canonical_form, is_canonical_form_for")],
 ["LinearProgram.to_canonical_form", "LinearProgram.is_canonical_form_for"])

prop("L08", "Basis predicates and basic solutions match their definitions",
 "For every constraint matrix and every index list, the list is called a basis exactly when it picks a nonsingular square set of columns; the basic solution computed for a basis is the unique solution of the equalities that vanishes off the basis, whatever the order in which the indices are listed. A vector is called a (feasible) basic solution, and a basis called feasible, exactly when the definition says so; asking for the basic solution of a non-basis is refused.",
 ["inputs"], "all matrices, all index lists in every order, all candidate vectors",
 "is_basis and compute_basic_solution are tested on one matrix with sorted bases; is_feasible_basic_solution and is_basis_feasible are untested.",
 [LP], [("basis tests and solutions", LP + ": is_basis, compute_basic_solution, is_basic_solution, is_feasible_basic_solution, is_basis_feasible")])

prop("L09", "Feasibility test and objective evaluation are exact up to rounding",
 "For every linear program and every point, the point is called feasible exactly when it meets every row and every sign restriction up to floating-point rounding, and its evaluated objective is the objective's inner product plus the constant. Asking for the value of an infeasible point is refused with ValueError, of a feasible one gives the evaluated objective, and every solution the solver returns is itself called feasible.",
 ["inputs"], "all programs times all points of the right dimension",
 "is_feasible is tested on a dozen points, without nonpositive variables or equality rows with zero right-hand side; evaluate and value_of have no tests.",
 [LP], [("feasibility and evaluation", LP + ": is_feasible, evaluate, value_of")])

prop("L10", "Operations asked to leave a program alone leave it alone",
 "Whatever sequence of operations is applied, an operation not requested in place - and any operation that fails - leaves the program, the arrays and lists it was built from, and every other program derived from it exactly as they were. An operation requested in place returns the same object and gives it exactly the content that the not-in-place version returns; copies, duals, auxiliary programs, relaxations and conversions never share mutable state with their source.",
 ["histories", "inputs"], "all operation sequences on all programs and their derived programs, including failing operations",
 "Tests compare p.A after a successful simplex only; no test mutates a derived object or looks at the program after a failure.",
 [LP, IP], [("copying and in-place switches", LP + ": __init__, copy, dual, auxiliary, simplex, to_sef, add_constraint, add_variable"), ("relaxation", IP + ": relax")])

prop("L11", "A program built step by step equals the one built at once",
 "Any sequence of adding constraints and variables produces the same program - coefficients, relations, sign restrictions, form flag and solution - as constructing it directly from the final data, whether or not each step is done in place. A step with a wrong length, an unknown relation, a value that is not a number, or a variable marked both free and nonpositive is refused with ValueError and changes nothing.",
 ["histories"], "all sequences of add-constraint and add-variable steps, valid and invalid",
 "add_constraint and add_variable have no tests.",
 [LP], [("growth", LP + ": add_constraint, add_variable")])

prop("L12", "Construction accepts exactly well-formed programs and reports them back",
 "For every combination of constructor arguments, a malformed program - mismatched dimensions, non-numeric or ragged data or constant, unknown relation or sense, out-of-range, fractional, duplicated or doubly classified variable indices - is refused with ValueError, and a well-formed one is accepted. An accepted program reports exactly the data it was given: matrices, relations, sense, constant, and each variable in exactly one of the three sign classes; it is flagged as standard equality form exactly when it is a maximisation with only equalities and nonnegative variables. All of this holds for integer programs too, whose integral variables must be distinct indices of variables and are all variables if left out. Two programs compare equal exactly when they report the same data - for integer programs, the same set of integral variables included - and an integer program never equals a linear one.",
 ["inputs", "configurations"], "all argument combinations, valid and malformed",
 "test_init samples some twenty argument lists.",
 [LP, IP], [("validation and accessors", LP + ": __init__ and the read-only properties")])

prop("L13", "The printed program determines the program",
 "For every linear or integer program, its printed form states the sense, every objective and constraint coefficient, relation and right-hand side, the constant, which variables are nonnegative and nonpositive, and for an integer program which variables are integral, so that reading the text back gives the same program up to the documented rounding. Columns stay aligned for every mixture of magnitudes and signs.",
 ["inputs"], "all programs and numbers of all magnitudes",
 "test_str compares a dozen literal outputs.",
 [LP, "pytimize/parsers/_symbol.py"], [("formatting", LP + ": __repr__, _format_number")])

prop("L14", "Step recording never changes results and obeys its switch",
 "Recording the procedure has no effect on any result: every operation returns the same answer with steps shown or hidden. Hidden steps are never recorded, shown steps are only appended after the earlier ones, clearing removes all of them (in place, or on the returned copy only), and the step text lists exactly the recorded steps in order.",
 ["histories"], "all sequences of operations with steps shown or hidden",
 "test_to_canonical_form looks for four keys once; hiding and clearing steps have no tests.",
 [LP, "pytimize/parsers/_description.py"], [("recording", LP + ": __append_to_steps, clear_steps, steps, steps_string"), ("rendering", "pytimize/parsers/_description.py: render_descriptor")])

prop("L15", "The plotted polygon is the region of the constraints",
 "For every two-variable program whose rows are all <= or all >=, the polygon drawn has as corners exactly the corners of the region cut out by the rows within the plotting window, in boundary order, and plotting leaves the program unchanged.",
 ["inputs"], "all two-variable programs with uniform relations, fractional coefficients and parallel rows included, having a nonempty region in the window",
 "graph_polyhedron has no tests.",
 [LP], [("vertex enumeration and ordering", LP + ": graph_polyhedron")], ["matplotlib.pyplot.fill"])

prop("L16", "Row reduction yields the reduced row echelon form",
 "For every matrix, row reduction returns the unique reduced row echelon form of that matrix, leaving the argument unchanged, and the echelon-form test answers yes exactly for constraint matrices that are in reduced row echelon form.",
 ["inputs"], "all matrices, including zero rows, zero columns and rank-deficient ones",
 "Neither to_rref nor is_in_rref has a test ('need tests and validation').",
 [LP], [("Gauss-Jordan", LP + ": to_rref, is_in_rref")])

prop("L17", "Complementary slackness conditions characterise optimal pairs",
 "For every linear program, the generated complementary slackness conditions contain one condition per inequality row and one per sign-restricted variable, and a feasible point together with a feasible point of the dual satisfies all of them exactly when both are optimal.",
 ["inputs", "programs"], "all programs times all primal-dual feasible pairs",
 "cs_conditions has no tests.",
 [LP], [("conditions", LP + ": cs_conditions, dual")])

prop("L18", "The displayed computation process states the true facts",
 "For every program, the steps recorded with steps shown are true of that program and of that call: the feasibility test, the basic-solution test, the canonical form, the conversion to standard equality form, the simplex and the two-phase method name the actual point, basis, matrices and vectors; each explanation (negative entries, violated rows, nonzero nonbasic columns, Ax = b) appears only where it is true and agrees with the answer returned; the displayed iterations are numbered in order, show the given program followed by canonical forms of it for feasible bases with no worse objective, and end with the verdict, solution, basis and certificate that are returned.",
 ["inputs", "programs"], "all programs, points, bases and orders of bases",
 "test_to_canonical_form looks for four keys once; no test reads the text of a step.",
 [LP, "pytimize/parsers/_description.py"], [("recording", LP + ": __append_to_steps and its call sites"), ("texts", "pytimize/parsers/_description.py: render_descriptor")], ["LinearProgram.steps", "LinearProgram.steps_string"])

prop("L19", "Random programs are well formed, of the requested size, and of every kind",
 "For every requested number of rows and columns and every magnitude, given or left at its default (4, 6, 100), and every outcome of the random choices, random() succeeds and returns a valid linear program with exactly that many rows and columns and no number beyond the magnitude; every sense, every relation in every row and every sign class of every variable can occur.",
 ["inputs", "schedules"], "all outcomes of the random choices, all shapes and magnitudes",
 "random() has no tests; a fault that needs one particular outcome shows only now and then.",
 [LP], [("generation", LP + ": random")], ["LinearProgram.random"])

prop("L20", "The auxiliary program decides feasibility from a ready start",
 "For every program in standard equality form, the auxiliary program minimises the sum of one artificial variable per row, appended after the original variables, over the same equalities (up to sign); the artificial variables are a feasible basis of it, a point of the original is feasible exactly when it is feasible there with zero artificial variables, and its optimum is zero exactly when the original is feasible. Other programs are refused with ArithmeticError; the original is left alone.",
 ["inputs", "programs"], "all programs in standard equality form, all others for the refusal",
 "auxiliary() has no tests of its own; a wrong sign in one row matters only for right-hand sides of that sign.",
 [LP], [("construction", LP + ": auxiliary")], ["LinearProgram.auxiliary"])

prop("L21", "Arguments mean the same however they are written",
 "Every linear-program constructor and operation that takes a vector, a matrix or a list of column indices gives the same result, or the same refusal, whether the same numbers are given as lists or arrays, as integers or floating-point numbers of any width (column indices as integers of any width), and in whatever memory layout (views, column order, read-only).",
 ["inputs"], "all forms of every array argument, all operations",
 "Tests pass one form per operation.",
 [LP], [("conversion", LP + ": __to_ndarray, __array_like_to_list, every public method that takes arrays")])

prop("I01", "Branch and bound returns the integer optimum",
 "For every integer or mixed-integer program whose relaxation has a bounded feasible region, branch and bound terminates and returns a point that meets all rows and sign restrictions, is integral in every variable required to be integral, and attains the best objective among such points, for maximisation and minimisation alike; it returns None exactly when no such point exists. It returns None when the relaxation is unbounded.",
 ["inputs", "programs"], "all bounded integer programs, all senses, relations, sign restrictions and sets of integral variables",
 "One maximisation with two <= rows is tested.",
 [IP], [("branching", IP + ": branch_and_bound")])

prop("I02", "An integer program keeps its integrality and relaxes to the same data",
 "The relaxation of every integer program is the linear program with exactly the same data and no integrality, independent of the original. Copies and programs obtained by adding constraints remain integer programs with the same integral variables, and a point is called feasible exactly when it satisfies the relaxation and is integral, up to rounding, in every integral variable.",
 ["inputs", "histories"], "all integer programs, integral-variable sets and points",
 "test_relax checks one program; copy and is_feasible of integer programs are untested.",
 [IP, LP], [("relaxation, copy, feasibility", IP + ": relax, copy, is_feasible")])

prop("I03", "Standard equality form keeps the integrality of an integer program",
 "For every integer or mixed-integer program, conversion to standard equality form, in place or not, is an integer program whose relaxation is the conversion of the relaxation, in which a point of the original, carried over to the new columns, is feasible exactly when it is feasible and integral where required in the original: both parts of a free integral variable are integral, slack variables are not. Copies, canonical forms and simplex iterations of it keep that, branch and bound reaches the same optimum through it, and the original is left alone.",
 ["inputs", "programs"], "all integer programs, all senses, relations, sign restrictions and sets of integral variables, all points",
 "No test converts an integer program; the column numbers shift only when a variable before the integral one is free.",
 [IP, LP], [("renumbering", IP + ": to_sef"), ("conversion", LP + ": to_sef")], ["IntegerProgram.to_sef", "IntegerProgram.is_feasible", "IntegerProgram.branch_and_bound"])

prop("N01", "Steepest descent descends to a stationary point for either sense",
 "For every strictly convex quadratic (or smooth function) to minimise and strictly concave one to maximise, from every starting point, steepest descent with backtracking takes steps along the gradient whose length is the first of alpha, p alpha, p^2 alpha, ... that satisfies the sufficient-decrease condition with constant c, hence never worsens the objective from one iterate to the next, respects its iteration cap, and when it stops early the gradient norm is within the tolerance, so the result is the optimiser. The caller's starting point is never modified and may be given as a list or an array of integers or floats.",
 ["inputs"], "all quadratics, starting points, both senses, all step parameters",
 "One minimisation (Rosenbrock, one start) with a one-sided comparison is tested; maximisation is untested.",
 [UN], [("descent", UN + ": steepest_descent")])

prop("N02", "Newton's method finds the stationary point for either sense",
 "For every quadratic with nonsingular Hessian, from every starting point and for either sense, Newton's method returns the unique stationary point after one step, and for smooth convex (or concave) functions it stops with gradient norm within tolerance or at the iteration cap. The caller's starting point is never modified and may be given as a list or an array of integers or floats.",
 ["inputs"], "all quadratics and starting points, both senses",
 "One minimisation with a one-sided comparison is tested.",
 [UN], [("Newton", UN + ": newton_method")])

prop("G01", "An undirected graph behaves like a set of vertices and weighted edges",
 "After any sequence of adding edges and vertices, removing edges and setting weights, the graph reports exactly the vertices, edges, weights and adjacency of the abstract weighted graph those operations describe, with an edge the same in either orientation. Operations on missing or duplicate items, loops, or additions with negative weight are refused with ValueError and change nothing.",
 ["histories"], "all operation sequences, including constructor arguments in any combination",
 "Tests add and set a handful of items; remove_edge has no test, and no test continues after a refused operation.",
 [UG], [("graph, edge and vertex tables kept in step", UG + ": add_edge, remove_edge, add_vertex, set_*")],
 state=[{"name": "_graph/_edges/_vertices", "meaning": "adjacency, edge weights, vertex weights", "where": UG}])

prop("G02", "Graph copies and views are independent, equality is structural",
 "A copy of an undirected graph, and every adjacency, edge or vertex table obtained from it, is independent: no later change to either side is ever visible in the other. Two graphs are equal exactly when they have the same vertices, edges and weights, regardless of the order or orientation in which they were built.",
 ["histories"], "all graphs and all subsequent change sequences on either side",
 "test_copy checks that the outer dictionaries are different objects; nothing is changed after copying.",
 [UG], [("copying", UG + ": copy, graph, edges, vertices, __eq__")])

prop("G03", "Connectivity, cycle, tree and partition answers are correct",
 "For every undirected graph, the answers to connected, cyclic, tree and has-spanning-tree are those of graph theory (an empty graph being neither connected nor a tree), whatever the order in which vertices and edges were added. Partitioning yields exactly the connected components, each a self-contained graph with the original weights.",
 ["inputs"], "all graphs, all insertion orders and iteration orders",
 "is_tree is tested on ten graphs; is_connected, is_cyclic and partition have no tests.",
 [UG], [("searches", UG + ": is_connected, is_cyclic, is_tree, partition")])

prop("G04", "Traversals visit exactly the reachable vertices in the promised order",
 "From every start vertex of every graph, breadth-first traversal visits each reachable vertex exactly once in nondecreasing distance, taking new neighbours in the requested order (lexical by default); depth-first traversal visits each reachable vertex exactly once in a depth-first order, continuing with the first unvisited neighbour in the requested order; random traversal yields every vertex of the graph exactly once for every outcome of the shuffle. A start vertex that is not in the graph is refused with ValueError.",
 ["inputs"], "all graphs, start vertices, ordering functions and shuffle outcomes",
 "traverse, bfs and dfs have no tests.",
 [UG], [("traversal", UG + ": traverse, bfs, dfs")])

prop("G05", "The shortest path returned is a shortest path",
 "For every undirected graph with nonnegative edge weights and every pair of vertices, the shortest-path routine returns a connected sequence of existing edges from start to end whose total weight is the minimum over all paths, empty when start and end coincide. Unknown vertices, and pairs with no path, are refused with ValueError.",
 ["inputs"], "all weighted graphs (zero weights and ties included), all vertex pairs, all vertex names",
 "The only test is skipped.",
 [UG], [("primal-dual search", UG + ": shortest_path")])

prop("G06", "The shortest-path linear program has the shortest distance as optimum",
 "For every undirected graph with nonnegative weights and at least one edge and every two distinct vertices, the formulated linear program has one variable per edge with its weight as cost and one covering row per vertex set that separates start from end; its optimal value is the shortest distance, and it is infeasible when no path joins the two vertices.",
 ["inputs"], "all weighted graphs with an edge and all vertex pairs",
 "formulate_shortest_path has no test.",
 [UG], [("cut formulation", UG + ": formulate_shortest_path")])

prop("G07", "The stable-set integer program describes exactly the stable sets",
 "For every nonempty undirected graph, the 0/1 feasible points of the formulated integer program, read through the returned vertex mapping, are exactly the stable sets with their total vertex weight as objective, and solving it by branch and bound gives a maximum-weight stable set. Graphs without edges are included.",
 ["inputs"], "all vertex-weighted graphs",
 "test_formulate_max_stable_set is an empty TODO.",
 [UG, IP], [("formulation", UG + ": formulate_max_stable_set")])

prop("G08", "Cuts and degrees count exactly the crossing edges",
 "For every directed or undirected graph and every set of vertices, or a single vertex of any name, the cut is exactly the set of edges or arcs leaving the set (both ways for undirected), the reverse cut exactly those entering it, and degree, indegree, outdegree and connection count are their sizes. Names not in the graph contribute nothing, and the argument is not modified.",
 ["inputs"], "all graphs, vertex subsets, single vertices, multi-character names",
 "Undirected cut is tested on one graph with one-letter names; the directed ones are untested.",
 [UG, DG], [("cuts", UG + ": cut, degree; " + DG + ": cut, ncut, indegree, outdegree, connections")])

prop("G09", "A directed graph behaves like a set of nodes and weighted arcs",
 "After any sequence of adding arcs and nodes, removing arcs (with or without their isolated endpoints) and setting weights, the digraph reports exactly the nodes and arcs of the abstract weighted digraph those operations describe. Loops, duplicates and missing items are refused with ValueError, wrongly shaped demands with TypeError, and a refused operation changes nothing; removing endpoints never removes a node that still has a connection.",
 ["histories"], "all operation sequences, including constructor arguments in any combination",
 "No test exercises DirectedGraph other than through max flow.",
 [DG], [("tables kept in step", DG + ": add_arc, add_node, remove_arc, set_*")])

prop("G10", "Both max-flow algorithms return a feasible maximum flow",
 "For every digraph with nonnegative capacities - antiparallel arcs, arcs into the source and out of the sink, zero capacities and unreachable nodes included - and every source and sink, both algorithms terminate and return a flow within capacities, conserved at every other node, whose value is the stated value and equals the minimum cut. Neither modifies the digraph, and the value does not depend on arc insertion order or node names. An unknown source or sink, or a source equal to the sink, is refused with ValueError.",
 ["inputs"], "all capacitated digraphs, all source-sink pairs, all insertion orders",
 "Four acyclic-looking networks with one-letter names are tested, none with antiparallel arcs or without inner nodes.",
 [DG], [("augmentation", DG + ": ford_fulkerson"), ("preflow push", DG + ": preflow_push")])

prop("G11", "The residual digraph is the residual digraph of the flow",
 "For every digraph and every flow within capacities, the residual digraph has an arc from u to v exactly when capacity remains on arc uv or flow can be cancelled on arc vu, weighted by the total of the two. Flows that exceed a capacity are refused with ArithmeticError; flows on unknown arcs, negative flows and negative capacities with ValueError.",
 ["inputs"], "all digraphs and flows, antiparallel arcs included",
 "create_residual has no test.",
 [DG], [("residual", DG + ": create_residual")])

prop("G12", "The printed graph lists every vertex with its neighbours",
 "For every undirected graph, however it was built and whatever was changed since, its printed form has one line for every vertex, naming exactly the neighbours of that vertex, isolated vertices included; the same graph is printed the same whatever the order in which it was built, and printing changes nothing.",
 ["inputs", "histories"], "all undirected graphs, insertion orders, set iteration orders and changes between printings",
 "The printed form of graphs is not tested.",
 [UG], [("printing", UG + ": __repr__"), ("adjacency", UG + ": _graph")], ["str(UndirectedGraph)"])

prop("F01", "Formulation expressions mean what they say",
 "Every expression built from variables and numbers with +, -, unary signs and multiplication by numbers denotes the linear function that ordinary algebra assigns to it, constant term included, and comparing two expressions, variables or numbers with <=, >= or == yields the constraint equivalent to that comparison. Numbers may be Python or NumPy integers or floats or fractions, and NumPy integers may be indices. Arithmetic that is not linear or has another operand (a product of variables, None, a string) is refused with TypeError.",
 ["programs"], "all expression trees and comparisons, both variable styles",
 "Tests build three-term sums with positive coefficients.",
 [FE, FV], [("operators", FE + ", " + FV)])

prop("F02", "A formulated program equals the program written down",
 "Formulating an objective with constraints and sign conditions yields the linear program (through formulations.integer: the integer program with every variable integral) with exactly that objective, those rows in order, and each variable nonnegative, nonpositive or free exactly as stated (free if unstated), for objectives and constraints that mention any subset of the variables. Duplicate or contradictory sign conditions are refused with ValueError.",
 ["programs", "histories"], "all formulations over a few variables, both senses, both variable styles, conditions given in any number of calls",
 "One formulation is tested, with solution zero.",
 [FO, FA, FV], [("assembly", FO + ": subject_to; " + FA + ": where, whereAll*, program")])

prop("F03", "Building expressions never changes the expressions used",
 "Using an expression or variable in a larger expression, a comparison, an objective or a program never changes what it denotes, so the same sub-expression can be reused any number of times, on either side of any operator, with the same meaning, and changing a formulated program never changes the expressions or sibling programs made from them.",
 ["histories"], "all sequences of expression-building operations that reuse earlier results",
 "No test uses an expression twice.",
 [FE, FV, FO, FA], [("operators returning new expressions", FE)])

prop("F04", "A formulated program acts as the linear program it formulates",
 "Whatever is asked of a formulated linear or integer program - solving, converting, checking, changing it in place, printing it - has the same result, refusal, printed form and lasting effect as on a linear or integer program constructed directly from the same data; between two calls that state conditions, all calls act on one and the same program.",
 ["histories"], "all sequences of operations of the linear program's interface, all ways to state the conditions",
 "One formulated program is solved once in the tests.",
 [FA, FO], [("delegation to the compiled program", FA + ": __getattr__, program")])

prop("P01", "The graph parser accepts exactly its four notations",
 "For every string, the graph parser accepts it exactly when it is a nonempty list, separated by single whitespace characters, in one of the four notations - single-character pairs or dash-separated names, each with or without :weight - and then returns the edges in order with their names and numeric weights (0 when unweighted); every other string, mixtures of notations included, is refused with ValueError.",
 ["inputs"], "all strings",
 "Some fifteen strings are tested.",
 [PG], [("validation and extraction", PG + ": parse, get_expression_type")])

prop("P02", "The linear-expression parser accepts exactly its notation",
 "For every string, the linear parser accepts it exactly when it is a sum of terms like 2.5x_3 - a decimal coefficient without exponent, then x_ and a variable number from 1 - joined by + or -, the first optionally preceded by -, without spaces, each variable at most once, and then returns the row vector of those coefficients in their positions, padded with zeros up to the largest index or to the requested size; everything else raises an error. A list of expressions is refused exactly when one of them is.",
 ["inputs"], "all strings, sizes and lists of strings",
 "One expression is tested.",
 [PL], [("validation and extraction", PL + ": parse, validate_expression")])

prop("U01", "Tolerant comparisons are consistent",
 "For every pair of finite numbers, exactly one of less, close and greater holds; <= is less or close, >= is greater or close, and two numbers clearly apart (more than 1e-9 from zero, 1e-4 relatively) compare exactly as in ordinary arithmetic while numbers apart only by rounding (1e-11 from zero, 1e-9 relatively) are close. Positive and negative are greater and less than zero, a number is called integral exactly when it is within tolerance of an integer on either side, and on arrays each test holds exactly when it holds for every element.",
 ["inputs"], "all numbers around the tolerances and all small arrays",
 "Tests sample a few values away from the tolerance boundary.",
 [UC], [("tolerances", UC)])

prop("U02", "The disjoint-set structure maintains the partition",
 "After any sequence of unions and finds, in any order, two items have the same representative exactly when they are connected by the unions performed, every representative belongs to its own set, and finds never change the partition. Duplicate items and unknown items are refused with ValueError and change nothing.",
 ["histories"], "all sequences of unions and finds",
 "DisjointSet has no tests.",
 [UD], [("union by rank and path compression", UD)])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
