"""Writes properties.jsonl and MANIFEST.json from one table (python3 tool/docs.py)."""
import json, os
from props import PROPS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/algorithm_"
BIGF = ["src/big_integer.cpp", "src/big_integer_arithmetics.cpp", "src/big_integer_comparisons.cpp", "src/big_integer_constructors.cpp"]
T = {}


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    T[id] = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": a}


prop("P01", "Arbitrary precision sums and differences are exact",
     "For all arbitrary precision integers, addition, subtraction, negation and absolute value (operators and their in-place forms, also when both operands are the same object) yield the mathematically exact value. Results are in canonical form: no leading zero digits and no negative zero.",
     "all pairs of integers of any length", "tests add a handful of constants; carries, borrows and the switch between one and several digits depend on unbounded digit patterns", BIGF,
     [("addition and subtraction with the int shortcut", "src/big_integer_arithmetics.cpp: operator+=, operator-=, fallbackAddAssign, fallbackSubtractAssign"), ("digit-wise magnitude arithmetic", "src/big_integer.cpp: addMagnitude, subtractMagnitude")])
prop("P02", "Arbitrary precision products are exact",
     "For all arbitrary precision integers, multiplication (operator and in-place form, also of an object by itself) yields the exact product in canonical form.",
     "all pairs of integers of any length", "the tests multiply a few constants; the shift-and-add loop and the overflow test of the int shortcut have unboundedly many cases", BIGF,
     [("multiplication", "src/big_integer_arithmetics.cpp: operator*=, fallbackMultiplyAssign")])
prop("P03", "Arbitrary precision quotients truncate and remainders are least non-negative",
     "For all arbitrary precision integers a and non-zero b, a / b is the quotient rounded toward zero, in canonical form. For every a and every positive b, a % b is the unique r with 0 <= r < b and b dividing a - r; division by zero and a modulus that is not positive raise an exception and leave the operands unchanged.",
     "all pairs of integers of any length", "the tests divide a few constants; long division runs over unboundedly many bits and the sign combinations multiply", BIGF,
     [("long division", "src/big_integer_arithmetics.cpp: divideMagnitudesWithRemainder, operator/=, operator%=, fallbackDivideAssign, fallbackModuloAssign")])
prop("P04", "Arbitrary precision comparisons and int conversions are exact",
     "For all arbitrary precision integers (and ints compared with them), ==, !=, <, >, <= and >= agree with the order of the integers. Construction from a machine integer keeps the value, and conversion to int returns the value when it fits and raises an exception otherwise.",
     "all pairs of integers of any length, all machine integers", "the tests compare a few constants; equality and order depend on sign, length and every digit", BIGF,
     [("comparisons", "src/big_integer_comparisons.cpp"), ("constructors and conversion", "src/big_integer_constructors.cpp")])
prop("P05", "The checked 64-bit integer is exact or raises",
     "For all operands, every operation of the safe 64-bit integer (sum, difference, product, quotient rounded toward zero, least non-negative remainder for a positive modulus, negation, absolute value, construction from machine integers, conversion to int; also in place and with an operand aliasing the target) returns the exact result when it exists and is representable, and raises an exception in every other case. Comparisons agree with the order of the integers.",
     "all pairs of 64-bit values", "2^128 operand pairs; the tests probe a few near the limits", ["src/safe_integer.h", "src/safe_integer.tpp", "src/safe_integer_arithmetics.tpp", "src/safe_integer_comparisons.tpp", "src/safe_integer_constructors.tpp"],
     [("overflow tests before each operation", "src/safe_integer_arithmetics.tpp"), ("range tests of the conversions", "src/safe_integer_constructors.tpp")])
prop("P06", "Greatest common divisors and least common multiples are correct",
     "For all integers a and b, gcd(a, b) is the greatest common divisor of their absolute values (0 only if both are 0), and lcm(a, b) is their least common multiple, not negative, whenever they are not both 0; the gcd of a row and the lcm of a row without zero entries are those of all its entries. With fixed width integers this holds whenever the absolute values and the result are representable.",
     "all integers of each supported type, rows of any length", "tests try a few pairs; correctness is a statement about every common divisor of every pair", [A + "integer_operations.cpp", A + "row_operations.cpp"],
     [("euclidean algorithm", A + "integer_operations.cpp: gcd, lcm"), ("folding over a row", A + "row_operations.cpp: gcd(Row), lcm(Row)")])
prop("P07", "Row arithmetic and scalar products are exact",
     "For all rows of equal length, +, -, +=, -= act entry by entry, * and *= by a number scale every entry, / and /= divide every entry (rounding toward zero), and the product of two rows is their scalar product; operands other than the target keep their values. Adding a row to itself or subtracting it from itself in place is exact as well.",
     "all rows of any length with entries of any size (within the range of the integer type)", "tests use rows of length three; the operations iterate over every position", [A + "row_operations.cpp"],
     [("row operators", A + "row_operations.cpp: operator+=, -=, *=, /=, +, -, *, /, scalar product")])
prop("P08", "Normalising a row keeps it equivalent modulo the equations and primitive",
     "For every non-zero row and every list of equations in echelon form with positive leading coefficients, normalisation returns a row that is zero at the leading position of each equation, has entries without a common divisor, and is a positive multiple of the input on every solution of the equations (so it describes the same half-space of the affine hull). The row keeps its length.",
     "all rows and all equation systems in echelon form", "the tests normalise a few rows of dimension three; eliminations interact through every equation and sign", [A + "row_operations.cpp"],
     [("elimination with each equation, division by the gcd", A + "row_operations.cpp: normalize")])
prop("P09", "Matrix products, transposition and identity blocks are exact",
     "For every rectangular matrix and every vector of matching length, the product has as entry i the scalar product of row i with the vector; transposing moves entry (i, j) to (j, i) for all i, j; appending the negative identity keeps all rows and adds, for each column, the negated unit row.",
     "all rectangular matrices", "the tests use one or two small matrices; the claims quantify over every position", [A + "matrix_operations.cpp"],
     [("matrix-vector product", A + "matrix_operations.cpp: operator*"), ("transposition", A + "matrix_operations.cpp: transpose"), ("identity block", A + "matrix_operations.cpp: appendNegativeIdentityMatrix")])
prop("P10", "Rank and equation extraction describe the linear hull",
     "For every rectangular integer matrix, the reported dimension is its rank. The equations extracted from a matrix hold for every row of it, are primitive, linearly independent, have positive leading coefficients with pairwise different leading positions, and their number is the number of columns minus the rank.",
     "all rectangular matrices of integers (within the range of the integer type)", "the tests use a few matrices of dimension three; elimination depends on pivots, zero rows and dependent rows in any order", [A + "matrix_operations.cpp"],
     [("row elimination for the rank", A + "matrix_operations.cpp: dimension"), ("column elimination", A + "matrix_operations.cpp: gaussianElimination, extractEquations, eliminateColumns, pivot")])
prop("P11", "Bitsets behave as finite sets",
     "For every fixed size and variable size bitset and every capacity, setting an index adds exactly that index; merging gives the union; containment, union containment and equality agree with the sets of indices in the machine words covered by the given bound; count and union count are the cardinalities over those words.",
     "all sizes, all index sets, all bounds", "the tests set a handful of bits in small sets; word boundaries and bounds vary without limit", ["src/bitset_fixed_size.tpp", "src/bitset_variable_size.cpp", "src/popcount.tpp"],
     [("word-wise loops", "src/bitset_fixed_size.tpp, src/bitset_variable_size.cpp"), ("population count", "src/popcount.tpp")])
prop("P12", "Fourier-Motzkin elimination returns valid inequalities only",
     "For every rectangular matrix of input rays with a non-zero entry, every row returned by the elimination (and by its heuristic variant) has non-positive scalar product with every input row, has the width of the input, is primitive, and has negative scalar product with some input row. No ray of the input is cut off, whatever the order of the rays.",
     "all rectangular integer matrices, every order of their rows", "the tests transform a few polytopes; validity must hold for every ray at every projection step", [A + "fourier_motzkin_elimination.cpp", A + "matrix_operations.cpp"],
     [("projection step combining negative and positive rows", A + "fourier_motzkin_elimination.cpp: projection, updateSystem"), ("initial system", A + "fourier_motzkin_elimination.cpp: fourierMotzkinElimination, initializeR")])
prop("P13", "Distances and extremal vertices are exact",
     "For every inequality and every non-empty list of vertices, the distance of a vertex is the exact slack of the inequality at it, the right hand side is the negated last coefficient, and the nearest (furthest) vertex is a member of the list whose distance is minimal (maximal), the first such one.",
     "all inequalities, all vertex lists", "the tests use four vertices; minimality is a statement about every vertex", [A + "inequality_operations.cpp"],
     [("distance and rhs", A + "inequality_operations.cpp: distance, rhs"), ("scan for the extremum", A + "inequality_operations.cpp: extremalVertex, furthestVertex, nearestVertex")])
prop("P14", "Rotating a facet around a ridge yields a valid neighbour",
     "When a rotation of a facet around one of its ridges finishes, the resulting inequality is valid for every vertex, holds with equality at every vertex on the ridge and at some vertex off the facet, and is primitive. The rotation works for every vertex list containing a vertex off the facet.",
     "all vertex lists, facets and ridges (partial correctness)", "the tests rotate on one simplex; the loop runs until no vertex violates the inequality, for every list of vertices", [A + "rotation.cpp", A + "inequality_operations.cpp"],
     [("rotation loop", A + "rotation.cpp: rotate"), ("vertices on the facet", A + "rotation.cpp: verticesWithZeroDistance")])
prop("P15", "Applying a symmetry map is the linear map it denotes",
     "For every map (a list of linear forms) and row of the same length, applying it to a facet row or to a vertex row gives, up to division by the gcd of the result, exactly the image under the linear map (transposed for facets), with its sign preserved; the input row is unchanged and the result primitive or zero.",
     "all maps, all rows", "the tests apply a few permutations of three coordinates; terms may repeat, be missing, or carry any factor", [A + "map_operations.cpp"],
     [("accumulation of the terms", A + "map_operations.cpp: apply, applyTerm")])
prop("P16", "Classes are exactly the orbits, with one representative each",
     "For every row and list of maps, the class of the row contains the row, is closed under every map, and contains nothing that is not reached from the row by applying maps; the representative is its lexicographically greatest row. Reducing a list of rows yields only representatives of classes of rows of the list, every row of the list lies in a class that is represented, no row behind a later representative is reached from one behind an earlier one, and so, when the maps are invertible on the rows, no class is represented twice.",
     "all row sets and maps with finite orbits", "the tests build orbits of a few permutations; closure is a statement about every member and every map", [A + "classes.cpp", A + "map_operations.cpp"],
     [("orbit by closure", A + "classes.cpp: getClass"), ("reduction", A + "classes.cpp: classes, classRepresentative")], over=("inputs", "histories"))
prop("P17", "Normalising maps keeps their action on normalised rows",
     "For every list of maps and every list of non-zero equations in echelon form (each is zero where an earlier one has its leading coefficient; leading coefficients may be any non-zero integer), every normalised map has an empty image for each eliminated coordinate, no term on an eliminated coordinate, every index at most once per image in ascending order, and there is one positive factor per map such that on every facet row that is zero on the eliminated coordinates the action of the normalised map is that multiple of the action of the original map, modulo the equations (as long as the factors fit an int).",
     "all maps, all equation systems", "no test normalises a map with interacting equations, repeated indices or leading coefficients other than one", [A + "map_operations.cpp"],
     [("substitution and simplification", A + "map_operations.cpp: normalize, normalizeMap, indices, eliminateZeroCoefficients, subtractEquations, subtractEquation, simplify")])
prop("P18", "The validity check accepts exactly valid input",
     "For every non-empty set of vertices and rays (inequalities) and every list of inequalities (vertices), the check raises if and only if some entry of the list is violated by some row of the set, or is tight on no row, or is tight on rows whose rank is not one less than the rank of the set; the filter removes exactly such entries and keeps the order of the others. The check of maps raises if and only if some map does not permute the (pairwise different) rows: every image, divided by the gcd of its entries, must be one of the rows, and different rows must have different images. (As long as the values computed fit an int.)",
     "all matrices of vertices and inequalities, all maps", "the tests run the check on a few inputs", ["src/input_validity.cpp"],
     [("checks and filter", "src/input_validity.cpp")])
prop("P19", "Conversions between integer types keep every entry",
     "For every row and every matrix, the conversion between int and any working integer type (16, 32 and 64 bits, overflow-checked, arbitrary precision), in both directions, has the same shape and the same value at every position; if an entry does not fit the target type, an exception is raised instead (and only then).",
     "all rows and matrices, all integer types", "the tests convert one matrix", ["src/cast.cpp", "src/cast.h"],
     [("element-wise copy", "src/cast.cpp: cast")])
prop("P20", "Vertex and ray rows are read exactly",
     "For every content of the input, a section of vertices (rays) is read without an exception if and only if it starts with one of its documented keywords and all its rows up to the next line that is a keyword, or up to the end, are well formed: possibly an identifier in parentheses that are closed on the same line, then one or more coordinates on one line (separated by blanks, or by the sign of the next), each an integer or a fraction of two integers with non-zero denominator. The result has one row for each of these rows, in their order: every coordinate is the quotient of its entry by the positive last entry, which is the least common denominator of the row; for a ray the last entry is set to 0 instead. Lines without text are skipped; nothing beyond the section is consumed (a line that starts with END belongs to it). A malformed, missing or out of range coordinate or denominator is rejected with an exception wherever it stands; nothing is dropped silently, and reading always comes to an end. (As long as the scaled entries fit an int.)",
     "all contents of the input", "the sample files cover a few layouts and signs", ["src/input_vertex.cpp", "src/input_common.cpp", "src/input_keywords.cpp", "src/istream_peek_line.cpp"],
     [("rows", "src/input_vertex.cpp: vertex, verticesConvex, verticesConical, vertices"), ("reading of lines", "src/input_common.cpp; src/istream_peek_line.cpp: peekLine"), ("keywords", "src/input_keywords.cpp")], over=("inputs",))
prop("P21", "Inequalities and equations are read exactly",
     "For every content of the input, a section of inequalities (equations) is read without an exception if and only if it starts with one of its documented keywords and all its lines up to the next line that is a keyword, or up to the end, are well formed; the result has one row for each line that has more text than an identifier, in their order, and the row is that of the constraint on the line, brought into the form a x + b <= 0 (a x + b = 0): a constraint with >= is negated as a whole, and a right hand side is negated. Nothing beyond the section is consumed (a line that starts with END belongs to it). A line is well formed if it is, behind possibly an identifier in closed parentheses and up to the end of the line, either a vector of integers (separated by blanks, or by the sign of the next) with possibly one relation operator directly in front of the last one, which is then the right hand side (without an operator the row is the vector as it is); or, in the notation with names, terms with names, one relation operator, and one integer, the right hand side. A term is a factor (an integer, a sign, or nothing) directly followed by the name; terms are separated by blanks and may be in any order, a name occurs at most once with a factor other than 0, and a sign may stand apart from a term or a right hand side that is not negative itself. An operator is <=, >= (only for inequalities), == or an = followed by a blank (only for equations). Every integer is in the range of int; anything else (an unknown name, digits glued to other text, a sign or an operator too many, a missing right hand side, a constant on the left, a name on the right) is rejected with an exception. The notation with names is used if and only if names are declared and one of them occurs as a term in the text from the line on (the search gives up after 2000 characters), the notation without names otherwise. (As long as the entries and their negations fit an int.)",
     "all contents of the input, all lists of names", "the sample files cover a few layouts", ["src/input_constraint.cpp", "src/input_constraint_named_variables.cpp", "src/input_constraint_unnamed_variables.cpp", "src/input_common.cpp", "src/input_keywords.cpp"],
     [("sections", "src/input_constraint.cpp: constraints, keyword_condition, potentiallyNamedConstraint"), ("lines", "src/input_constraint_named_variables.cpp: term, constraint; src/input_constraint_unnamed_variables.cpp: constraint"), ("tokens", "src/input_common.cpp: toInt, isRelation, relationOperator, normalize, containsNames")], over=("inputs",))
prop("P22", "The rows used are the rows given, in the order asked for",
     "For every input file with well-formed sections and every documented order (lex_asc, lexicographic_ascending, lex_desc, lexicographic_descending, nz_asc, nonzero_ascending, nz_desc, nonzero_descending, rev, reverse, or none), the rows handed to the enumeration are exactly the rows given, with their multiplicities, permuted into that order (lexicographic; by the number of non-zero entries; reversed; as given): rays first, then vertices, each in the order; for an outer description the inequalities together with both directions of every equation, in the order, followed by the trivial inequality 0 <= 1. A reduced section stands for the classes of its rows under the maps, each row's complete class (for inequalities modulo the equations). An unknown order is rejected with an exception, and no option is read beyond its end.",
     "all inputs, all sorting options", "the comparators and readers are exercised on a few samples; the statement is about every row of every file", ["src/input.cpp", "src/input_detection.cpp"],
     [("sorting and expansion", "src/input.cpp: sort, expandInequalities, expandVertices"), ("assembly of the rows", "src/input.cpp: inequalities, vertices"), ("option", "src/input_detection.cpp: getInputOrder, inputOrder")], over=("inputs", "configurations"))
prop("P23", "Printed rows denote the computed rows",
     "For every integer type and every row (matrix, vertex) whose entries are in the range of int (the least int excepted): a row printed without names is its entries in decimal notation, in order; with names it is the terms with non-zero coefficient in order (coefficient and name without a blank in between, a coefficient 1 left out, -1 printed as a sign, a plus sign in front of every term but the first), the relation, and the negated last entry; a matrix is one such line per row, in order; a vertex is its coordinates as fractions in lowest terms with positive denominator (left out if it is 1). What has been in the output before stays as it is. What is printed reads back as the same row: the reader of constraints turns the line, with the relation <= or =, into the row that was printed (with names: for rows with a non-zero coefficient and pairwise different, non-empty names without white space that do not begin with a digit, a sign, a parenthesis or a relation character), and the reader of vertices turns the coordinates into the same point. A row of another integer type with an entry that does not fit an int raises an exception before anything of it is printed; nothing is printed that is not the row.",
     "all rows, all names, all integer types", "the tests compare a few printed lines", [A + "row_operations.cpp", A + "matrix_operations.cpp", "src/cast.cpp"],
     [("printing of rows and vertices", A + "row_operations.cpp: operator<<, prettyPrint, prettyPrintln, printFractional"), ("printing of matrices", A + "matrix_operations.cpp: operator<<, prettyPrint"), ("conversion to int", "src/cast.cpp: cast")])
prop("P24", "Parallel enumeration does not depend on the schedule",
     "Adjacency decomposition prints the same set of classes, each exactly once, for every number of threads and every interleaving of the workers: every row that is put into the shared list is printed exactly once, when it is put for the first time, and handed out to exactly one worker; the rows found for a job are all in the list before the job counts as done; the end is announced only when no job is in progress and none is waiting, and then every waiting worker is told; a worker that waits is woken for a new row; the shared data is only accessed by the thread that holds the lock, and no thread uses data that no longer exists. The enumeration comes to an end.",
     "all schedules of the worker threads", "a test run sees one schedule", ["src/list.cpp", "src/job_manager.cpp", "src/method_adjacency_decomposition_implementation.cpp"],
     [("shared work list", "src/list.cpp: put, get, empty"), ("workers", "src/job_manager.cpp: put, get"), ("threads", "src/method_adjacency_decomposition_implementation.cpp: adjacencyDecomposition, initializationOnMaster")], over=("schedules",))
prop("P25", "Enumeration terminates with the complete list",
     "For every pointed input with finite symmetry the enumeration terminates, and every facet (vertex) class of the polyhedron is printed.",
     "all inputs", "the tests know the complete answer for a few samples", ["src/method_adjacency_decomposition_implementation.cpp", A + "fourier_motzkin_elimination.cpp"],
     [("adjacency decomposition", "src/method_adjacency_decomposition_implementation.cpp"), ("elimination with redundancy removal", A + "fourier_motzkin_elimination.cpp: countCheck, containmentCheck, pnrIteration")])

prop("P26", "Input of inconsistent dimension is rejected",
     "Whenever a description is read without an exception, it has at least one row, and all its rows (vertices and rays with the homogenising entry; inequalities and both directions of equations), all known facets or vertices and all maps have one and the same length, which is one more than the number of names, if names are declared, and one more than the declared dimension (DIM=N), if one is declared. Every other description is rejected with an exception, in particular one with a map that has fewer or more images than there are names, or refers to something that is not a name; consistent descriptions are not rejected for their dimensions. Maps only refer to existing coordinates.",
     "all input files, all combinations of lengths", "the tests read a few consistent files; every later computation indexes rows, maps and names with one common length", ["src/input_consistency.cpp", "src/input.cpp", "src/input_map.cpp", "src/input_keywords.cpp"],
     [("checks of lengths", "src/input_consistency.cpp: checkConsistency, rangeDimensionCheck; src/input.cpp: checkDimension"), ("parser of maps", "src/input_map.cpp: map, image"), ("declared dimension", "src/input_keywords.cpp: isKeywordDimension")])
prop("P27", "Options and input select the computation they name",
     "For every list of arguments and every content of the input file: the program computes facets or vertices as follows. Without arguments it shows the help; if some argument asks for help or the version (?, -h, --h, -help, --help, -v, --v, -version, --version; -h ARG, -h=ARG, --help=ARG, --help-command=ARG for help on an option), the program does only what the first of these asks for. Otherwise the mode follows from the lines of the input file that are, without blanks around them, keywords: vertices are enumerated if there are inequalities (or reduced ones), facets if there are convex or conical hulls (or reduced ones) or none of these, and a file with both is refused. The input file is the only argument that neither begins with a dash nor follows an option of one dash other than -c, -f and those that contain '='; several such arguments are refused. The computation uses the integer type (16, 32, 64, safe, inf; otherwise int), the method (ad, dd and their long names; otherwise adjacency decomposition), the number of threads (a positive integer; otherwise any positive number) and the known data that the first option of that kind names, in each of its forms (-i X, -i=X, --integer-type=X; -m, --method=; -t, --threads=; -k, --known-data=, --known-facets= for facets, --known-vertices= for vertices); -c/--check and -f/--filter are recognised anywhere. The first argument that begins like an option of a kind decides (-i or --i, and likewise for m, t, k): if it is not in one of the forms, or its value is missing or none of those named, an exception is raised; nothing is replaced by a default.",
     "all argument lists, all input files", "the tests try a few command lines; every option may come in any form, at any position, repeated or malformed, in combination with any file", ["src/main.cpp", "src/input_detection.cpp", "src/integer_type_detection.cpp", "src/integer_type_selection.tpp", "src/input_method.cpp", "src/concurrency.cpp", "src/method_facet_enumeration.cpp", "src/method_vertex_enumeration.cpp", "src/method_adjacency_decomposition.cpp", "src/method_double_description.cpp", "src/input.cpp", "src/input_validity.cpp"],
     [("mode and file name", "src/input_detection.cpp: detectOperationMode, getFilename, keywords, commandLineModeOption"), ("integer type", "src/integer_type_detection.cpp: integerType; src/integer_type_selection.tpp: select"), ("method", "src/input_method.cpp: method"), ("threads", "src/concurrency.cpp: numberOfThreads"), ("known data", "src/input.cpp: getFilenameKnownFacets, getFilenameKnownVertices"),
      ("dispatch", "src/main.cpp: main; src/method_*_enumeration.cpp; src/method_*.cpp")])

NA = {
    "P25": "termination and completeness rest on the double description lemma and the connectedness of the ridge graph (polyhedral combinatorics over the rationals), and on the liveness of the scheduler; no contract within reach of the verifier states it. Validity of what is printed is P12, P14 and P16",
}
NOTE = ("Every obligation generated from the current source is discharged by Verus/Z3 for all inputs and all iterations (partial correctness where a loop has no decreases clause). "
        "Trusted: the extraction (tool/cxx2ir.cpp, tool/ir2verus.py), the readings of the C++ library (tool/stdmodel.py), Verus, Z3, clang's parse. ")


def manifest():
    checks = []
    for p in sorted(PROPS):
        c = PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 tool/check.py %s quick" % p, "thorough_cmd": "python3 tool/check.py %s thorough" % p,
                       "technique": "contract-based deductive verification (Verus/Z3) of functions extracted from /repo on every run",
                       "level": c.get("level", "proof"), "level_note": NOTE + c.get("note", "Integers are the mathematical integers (the arbitrary precision type; proved exact by P01-P04).")})
    return {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks,
            "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(T) if p not in PROPS],
            "notes": "See DESIGN.md. No hooks in /repo are needed: contracts are kept in /verif/contracts and attached to the functions extracted from the current source."}


if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(T):
            f.write(json.dumps(T[p], ensure_ascii=False) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1, ensure_ascii=False)
        f.write("\n")
