#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=list(over), text=text), why_tests_cant=why,
      anchors=dict(files=list(files),
        mechanism=[dict(name=a, where=b) for a, b in mech],
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        observe_at=list(observe), hook_needed=None)))
V = "viennamath/"
RT = V + "runtime/"; CT = V + "compiletime/"; MA = V + "manipulation/"
NODES = [RT+"constant.hpp", RT+"variable.hpp", RT+"function_symbol.hpp", RT+"unary_expr.hpp", RT+"binary_expr.hpp", RT+"vector_expr.hpp"]

p("R01", "Runtime differentiation obeys the rules of calculus",
  "Differentiating any runtime expression with respect to a variable yields an expression that denotes its exact mathematical partial derivative: constants give 0, a variable gives 1 for itself and 0 for every other variable, and sums, differences, products, quotients and each elementary function follow the sum, product, quotient and chain rule. An operation for which the library has no derivative refuses with an exception instead of returning a tree that denotes something else. The free differentiation functions (for every operand kind that has an overload, scalar, vector or equation) give the same derivative as the expression itself.",
  ["inputs"], "every runtime expression tree, every differentiation variable",
  "diff_test checks ten fixed expressions at fixed points; the rule for a given operator must hold for every pair of sub-expressions and for every point.",
  [MA+"detail/binary_operations.hpp", MA+"detail/unary_operations.hpp", MA+"diff.hpp"]+NODES[:3],
  [("derivative rule of each binary operation", MA+"detail/binary_operations.hpp"), ("derivative rule of each unary operation", MA+"detail/unary_operations.hpp"), ("leaf derivatives", RT+"variable.hpp, "+RT+"constant.hpp, "+RT+"function_symbol.hpp"), ("free functions", MA+"diff.hpp")],
  observe=["value of the returned expression"])
p("R02", "Runtime simplification never changes the value of an expression",
  "Simplifying any runtime expression yields an expression that denotes the same value as the original at every point at which the original is defined. Neutral and absorbing elements are removed only when the operand really is that element, and operand order of non-commutative operations is kept. This holds for one simplification step, for the in-place form (which may stop early when the result changes its kind, but never changes the value) and for every operand kind the simplification function accepts.",
  ["inputs"], "every runtime expression tree, including trees with constant sub-trees and the special constants 0, 1 and -1",
  "the tests simplify a handful of trees; a rewrite rule must be right for every operand and for every constant value, most of which are never sampled.",
  [MA+"detail/binary_operations.hpp", MA+"simplify.hpp"]+NODES,
  [("rewrite step of each binary operation", MA+"detail/binary_operations.hpp"), ("constant folding", RT+"binary_expr.hpp, "+RT+"unary_expr.hpp"), ("fixpoint driver", MA+"simplify.hpp")])
p("R03", "Simplifiability test and simplification step agree and terminate",
  "Whenever an expression reports that it cannot be simplified no neutral or absorbing constant (x+0, 0+x, x-0, 0-x, x*0, x*1, 0*x, 1*x, 0/x, x/1) and no all-constant binary operation is left at its root, and it reports that it can be simplified whenever one of its operands does. Whenever it reports that it can be simplified, one step removes the reported pattern, so repeated simplification terminates.",
  ["inputs"], "every runtime expression tree",
  "tests only run trees on which the loop happens to stop; agreement between the predicate and the step has to hold for every tree, otherwise simplification stops early or loops forever.",
  [MA+"detail/binary_operations.hpp", MA+"simplify.hpp", RT+"binary_expr.hpp", RT+"unary_expr.hpp"],
  [("simplifiability predicate of each operation", MA+"detail/binary_operations.hpp"), ("fixpoint driver", MA+"simplify.hpp")])
p("R04", "Constancy and unwrapping are truthful",
  "An expression that reports itself constant can be unwrapped without an exception and the unwrapped number equals its value at every point. An expression that contains a variable or a function symbol never reports itself constant. Unwrapping something that does not represent a single number throws a library exception rather than returning a number.",
  ["inputs"], "every runtime expression node kind and operand combination",
  "the tests unwrap a few constants; the implication must hold for every node kind and every tree because simplification relies on it to fold.",
  NODES+[RT+"expression_interface.hpp", RT+"expr.hpp", RT+"integral.hpp", RT+"interval.hpp"],
  [("is-constant predicate and unwrap of every node", ", ".join(NODES))])
p("R05", "Runtime evaluation computes the denoted operation on the operand values",
  "Evaluating a runtime expression applies its operation to the values of its operands at the same point, left operand first: the four binary operations are +, -, *, / on the left and right value, each named elementary function is that function of its argument, constants evaluate to themselves and a variable to the coordinate with its own index. Evaluation at a scalar equals evaluation at the one-component vector holding it. Operations that have no pointwise value (gradient, divergence, partial derivative, unevaluated integral) throw a library exception.",
  ["inputs"], "every runtime expression tree and evaluation point",
  "tests evaluate fixed trees at fixed points with a tolerance; operator and function tags must be right for every value.",
  [CT+"binary_op_tags.hpp", CT+"unary_op_tags.hpp", RT+"binary_operators.hpp", RT+"unary_operators.hpp", RT+"integral.hpp"]+NODES,
  [("operation tags", CT+"binary_op_tags.hpp, "+CT+"unary_op_tags.hpp"), ("operation wrappers", RT+"binary_operators.hpp, "+RT+"unary_operators.hpp"), ("virtual evaluation", ", ".join(NODES))])
p("R06", "Every accepted point type is handed on coordinate by coordinate",
  "Whatever form of evaluation point is passed to an expression, equation side or the free evaluation function (floating-point number, runtime constant, compile-time constant, standard vector, user-defined vector for which an element accessor is provided, compile-time vector of length 1, 2 or 3) the expression is evaluated at the point whose i-th coordinate is the i-th coordinate that was passed, for all i, and with exactly as many coordinates as were passed.",
  ["inputs", "configurations"], "every expression kind, every accepted point type, every dimension",
  "the tests call a few of the dozens of sibling overloads with small points; a swapped or dropped coordinate in one overload for one node kind is not sampled.",
  [RT+"expr.hpp", RT+"unary_expr.hpp", RT+"binary_expr.hpp", RT+"variable.hpp", RT+"constant.hpp", RT+"vector_expr.hpp", CT+"ct_vector.hpp", CT+"ct_variable.hpp", MA+"eval.hpp"],
  [("call operators of every expression class", RT+"*.hpp"), ("free evaluation", MA+"eval.hpp")])
p("R07", "Evaluation with too few coordinates is always refused before any access",
  "Evaluating a runtime variable at a vector with too few coordinates for its index, or at a scalar when its index is not the first, always throws the library's index exception, and no element beyond the end of the supplied vector is ever read. The exception reports a valid message.",
  ["inputs"], "every variable index and every length of evaluation point",
  "the tests never evaluate out of range; the guard must cover every index including the boundary index equal to the length.",
  [RT+"variable.hpp", V+"exception.hpp"],
  [("bounds test before access", RT+"variable.hpp"), ("exception type", V+"exception.hpp")])
p("R08", "Copies of expressions are complete and independent",
  "Cloning any expression node or operation yields an object of the same dynamic type holding an equal copy of all of its state, and copying or assigning any value-semantic object (expression wrapper, unary, binary and vector expression, equation, interval, quadrature rule, LaTeX translator) reproduces all of its parts. A copy never shares owned storage with its original.",
  ["inputs", "histories"], "every class with owned or copied state, every sequence of copy and assignment",
  "tests copy only default-like objects; a field that is forgotten or shared in one copy operation shows only when that field is non-default and observed after a copy.",
  NODES+[RT+"expr.hpp", RT+"equation.hpp", RT+"interval.hpp", RT+"symbolic_interval.hpp", RT+"numerical_quadrature.hpp", RT+"functor_wrapper.hpp", RT+"integral.hpp", MA+"latex.hpp", CT+"unary_op_tags.hpp"],
  [("clone functions, copy constructors and assignments", RT+"*.hpp, "+MA+"latex.hpp")])
p("R09", "Structural equality compares everything that determines meaning",
  "Two expressions compare structurally equal exactly when they have the same kind, the same operation including the state of the operation (differentiation variable, integration variable, domain), and pairwise structurally equal operands, number of components, index, value or identifier. Shallow equality holds exactly when both have the same kind. Comparing objects of different kind or size answers false and never accesses memory out of bounds.",
  ["inputs"], "every pair of expressions",
  "tests compare few pairs; an attribute that is ignored by the comparison shows only for pairs that differ in nothing else.",
  NODES+[RT+"unary_operators.hpp", RT+"binary_operators.hpp", CT+"unary_op_tags.hpp", RT+"integral.hpp", RT+"symbolic_interval.hpp"],
  [("deep and shallow comparison of every node", ", ".join(NODES)), ("operation comparison", RT+"unary_operators.hpp, "+RT+"binary_operators.hpp")],
  state=[("operation state", "variable or domain carried by a unary operation", CT+"unary_op_tags.hpp, "+RT+"integral.hpp")])
p("R10", "Substitution replaces every match and nothing else",
  "Substituting A by B in a runtime expression replaces every maximal sub-expression that is structurally equal to A by a copy of B and keeps every other part (operations, operand order, constants, other symbols, components) unchanged. The form taking several pairs uses, for each sub-expression, the replacement belonging to the first search expression it matches (search and replacement lists have the same length). The free substitution functions behave the same for every operand kind, argument order being search, replacement, expression.",
  ["inputs"], "every search expression, replacement and target tree, every number of pairs",
  "tests substitute a few variables; every node kind has its own two implementations and every pairing of search index and replacement index must be right.",
  NODES+[MA+"substitute.hpp"],
  [("substitute members of every node", ", ".join(NODES)), ("free functions", MA+"substitute.hpp")])
p("R11", "Expression trees are owned exactly once: no leak, no double delete",
  "On every path of every library operation that ends without an exception each heap object the library creates is either destroyed, returned to the caller who owns it, or stored in exactly one owner; an object that belongs to somebody else is never stored in a second owner and never destroyed. An object that owns raw storage is safe to copy, assign and destroy.",
  ["inputs", "histories"], "every library function and every path through it",
  "memory errors do not change the values the tests look at; ownership has to be right on every path of every function, including rarely used ones.",
  [RT+"*.hpp", MA+"*.hpp", MA+"detail/*.hpp"],
  [("owning pointers inside nodes and wrappers", RT+"*.hpp"), ("functions that return fresh trees", MA+"detail/*.hpp")])
p("R12", "Empty and default-constructed objects are handled without invalid access",
  "Copying, assigning, destroying and passing around a default-constructed (empty) expression wrapper, interval, equation or quadrature object never dereferences a null pointer (using an empty wrapper as an expression is outside this property), and assignment of an object to itself leaves its value unchanged; assigning a part of an expression to that expression yields the part. Every function with a result returns one on every path.",
  ["histories"], "every default-constructible value class and every copy, assignment and destruction",
  "tests never store empty expressions in containers and never self-assign.",
  [RT+"expr.hpp", RT+"equation.hpp", RT+"interval.hpp", RT+"numerical_quadrature.hpp", RT+"vector_expr.hpp", RT+"functor_wrapper.hpp"],
  [("null guards in copy operations", RT+"expr.hpp, "+RT+"numerical_quadrature.hpp")])
p("R13", "Tree traversal and tree manipulation reach every node exactly once",
  "A recursive traversal presents every node of the tree it steps into to the visitor exactly once and descends into every operand of a node exactly when the visitor asks to step into that node. A recursive manipulation replaces a node by the functor's result exactly when the functor says it modifies the node, otherwise it rebuilds the node with the same operation and operands manipulated in place and order.",
  ["inputs"], "every tree shape and every visitor or manipulator",
  "only the tutorial traverses trees; each node kind has its own implementation and a skipped operand shows only for visitors interested in it.",
  NODES+[RT+"expression_interface.hpp", RT+"functor_wrapper.hpp", RT+"expr.hpp"],
  [("recursive members of every node", ", ".join(NODES)), ("wrapper dispatch", RT+"functor_wrapper.hpp")])
p("R14", "Conversion of compile-time expressions to runtime keeps their meaning",
  "Converting any compile-time constant, variable, unary, binary or function-symbol expression to a runtime expression (by construction, assignment, or as operand of a mixed operation) yields a runtime expression denoting the same function: same operation, same operand order, same variable index, same value. This holds for every combination of operand kinds on both sides.",
  ["programs", "inputs"], "every compile-time expression type",
  "each combination of operand kinds has its own overload; tests reach a few of them.",
  [RT+"binary_expr.hpp", RT+"unary_expr.hpp", RT+"expr.hpp", RT+"variable.hpp", RT+"constant.hpp", CT+"ct_constant.hpp", CT+"ct_variable.hpp", CT+"ct_binary_expr.hpp", CT+"ct_unary_expr.hpp"],
  [("converting constructors and assignments", RT+"binary_expr.hpp, "+RT+"unary_expr.hpp, "+RT+"expr.hpp")])
p("R15", "Arithmetic operators build the operation written, in the order written",
  "For every admissible pair of operand kinds (numbers, runtime and compile-time constants, variables, function symbols, unary, binary and wrapped expressions) the result of a+b, a-b, a*b and a/b denotes exactly the sum, difference, product and quotient of a and b with a as left and b as right operand. Shortcuts that fold or re-associate constants give the same value.",
  ["programs", "inputs"], "every pair of operand kinds and every operator",
  "there are hundreds of overload and operand-kind combinations and constant-folding shortcuts; the tests exercise a few.",
  [V+"forwards.h", RT+"operations/rt_rt.hpp", RT+"operations/constant.hpp", RT+"operations/function_symbol.hpp", CT+"operations/ct_ct.hpp", CT+"operations/ct_constant.hpp", CT+"operations/ct_variable.hpp", CT+"operations/ct_expr.hpp"],
  [("operator templates", V+"forwards.h"), ("operand-kind dispatch", RT+"operations/*.hpp, "+CT+"operations/*.hpp")])
p("R16", "Function overloads apply the named function to the given argument",
  "Each elementary function (exponential, sine, cosine, tangent, modulus, square root, natural and decimal logarithm) applied to a constant, a runtime or compile-time variable, a runtime unary or binary expression, an expression wrapper or a compile-time unary or binary expression, gradient and divergence applied to a function symbol, wrapper, runtime unary or binary expression, and the Laplace operator applied to a wrapper or function symbol compile and return an expression denoting exactly that function of exactly that argument; the Laplace operator is the divergence of the gradient.",
  ["programs", "inputs"], "every function and every argument kind",
  "about seventy copy-pasted overloads; the tests use a handful, so a wrong tag or missing overload in one of them is not seen.",
  [MA+"detail/unary_operations.hpp", CT+"unary_op_tags.hpp"],
  [("function overloads", MA+"detail/unary_operations.hpp")])
p("R17", "Operations do not modify their operands and there is no hidden global state",
  "No library operation on an expression, equation, interval or operator that is passed as read-only changes that operand or anything reachable from it, and the library keeps no mutable state outside the objects the user holds. Consequently read-only use of shared expressions from several threads cannot race.",
  ["schedules", "histories"], "every read-only operation, every interleaving of read-only operations",
  "tests are single-threaded and look only at results; absence of writes through read-only access paths and of shared mutable state is a property of all code.",
  [RT+"*.hpp", MA+"*.hpp", CT+"*.hpp"],
  [("const member functions and pointers to const", RT+"*.hpp"), ("absence of static mutable data", V+"*")])
p("R18", "Failures surface as typed exceptions with a valid message",
  "Every failure the library detects is reported by throwing an object derived from the standard exception class whose message stays valid as long as the exception object does. The library never throws plain strings or numbers, never swallows an exception, and never terminates the program for a mistake in user input that another sibling reports by exception.",
  ["inputs"], "every failing operation",
  "tests never provoke a failure.",
  [V+"exception.hpp", RT+"*.hpp", MA+"*.hpp", CT+"unary_op_tags.hpp"],
  [("exception classes", V+"exception.hpp"), ("throw sites", RT+"*.hpp, "+MA+"*.hpp")])
p("R19", "Vector expressions act component by component",
  "Sum, difference, scaling and quotient by a scalar, copying, differentiation, simplification, substitution, and traversal of vector expressions act on every component and produce a result of the same size whose i-th component is the result of the operation on the i-th components. The product of two vector expressions is the sum over all components of the products. A size mismatch is refused (by exception or assertion) before any component is accessed.",
  ["inputs"], "every size, every component",
  "only the tutorial uses vector expressions, with size 3.",
  [RT+"vector_expr.hpp", MA+"detail/binary_operations.hpp"],
  [("component loops", RT+"vector_expr.hpp")])
p("R20", "Equations and intervals keep their two sides apart and in order",
  "Whatever operand kinds an equation or interval is built from, converted from or copied from, its left side (lower bound) denotes the first and its right side (upper bound) the second operand. Every operand combination for which a generator or constructor exists is accepted without ambiguity.",
  ["programs", "inputs"], "every pair of operand kinds, every constructor, generator and assignment",
  "about fifty generator overloads and a dozen constructors; equation_test uses a few.",
  [CT+"ct_equation.hpp", CT+"ct_interval.hpp", RT+"equation.hpp", RT+"interval.hpp"],
  [("generators", CT+"ct_equation.hpp, "+CT+"ct_interval.hpp"), ("runtime constructors", RT+"equation.hpp, "+RT+"interval.hpp")])
p("R21", "Integrals carry their domain, integrand and variable faithfully",
  "An encoded integral holds exactly the domain, integrand and integration variable it was built from, and the one-point rule returns the interval length times the integrand at the midpoint of the interval with the integration variable set to it. Applying a quadrature object to an encoded integral uses exactly the encoded parts, substituting a concrete domain for a symbolic one affects only integrals over that symbolic domain, and anything that is not such an integral is refused with an exception.",
  ["inputs"], "every domain, integrand, variable and quadrature rule",
  "only a tutorial integrates; the dispatch on encoded integrals is never tested.",
  [RT+"integral.hpp", RT+"numerical_quadrature.hpp", RT+"interval.hpp", RT+"symbolic_interval.hpp", MA+"substitute.hpp"],
  [("integral operations and generators", RT+"integral.hpp"), ("quadrature dispatch", RT+"numerical_quadrature.hpp"), ("symbolic domain replacement", MA+"substitute.hpp")])
p("R22", "LaTeX output covers every node and keeps structure",
  "The LaTeX translator turns constants, variables, function symbols, unary and binary expressions, equations, intervals and encoded integrals into text in which every operation appears in its own notation with operands in their mathematical order and with grouping wherever the notation would otherwise change the meaning. User customisations of variables and function symbols are honoured for exactly the symbols they were registered for (the last one counts), wherever the symbol occurs, survive copying the translator and do not leak between copies; processors added by the user are asked for what the built-in ones do not handle; a unary operation the translator does not know is refused with an exception.",
  ["inputs"], "every tree and every customisation",
  "only a tutorial prints LaTeX; coverage of all operations and pairing of names must hold for every tree.",
  [MA+"latex.hpp"], [("processor table and per-kind processors", MA+"latex.hpp")])
p("R23", "Coordinate systems expand differential operators consistently",
  "Applying the Cartesian coordinate system of dimension d replaces the gradient of a function symbol by the d-component vector of partial derivatives with respect to the first, ..., d-th variable in this order, replaces its divergence by the sum of its partial derivatives with respect to the first d variables, and leaves everything else untouched, for d = 1, 2, 3 (in dimension one both are the derivative with respect to the first variable). The operators are expanded for the unknown and the test function with index zero, wherever they occur in the expression or on either side of an equation; operators applied to anything else stay.",
  ["inputs", "configurations"], "every expression and every dimension",
  "not exercised by any test.",
  [MA+"apply_coordinate_system.hpp"], [("per-dimension implementations", MA+"apply_coordinate_system.hpp")])
p("R24", "The headers can be used from any number of translation units",
  "Every library header compiles when it is included alone, repeatedly, and together with the other headers in any order, and every function and object defined in a header may be defined in several translation units. The classes of the public headers can be instantiated when only their own header was included.",
  ["programs"], "every header, every set of translation units",
  "the linkage test covers two translation units with one include order.",
  [V+"*"], [("inline and template definitions, include guards", V+"*")])
p("R25", "Function symbols and unknowns keep their identity",
  "Two function symbols are the same exactly when their tags and indices coincide, regardless of where they are created, converted from compile time or copied. A compile-time symbol of the unknown or test function keeps its index in every conversion. Evaluating or unwrapping a function symbol as if it were a number is refused with an exception.",
  ["inputs", "programs"], "every tag and identifier",
  "tests create one symbol of each tag and compare nothing.",
  [RT+"function_symbol.hpp", CT+"ct_function_symbol.hpp"], [("identifier propagation", RT+"function_symbol.hpp, "+CT+"ct_function_symbol.hpp")])
p("R26", "Printed form of expressions shows every operand and operation in order",
  "The textual form of every expression names its own operation or kind and contains the text of every operand exactly once, in order and grouped, so that expressions with different operations, variable indices, symbol identifiers or operand order print differently; the stream operators print that text.",
  ["inputs"], "every node and operation kind",
  "tests print but never look at the output.",
  NODES+[CT+"binary_op_tags.hpp", CT+"unary_op_tags.hpp", CT+"ct_binary_expr.hpp"],
  [("detailed string of each node", ", ".join(NODES))])
p("C01", "Compile-time simplification preserves value and is total",
  "Every rewrite of the compile-time simplifier replaces an expression type by one that denotes the same function wherever the original is defined, for arbitrary operands and arbitrary constants including negative and large ones. Simplification of every compile-time expression compiles: exactly one rewrite applies and rewriting ends.",
  ["programs"], "every compile-time expression type",
  "compiletime_manipulation checks a few types at a few points; each partial specialisation must be right for all matching types and the set of them unambiguous.",
  [MA+"simplify.hpp", V+"forwards.h"], [("rewrite specialisations", MA+"simplify.hpp")])
p("C02", "Compile-time differentiation obeys the rules of calculus",
  "The compile-time derivative of every compile-time expression with respect to every compile-time variable denotes its exact mathematical partial derivative.",
  ["programs"], "every compile-time expression type and variable",
  "tests differentiate a few types.",
  [MA+"diff.hpp"], [("derivative specialisations", MA+"diff.hpp")])
p("C03", "Compile-time expansion preserves value and removes products of sums",
  "Expanding a compile-time expression yields an expression denoting the same function in which, outside denominators and function arguments, no product has a sum or difference as factor.",
  ["programs"], "every compile-time polynomial expression type",
  "tests expand a few products.",
  [MA+"expand.hpp"], [("expansion specialisations", MA+"expand.hpp")])
p("C04", "Coefficient extraction and term dropping partition a polynomial",
  "For every expanded compile-time polynomial P and variable x, dropping the terms dependent on x yields P at x=0 and the coefficient of x yields (P - P at x=0)/x, so coefficient times x plus the dropped form equals P.",
  ["programs"], "every compile-time polynomial expression type and variable",
  "tests check a few polynomials.",
  [MA+"coefficient.hpp", MA+"drop_dependent_terms.hpp"], [("specialisations", MA+"coefficient.hpp, "+MA+"drop_dependent_terms.hpp")])
p("C05", "Compile-time integration of polynomials is exact",
  "The analytic integral of every compile-time polynomial over every interval with polynomial bounds that do not depend on the integration variable is the exact integral with respect to the given variable, other variables being constants.",
  ["programs"], "every polynomial type, every variable, every pair of bounds",
  "tests integrate a few polynomials.",
  [MA+"integrate.hpp"], [("antiderivative specialisations and bound insertion", MA+"integrate.hpp")])
p("C06", "Compile-time substitution replaces every match and nothing else",
  "Substituting A by B in a compile-time expression replaces every sub-expression of type A by B and keeps everything else, and the value returned denotes the type computed.",
  ["programs"], "every compile-time expression, search and replacement type",
  "tests substitute a few variables.",
  [MA+"substitute.hpp"], [("substitution metafunction", MA+"substitute.hpp")])
p("C07", "Compile-time evaluation equals runtime evaluation",
  "Evaluating a compile-time expression, be it fully at compile time, with a runtime point, or after conversion to a runtime expression, gives the value of the denoted function at that point; compile-time evaluation of rational values is exact for every representable operand.",
  ["programs", "inputs"], "every compile-time expression and every point",
  "tests evaluate a few types at a few points.",
  [MA+"eval.hpp", CT+"ct_constant.hpp", CT+"ct_variable.hpp", CT+"ct_binary_expr.hpp", CT+"ct_unary_expr.hpp", CT+"ct_vector.hpp", CT+"operations/ct_constant.hpp"], [("evaluation metafunctions and call operators", MA+"eval.hpp, "+CT+"*.hpp")])
p("C08", "Misuse is rejected at compile time and foreign types are left alone",
  "Programs that misuse compile-time objects (division by the constant zero, access to a vector component that does not exist, evaluation of an expression with too few coordinates, symbolic integration of something that is not a polynomial type) do not compile. The library's operators never take part in expressions over types that are not the library's.",
  ["programs"], "every misuse named and every foreign type",
  "a test suite that has to compile cannot contain programs that must not compile.",
  [V+"forwards.h", CT+"ct_vector.hpp", CT+"ct_variable.hpp", CT+"operations/ct_constant.hpp", MA+"eval.hpp"], [("constraints on templates", V+"forwards.h"), ("missing definitions", CT+"ct_vector.hpp")])
p("C09", "Every documented operation is usable with every documented operand kind",
  "Every member of every public runtime class can be instantiated with the default interface and numeric type, and every operator, elementary function, differentiation, simplification, evaluation, substitution, equation, interval, integral and quadrature function compiles for every combination of operand kinds for which an overload exists: no call is ambiguous or fails inside the library.",
  ["programs"], "every public class member and every generator/manipulation overload",
  "templates are only checked when instantiated, and the tests instantiate a small part of the library.",
  [V+"*"], [("template members", V+"*")])
p("N01", "Numerical quadrature converges to the integral",
  "For sufficiently smooth integrands the value returned by numerical quadrature approximates the true integral with the accuracy of the rule.",
  ["inputs"], "every smooth integrand", "tests do not integrate numerically.",
  [RT+"numerical_quadrature.hpp"], [("quadrature rule", RT+"numerical_quadrature.hpp")])
p("N02", "Floating-point results of evaluation are accurate to rounding",
  "Manipulating an expression changes its floating-point value only by rounding errors of the order of the unit roundoff times the size of the expression.",
  ["inputs"], "every expression and point", "tests compare with a fixed tolerance at fixed points.",
  [RT+"*.hpp"], [("evaluation", RT+"*.hpp")])
p("N03", "Compile-time and run-time cost stay bounded by expression size",
  "Manipulations take time and memory polynomial in the size of the expression, and the size of derivatives stays polynomial in the size of the input.",
  ["inputs", "programs"], "every expression", "tests use tiny expressions.",
  [MA+"*.hpp"], [("manipulations", MA+"*.hpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
