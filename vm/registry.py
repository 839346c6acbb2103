"""property id -> check function, technique, level note"""
from . import ctchecks as T
from . import c08, famcheck, globchk, hdrchk

CHECKS = {}; INFO = {}
def reg(pid, fn, technique, note):
    CHECKS[pid] = fn; INFO[pid] = (technique, note)

CT = 'The deciding step reads result types from the type-checked program and compares exact rational normal forms. Quantification over operands is by opaque symbols (the templates are parametric in them), over integers by the values that any specialization mentions, their neighbours and a set of generic ones; trusts clang 18 template instantiation and the normal form.'
reg('C01', T.c01, 'type-level witnesses: simplifier specializations instantiated on opaque operands, result types compared by normal form', CT)
reg('C02', T.c02, 'type-level witnesses: compile-time derivative types compared with exact derivatives', CT)
reg('C03', T.c03, 'type-level witnesses: expanded types compared by normal form and shape', CT)
reg('C04', T.c04, 'type-level witnesses: coefficient/drop types compared with polynomial division', CT)
reg('C05', T.c05, 'type-level witnesses: integral types compared with exact antiderivatives', CT)
reg('C06', T.c06, 'type-level witnesses: substitution result types compared with tree substitution', CT)
reg('C08', c08.c08, 'compile-fail witnesses with compiling twins', 'Each misuse must be rejected by the compiler on its own line and its twin accepted; finite list of misuse forms.')

RT = ('The deciding step interprets the type-checked library bodies abstractly over all paths; operands are opaque interface objects, so the verdict covers every operand that keeps the interface contract. '
      'Lengths of vectors and numbers of substitution pairs are enumerated up to a small bound; obligations the interpreter cannot follow are listed as undecided, never counted as passed.')
AI = 'abstract interpretation of the instantiated bodies with symbolic operands: '
for p, t in (('R01', 'result trees of diff() compared with the rules of calculus'), ('R02', 'simplified trees compared with the original in exact normal form'),
             ('R03', 'simplifiability predicate compared with path facts; well-founded weight as ranking function'), ('R04', 'constancy predicate and unwrap compared with path facts'),
             ('R05', 'evaluation results compared with the operation on operand values'), ('R06', 'point handed to opaque operands compared coordinate by coordinate'),
             ('R07', 'index guard shown to dominate every coordinate access'),
             ('R08', 'ownership and sharing of the nodes of every copy'), ('R09', 'structural and shallow equality compared with a recursive oracle on all node pairs'),
             ('R10', 'substitution results compared with tree substitution'), ('R13', 'visits and descents of traversals and manipulations compared with the functor answers'),
             ('R14', 'converted objects compared with the denotation of the compile-time type'), ('R16', 'selected overload of every function for every argument kind compared with the named function'),
             ('R19', 'components of the result compared one by one for every size up to the bound'), ('R20', 'both sides of every generated equation and interval compared with the operands in order'),
             ('R21', 'encoded parts, values handed to the quadrature rule and replaced domains compared with their origin'), ('R25', 'identifiers of copied, converted and compared symbols followed'),
             ('R22', 'text of every node read back by the rules of the notation and compared with what the node denotes; customisation tables followed'),
             ('R23', 'expanded operators and the substitutions applied to every opaque part compared with the definition for d = 1, 2, 3'),
             ('R26', 'text of every node followed piece by piece: each operand once, in order, bracketed; literal text pairwise different'),
             ('R15', 'operator overload selected by the compiler interpreted for every operand-kind pair')):
    reg(p, famcheck.check(p), AI + t, RT)

def c07(R):
    T.c07_types(R)
    R.rule('Bodies: operator() and eval() of compile-time expressions at every form of point are interpreted and compared with the value of the expression at the coordinates.')
    R.assume += famcheck.ASSUME
    famcheck.collect(R, *famcheck.rt.run(famcheck.rt.FAM['C07'](R.thorough())))
reg('C07', c07, 'type-level witnesses (evaluation types compared with exact rational values) and abstract interpretation of the evaluation bodies at every form of point', CT)

reg('R11', globchk.r11, AI + 'ownership audit of every path of every family; virtual-destructor rule over the record types', RT)
reg('R12', globchk.r12, AI + 'empty objects through every copy and assignment; null, uninitialised and missing-return events on all paths', RT)
reg('R17', globchk.r17, 'effect analysis by abstract interpretation (no store into read-only operands on any path) and scan of all static storage, mutable members and const-dropping casts', RT)
reg('R18', globchk.r18, 'typestate of failures by abstract interpretation; type check of every throw and catch; lifetime of every message', RT)
reg('R24', hdrchk.r24, 'type check of every header alone and in every order; linkage of every definition in the generated modules', 'Finite set of include orders (quick: alone, twice, first, alphabetic, reverse; thorough: all ordered pairs); clang 18 only.')

from . import c09
reg('C09', c09.c09, 'type check of the explicit instantiation of every public class and of every call of a function x operand-kind matrix', 'clang 18 only; the list of calls the library does not offer is committed (vm/nocall.txt).')

NOT_APPLICABLE = {
 'N01': 'accuracy of a quadrature rule for sufficiently smooth integrands quantifies over real functions; no structural clause beyond the midpoint formula, which R21 decides',
 'N02': 'floating-point rounding error quantifies over runtime values; bounding it needs numerical error analysis of arbitrary expression trees, not the shape of the code',
 'N03': 'time and memory of manipulations are runtime quantities depending on the expression; the derivative of a product is known to duplicate subtrees, no static bound in reach',
}
