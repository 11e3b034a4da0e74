import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    P.append(d)
D="wicked/diagrams/"; A="wicked/algebra/"; H="wicked/helpers/"; W="wicked/api/"
WT=[D+"wick_theorem.cc",D+"wick_theorem_elementary_contractions.cc",D+"wick_theorem_composite_contractions.cc",D+"wick_theorem_process_contractions.cc",D+"wick_theorem_canonicalize_graph.cc",D+"wick_theorem_helpers.cc",D+"contraction.cc",D+"graph_matrix.cc"]
p("C01","Single-reference contraction is exact","For any product of fermionic operators over occupied and unoccupied spaces, contracting it yields an expression that denotes the same operator as the product: every coefficient of every normal-ordered string of a rank inside the requested window equals the one obtained by multiplying the operators in Fock space, including signs, combinatorial prefactors and the overall factor.",["inputs"],"every list of operators (any number of creation and annihilation legs in any occupied or unoccupied spaces, repeated operators, odd operators), every prefactor and rank window, and antisymmetric tensors of any value and any dimension of the spaces","The tests compare printed results for a few dozen textbook products; prefactors and signs depend on the multiset of contractions, on repeated operators and on the ordering of spaces, which no list of examples covers (a wrong 1/m! for three identical contractions went unnoticed).",WT+[A+"expression.cc",A+"symbolic_term.cc"],[("enumeration of elementary contractions",D+"wick_theorem_elementary_contractions.cc"),("backtracking over composite contractions",D+"wick_theorem_composite_contractions.cc"),("sign and combinatorial factor of a contraction",D+"wick_theorem_process_contractions.cc"),("merging of equivalent graphs",D+"wick_theorem_canonicalize_graph.cc")],["WickTheorem.contract"])
p("C02","Generalized (multireference) contraction is exact","For products that also involve general spaces, the contraction, with one-body density and hole density matrices and cumulants of any rank, denotes the same operator as the product: it agrees with the generalized normal ordering (Mukherjee-Kutzelnigg) of the product with respect to any state whose cumulants are the ones that appear in the result.",["inputs"],"every product of fermionic operators over occupied, unoccupied and general spaces, every rank window and cumulant cutoff, every set of cumulants and tensors","Tests cover a few one- and two-body products in one active space; higher cumulants, several general spaces, mixed spaces and repeated operators give thousands of distinct contraction patterns.",WT,[("elementary contractions of general spaces (gamma1, eta1, lambda_n)",D+"wick_theorem_elementary_contractions.cc"),("factor and sign of cumulant contractions",D+"wick_theorem_process_contractions.cc")],["WickTheorem.contract"])
p("C03","Rank window and cumulant cutoff are exact filters; contraction is linear","A contraction restricted to a rank window or to a maximum cumulant rank returns exactly those terms of the unrestricted result that have an admissible number of operators and only admissible cumulants, with unchanged coefficients. Contraction is linear: sums, differences and rational multiples of operator expressions, and the prefactor, carry over to the result, and a product with an empty expression contracts to nothing.",["inputs","configurations"],"all operator expressions, rank windows (including empty and negative bounds), cumulant cutoffs of at least 1, factors","Tests use a handful of windows, mostly the fully contracted one; pruning inside the search is only visible for particular combinations of leg counts and limits.",WT,[("pruning by number of uncontracted legs",D+"wick_theorem_composite_contractions.cc"),("cumulant cutoff",D+"wick_theorem_elementary_contractions.cc"),("linear extension to sums",D+"wick_theorem.cc")],["WickTheorem.contract","WickTheorem.set_max_cumulant"])
p("C04","Contraction results do not depend on threads, printing, history or graph merging","The result of a contraction is the same, term by term, in single- and multithreaded mode, at every print level and on a fresh or long-used object, whatever was contracted or configured before; with graph canonicalization on or off it denotes the same operator. Multithreaded contraction has no data races.",["schedules","configurations","histories"],"all interleavings of the contraction threads, all settings of the object and all sequences of earlier calls","Each test runs one contraction with default settings on a fresh object; a race or leftover state shows only under particular schedules or call sequences.",WT+[H+"timer.hpp"],[("per-contraction threads and the merge of their results",D+"wick_theorem_process_contractions.cc"),("state cleared between contractions",D+"wick_theorem.cc"),("graph canonicalization",D+"wick_theorem_canonicalize_graph.cc")],["WickTheorem.contract","WickTheorem.set_single_threaded","WickTheorem.set_print","WickTheorem.do_canonicalize_graph"],[("WickTheorem members","settings, contraction tables and timers that survive between calls",D+"wick_theorem.h")])
p("C05","Operator expressions form the free algebra over the rationals","Sums, differences, rational multiples, products, commutators, adjoints, in-place additions and BCH series of operator expressions, in any sequence and with any aliasing of their arguments, give exactly the formal linear combination of operator products that the algebra prescribes: coefficients are exact, equal products are merged, products with coefficient zero disappear, arguments are not changed, and equality is equality of these combinations.",["histories","inputs"],"all programs of such operations on any operator expressions","Tests check a few fixed sums and one or two commutators; aliasing, cancellation and nesting need sequences of operations.",[D+"operator_expression.cc",D+"operator_expression.h",D+"operator_product.cc",D+"operator.cc",H+"algebra.hpp",W+"operator_api.cc"],[("map from products to coefficients with removal of zeros",H+"algebra.hpp"),("commutator and BCH",D+"operator_expression.cc"),("ordering and equality of operators",D+"operator.cc")],["OperatorExpression","op","commutator","bch_series"])
p("C06","Canonicalizing an operator expression preserves the operator","Canonicalizing a sum of operator products changes neither the operator it denotes nor, applied again, the expression; orderings of mutually commuting operators are brought to one common form, so their sum merges.",["inputs"],"all sums of products of fermionic operators, commuting or not, with even or odd numbers of legs","Tests canonicalize three or four products; the sign of exchanging odd operators and the non-commuting barriers depend on the whole product.",[D+"operator_product.cc",D+"operator_expression.cc",D+"operator.cc"],[("reordering of commuting operators with sign",D+"operator_product.cc"),("when two operators commute",D+"operator.cc")],["OperatorExpression.canonicalize"])
p("C07","Similarity transformations evaluate to the exact nested commutators","Building a Baker-Campbell-Hausdorff series or nested commutators of operators and contracting them gives the normal-ordered components of the truncated series of commutators with their 1/k! factors, exactly, for single- and multireference spaces and anti-Hermitian or plain generators.",["inputs"],"all number-conserving operators, truncation orders and rank windows","Tests compare two coupled-cluster residuals; products of several equal generators with contractions to one operator are where prefactors go wrong.",[D+"operator_expression.cc"]+WT,[("bch_series",D+"operator_expression.cc"),("contraction engine",D+"wick_theorem.cc")],["bch_series","commutator","WickTheorem.contract"])
p("C08","Expressions form an algebra of formal sums over the rationals","Adding, subtracting, negating, scaling, multiplying, taking adjoints, dot products and norms of expressions, in any order and with aliased arguments, gives exactly the formal sum with exact coefficients: equal terms (same tensors, operators and normal-order mark) merge, different terms never do, terms with coefficient zero vanish, arguments stay unchanged, and equality, length and iteration reflect this sum.",["histories","inputs"],"all programs of these operations on all expressions of tensors, fermionic and bosonic operators","Tests add a few terms; merging, cancellation to zero and mixed normal-order marks need combinations of operations.",[A+"expression.cc",A+"expression.h",A+"symbolic_term.cc",A+"term.cc",A+"tensor.cc",A+"sqoperator.cc",H+"algebra.hpp",H+"product.hpp",W+"expression_api.cc"],[("comparison of terms",A+"symbolic_term.cc"),("accumulation with removal of zeros",H+"algebra.hpp"),("products and adjoints of terms",A+"symbolic_term.cc")],["Expression","SymbolicTerm","Term"])
p("C09","Canonicalizing an expression preserves its value and identifies renamed terms","Canonicalization leaves the value of an expression unchanged for every value of its (anti)symmetric tensors, including the signs of reordered tensor indices and operators, never merges an external index with a summed one, and is idempotent; terms that differ only by the names of dummy indices or by the order of distinctly labelled tensors get the same canonical form.",["inputs"],"all expressions with any number of tensors, indices (also beyond 64) and fermionic or bosonic operators","Tests check about twenty printed forms; correctness depends on the connectivity of the term, on index names and on the statistics of the operators.",[A+"symbolic_term.cc",A+"expression.cc",A+"tensor.cc",A+"index.cc",A+"sqoperator.cc",H+"combinatorics.cc"],[("scores, relabelling and sorting",A+"symbolic_term.cc"),("sign of sorted indices",A+"index.cc"),("sign of sorted operators",A+"sqoperator.cc")],["Expression.canonicalize"])
p("C10","Vacuum normal ordering preserves the operator","Rewriting plain products of creation and annihilation operators in vacuum normal order denotes the same operator on Fock space, for fermions, bosons and their mixtures, with general or with distinct labels (only same-index contractions), and every resulting string is in normal order, as the corresponding query confirms.",["inputs"],"all strings of fermionic and bosonic operators, with and without tensors, with repeated indices","Tests order strings of up to four operators; the recursion generates signs and delta tensors depending on the whole string.",[A+"expression_normal_order.cc",A+"symbolic_term_normal_order.cc",A+"sqoperator.cc",A+"expression.cc"],[("contractions and exchange signs",A+"symbolic_term_normal_order.cc"),("commutation factor by statistics",A+"sqoperator.cc")],["Expression.vacuum_normal_ordered","Expression.is_vacuum_normal_ordered"])
p("C11","Many-body equations are a lossless partition of an expression","Extracting many-body equations places every term of an expression in exactly one equation, with its coefficient, tensors and open indices, in the block named after its open indices; summing the blocks back with their operators gives the operator the expression denotes.",["inputs"],"all expressions whose operators are in standard order, in particular all results of contractions","Tests look at a few equations of coupled cluster; dropped terms, transposed open indices and wrong block names depend on the spaces and operator patterns.",[A+"expression.cc",A+"equation.cc",A+"tensor.cc",W+"equation_api.cc"],[("construction of left-hand sides and block names",A+"expression.cc"),("signature of a tensor",A+"tensor.cc")],["Expression.to_manybody_equation","Equation"])
p("C12","Generated code computes the equation","The statements emitted for an equation (einsum in both dialects, ambit), executed with arrays for its tensors, compute the equation: the right coefficient, each tensor addressed by its space block, a one-to-one renaming of indices and the result axes in the order of the left-hand side.",["inputs"],"all equations with up to 52 distinct indices, any index names, tensors and rational coefficients","Tests compare text for a few equations; index collisions depend on how many indices of which names occur.",[A+"equation.cc",A+"tensor.cc",A+"index.cc",A+"symbolic_term.cc",H+"rational.cc","wicked/utils.py"],[("unique index letters",A+"equation.cc"),("compile_einsum","wicked/utils.py"),("tensor and coefficient formats",A+"tensor.cc")],["Equation.compile","compile_einsum"])
p("C13","Printed text reads back as the same object, and text is read as written","Every expression, term, tensor, operator, index and rational is read back from its printed form as the same object, and legal text in any style (with or without underscores, blanks, signs, fractions, braces, bosonic operators) is read as exactly what it says; malformed indices, tensors, operators and numbers are rejected.",["inputs"],"all printable objects and all texts of the documented syntax","Tests read fifteen strings; the readers are regular expressions whose failures depend on combinations of labels, spacing, digits and operator kinds.",[A+"expression.cc",A+"tensor.cc",A+"index.cc",A+"sqoperator.cc",A+"symbolic_term.cc",A+"term.cc",H+"rational.cc",H+"helpers.cc","wicked/utils.py"],[("make_expression",A+"expression.cc"),("make_tensor_from_str",A+"tensor.cc"),("make_index_from_str",A+"index.cc"),("make_rational_from_str",H+"rational.cc")],["expression","string_to_expr","tensor","index","indices","cre","ann","make_rational","str"])
p("C14","LaTeX output denotes the same object","The LaTeX of an index, tensor, operator, term, rational or expression determines it: no coefficient, sign, tensor, operator, index or normal-order mark is lost, changed or reordered, for fermionic and bosonic operators and for indices with or without a name.",["inputs"],"all expressions, index name lists and coefficients","Tests compare a few strings; scalar terms, +-1 coefficients and bosons are special cases of the formatter.",[A+"symbolic_term.cc",A+"expression.cc",A+"term.cc",A+"tensor.cc",A+"sqoperator.cc",A+"index.cc",H+"rational.cc",H+"orbital_space.cc"],[("compact and explicit operator forms",A+"symbolic_term.cc"),("coefficient format",H+"rational.cc"),("index names",H+"orbital_space.cc")],["latex methods"])
p("C15","Rational arithmetic is exact","Rational numbers add, subtract, multiply, divide, compare, print and convert exactly for operands far beyond machine integers; every value is kept in lowest terms with a positive denominator, and a zero denominator or a division by zero is rejected.",["inputs","histories"],"all rationals whose numerators and denominators stay below 1024 bits, all programs of operations on them","Tests use two or three small fractions; signs of denominators, overflow and reduction need large and negative operands.",[H+"rational.cc",H+"rational.h",W+"rational_api.cc"],[("reduction and sign normalization",H+"rational.cc"),("1024-bit integers",H+"rational.h")],["rational","make_rational"])
p("C16","The orbital-space registry is consistent under any call history","After any sequence of accepted and rejected additions and resets of orbital spaces, the registry reports exactly the accepted spaces in order, with their labels, statistics, types and index names; a rejected call (duplicate label or index name, unknown statistics, type or elementary space) changes nothing, and indices, operators and readers resolve labels accordingly.",["histories"],"all sequences of additions with valid and invalid arguments and resets","Tests add spaces once per test; what a rejected call leaves behind shows only in later calls.",[H+"orbital_space.cc",H+"orbital_space.h",W+"orbital_space_api.cc"],[("validation before insertion",H+"orbital_space.cc")],["add_space","reset_space","osi","num_spaces"],[("space_info_, label_to_pos_, indices_to_pos_","three views of the registry that must agree",H+"orbital_space.h")])
p("C17","Any call either returns or raises; memory is never misused","Whatever the arguments (arbitrary text, unknown or out-of-range spaces and positions, many indices or spaces, extreme counts, stale objects after a reset), every call of the Python interface returns or raises an ordinary exception: no crash, no out-of-bounds or uninitialized access, no undefined arithmetic, no hang; and a rejected call leaves the orbital spaces unchanged.",["inputs","histories"],"all sequences of calls with any arguments (texts up to a few hundred characters)","Tests pass well-formed arguments and run without sanitizers, so silent out-of-bounds accesses go unnoticed.",[A+"expression.cc",A+"tensor.cc",A+"index.cc",A+"symbolic_term.cc",A+"equation.cc",D+"graph_matrix.cc",D+"operator_expression.cc",H+"orbital_space.cc",H+"rational.cc",H+"helpers.cc",H+"combinatorics.cc"],[("validation of spaces",H+"orbital_space.cc"),("fixed-size graph matrices",D+"graph_matrix.h"),("text readers",A+"expression.cc")],["the whole Python module"])
p("C18","Operator builders produce exactly the operators their arguments name","Building operators from components counts the creation and annihilation legs of each named space whatever their order, spacing or spelling, adds repeated components (or keeps one if unique ones are requested), carries the exact symmetry factor, rejects unknown spaces, and the generated general operator of a rank contains each combination of spaces once (without those with equal creation and annihilation spaces if diagonal components are excluded), so that it equals the full antisymmetric many-body operator over the union of its spaces; symbolic operator expressions carry the matching tensor, operators, normal-order mark, symmetry and coefficient.",["inputs"],"all labels, component lists, ranks, space lists and options, with any number of legs","Tests build a few operators with at most three legs per space and the default options.",[D+"operator_expression.cc",D+"operator.cc",A+"expression.cc","wicked/utils.py",H+"combinatorics.cc",W+"operator_api.cc"],[("make_diag_operator_expression",D+"operator_expression.cc"),("gen_op","wicked/utils.py"),("make_operator_expr",A+"expression.cc"),("Operator::factor",D+"operator.cc")],["op","gen_op","operator_expr","diag_operator","Operator"])
p("C19","Orders, sorting signs and partitions are exact","Sorting indices returns them in order together with the parity of the sorting permutation (so the sign is antisymmetric under exchange), the order of indices and the two orders of operators (creators first; quasiparticle creators first) are strict total orders equal to their documented keys, and the partitions of an integer with at most a given number of parts are enumerated completely and without repetition.",["inputs"],"all index lists, operators, space types and partition problems","Tests check three partitions and a few sorts.",[H+"combinatorics.cc",A+"index.cc",A+"sqoperator.cc"],[("permutation_sign, integer_partitions",H+"combinatorics.cc"),("canonicalize_indices",A+"index.cc"),("operator<, normal_ordered_less",A+"sqoperator.cc")],["canonicalize_indices","SQOperator","integer_partitions"])
p("C20","Contraction merges equivalent terms","With graph canonicalization (the default) a contraction contains every diagram once: no two terms of the result, for a product or for a sum of products of the same operators in different orders, differ only in the names of their indices, the order of their tensors or the order of antisymmetric indices. Exchanging neighbouring operators that have no contractible legs in common gives the identical expression, apart from the sign of exchanging odd operators.",["inputs"],"all products of operators over any spaces (equal operators with an even number of legs included), all orders of the factors, rank windows, cumulant cutoffs, single- and multithreaded","Tests print the results of some products in one order; whether two graphs get one form depends on the symmetry of the graph, equal operators and which pairs commute.",[D+"wick_theorem_canonicalize_graph.cc",D+"wick_theorem_process_contractions.cc",D+"contraction.cc",D+"graph_matrix.cc",D+"operator.cc",A+"symbolic_term.cc"],[("choice of the smallest graph over allowed orders",D+"wick_theorem_canonicalize_graph.cc"),("canonical form of terms",A+"symbolic_term.cc")],["WickTheorem.contract"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    import os
    for f in x["anchors"]["files"]: assert os.path.exists('/repo/'+f),f
    n=x["statement"].count('. ')+1
    assert n<=3,x["id"]
notes={}
M=dict(version=1,setup_cmd="python3-vt -m vf.build std asan tsan",
 checks=[],not_applicable=[],notes="Checks build their own copy of the module from /repo/wicked (std, ASan+UBSan, TSan variants) under .build and drive it through its Python interface. VF_SCALE scales the number of cases.")
techs={"C01":"differential against a Fock-space matrix model","C02":"differential against a Fock-space matrix model with cumulant states","C03":"metamorphic relations (filter and linearity)","C04":"metamorphic over settings and histories, ThreadSanitizer on generated runs","C05":"stateful model-based, free-algebra model","C06":"differential in Fock space, metamorphic orderings","C07":"differential against nested commutators of matrices","C08":"stateful model-based, dictionary model","C09":"differential on random tensor values, metamorphic renamings","C10":"differential on Fock space of fermions and bosons","C11":"round trip and differential in Fock space","C12":"differential: generated code is executed","C13":"round trip and grammar-based reference reader","C14":"round trip through an independent LaTeX reader","C15":"stateful model-based against exact fractions","C16":"stateful model-based with rejected calls","C17":"random API histories under ASan and UBSan","C18":"model-based and differential in Fock space","C19":"differential against independent reference algorithms","C20":"invariant by exhaustive isomorphism test, metamorphic orders"}
for x in P:
    c=x["id"]
    import importlib,sys
    sys.path.insert(0,'/verif')
    m=importlib.import_module('vf.checks.'+c.lower())
    M["checks"].append(dict(property=c,quick_cmd="python3-vt check.py %s quick"%c,thorough_cmd="python3-vt check.py %s thorough"%c,evidence_file="evidence/%s.json"%c,technique="property-based testing (Hypothesis): "+techs[c],level="exploration",
      level_note="Searches generated cases with shrinking ("+", ".join("%s: %d quick, %d thorough"%(k["name"],k["n"]["quick"],k["n"]["thorough"]) for k in m.CAMPAIGNS)+"); no claim beyond what was generated. Assumes: "+"; ".join(m.ASSUMPTIONS)+"."))
s=json.load(open('/root/.vp/MANIFEST.schema.json'))
jsonschema.validate(M,s)
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
