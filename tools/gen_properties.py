#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
I = "include/libcommute/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=[I + f for f in files],
                               state=[dict(name=a, meaning=b, where=I + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=I + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Comparisons of generators, products and spaces form one strict total order",
  "For any two algebra generators (fermionic, bosonic, spin of any length), any two products of generators and any two elementary spaces built over the same index types, exactly one of 'less', 'greater' and 'equal' holds, 'a greater than b' means 'b less than a', '!=' is the negation of '==', and 'less' is transitive. "
  "Two generators are equal exactly when algebra, indices and every attribute that selects the operator (creation/annihilation; spin length and component) coincide; two elementary spaces are equal exactly when algebra, indices and, for spins, the spin length coincide. "
  "Generators of different algebras are ordered by algebra ID, creation operators precede annihilation operators, creation operators are ordered by increasing and annihilation operators by decreasing indices, spins are ordered by length, then indices, then component (+, -, z), and a shorter product precedes a longer one.",
  ["inputs"], "all pairs and triples of generators, monomials and elementary spaces over totally ordered index types",
  "tests compare a handful of literal indices; totality and transitivity quantify over all pairs/triples of indices, spin lengths and algebra mixes, and std::map silently corrupts if they fail",
  ["expression/generator.hpp", "expression/generator_fermion.hpp", "expression/generator_boson.hpp", "expression/generator_spin.hpp", "expression/monomial.hpp", "loperator/elementary_space.hpp", "loperator/elementary_space_spin.hpp"],
  [("operator== / != / < / > and virtual equal/less/greater", "expression/generator.hpp"), ("monomial comparisons", "expression/monomial.hpp"), ("elementary_space comparisons", "loperator/elementary_space.hpp")])

p("C02", "Pairwise rewriting rules of generators state true algebra identities",
  "Whenever the library rewrites a product of two generators that is out of order, a product of two generators that is in order, or a power of one generator, the replacement it reports is equal to the original product in the algebra concerned: canonical anticommutation relations for fermions, canonical commutation relations for bosons, su(2) relations (with S+-, Sz and, for spin 1/2, the product identities) for spins; different algebras, different indices and different spin lengths only (anti)commute. "
  "Squares of fermionic operators, products of two spin-1/2 operators of one site and powers of spin ladder operators beyond twice the spin are always reported as reducible. The reported Hermitian conjugate of a generator is its adjoint, and taking it twice gives back the original generator.",
  ["inputs"], "every ordered pair of generators: any indices, creation/annihilation flags, components and spin lengths, and every power",
  "unit tests multiply selected expressions; each table entry must be right for all index coincidences, spin lengths and powers",
  ["expression/generator.hpp", "expression/generator_fermion.hpp", "expression/generator_boson.hpp", "expression/generator_spin.hpp"],
  [("swap_with, simplify_prod, reduce_power, conj", "expression/generator_spin.hpp"), ("cross-algebra dispatch", "expression/generator.hpp")])

p("C03", "Bringing a product into canonical order preserves the operator it stands for",
  "For every product of generators with any coefficient, and for every product of expressions, the sum of terms the library stores is the same operator as the product that was written down, given that the pairwise rules reported by the generators are true: no contribution of an exchange, of a replaced neighbouring pair or of a replaced power (constant term, linear terms, exchanged product) is lost, duplicated, scaled wrongly or put at a different position of the product, equal products coming from different steps are summed, and coefficients are multiplied in the written order of the factors. This holds for fermions, bosons, spins of any length, mixtures of them and user-defined algebras with arbitrary exchange coefficients.",
  ["inputs"], "all products of any length, all positions within the product, all generator types including user-defined ones with constant, linear and vanishing replacements",
  "tests use short products of built-in algebras; positions, powers above two and mixed constant/linear replacements are barely sampled",
  ["expression/expression.hpp", "expression/monomial.hpp"],
  [("normalize_and_store / reduce_powers_and_store / store_monomial", "expression/expression.hpp"), ("concatenate", "expression/monomial.hpp")])

p("C04", "Addition, subtraction, negation and scaling act coefficient by coefficient",
  "For every pair of expressions and every scalar, whatever their scalar types, the coefficient of each product of generators in a + b, a - b, a += b, a -= b, -a, s*a, a*s, a *= s, a + s, s + a, a - s, s - a, a += s, a -= s is the sum, difference, negation or (in the written operand order) product of the operands' coefficients, where a scalar contributes to the constant term only and an absent term counts as zero. "
  "The compound forms, the binary forms with equal and with different scalar types give the same coefficients, and no term is lost or invented.",
  ["inputs"], "all pairs of expressions/scalars of any compatible scalar types, with terms present in the left, the right or both operands",
  "there are about 20 separately written overloads selected by scalar type; tests touch each with one or two literal expressions",
  ["expression/expression.hpp", "scalar_traits.hpp"],
  [("add_impl, sub_impl, *_const_*_impl, operator+=, -=, *=", "expression/expression.hpp"), ("add_assign/sub_assign/mul_assign", "scalar_traits.hpp")])

p("C05", "No expression keeps a term whose coefficient counts as zero",
  "After any construction from scalars or monomials, conversion to another scalar type, addition, subtraction, scaling, multiplication or Hermitian conjugation of expressions that contain no zero terms, the result contains no term whose coefficient is zero according to the zero test of its own scalar type. "
  "Hence two expressions that differ only by zero terms compare equal and have the same number of terms.",
  ["inputs"], "all operands and scalars, including coefficients that cancel, underflow, or become zero only after conversion",
  "zero results arise at particular values in any of the ~25 code paths that write coefficients; tests exercise a few cancellations with doubles",
  ["expression/expression.hpp"],
  [("is_zero checks before/after storing coefficients", "expression/expression.hpp")])

p("C06", "Compound assignment is safe when its operand is the target or part of it",
  "For an expression e, the statements e += e, e -= e, e *= e, and e += c, e -= c, e *= c with c a reference to one of e's own coefficients, neither use freed memory nor read an operand after the statement itself has changed it; they have the same effect as applying the operation to a copy of the operand.",
  ["inputs"], "all expressions and all choices of an aliasing operand",
  "the tests never pass an aliasing operand, and the outcome depends on which term is erased or modified first",
  ["expression/expression.hpp"],
  [("operator+=, operator-=, operator*=", "expression/expression.hpp")])

p("C07", "Hermitian conjugation conjugates coefficients and reverses every product",
  "conj(e) is, for every expression e, the sum over e's terms of the complex-conjugated coefficient times the product of the conjugated generators in reversed order; every generator of the term occurs exactly once and no term contributes more or less than once.",
  ["inputs"], "all expressions, coefficients and generator types (including ones whose conjugate is a linear function)",
  "tests conjugate a few fixed expressions",
  ["expression/expression.hpp", "expression/hc.hpp"],
  [("conj()", "expression/expression.hpp")])

p("C08", "Factory functions build the operators they are named after",
  "c, c_dag, n, a, a_dag, S_p, S_m, S_z, S_x, S_y (spin 1/2 and arbitrary spin, real and complex scalars) called with any indices return exactly the operator of that name on exactly those indices: n = c_dag c, S_x = (S_p + S_m)/2, S_y = (S_p - S_m)/(2i), with unit coefficients otherwise. "
  "The variants with statically typed and with dynamic index sequences, and the make_fermion/make_boson/make_spin helpers, agree with each other.",
  ["inputs"], "all index sequences, spin lengths and scalar types",
  "tests use a few literal index lists per function",
  ["expression/factories.hpp", "expression/factories_dyn.hpp", "expression/generator_fermion.hpp", "expression/generator_boson.hpp", "expression/generator_spin.hpp"],
  [("factory functions", "expression/factories.hpp"), ("dynamic-index factory functions", "expression/factories_dyn.hpp")])

p("C09", "Constants convert to a coefficient type exactly or are refused",
  "Converting an integer, rational or real constant into a coefficient type (built-in integers, floating point, complex, rational and multi-precision types) (a finite number within the range of the target) yields the same number, up to double-precision floating-point rounding, or throws when the type cannot represent that kind of constant; it never silently truncates or yields a different value. "
  "A constant is only ever interpreted according to the kind it was created with, and equality, zero test and printing treat every kind.",
  ["inputs"], "all constants of every kind and every supported coefficient type",
  "tests convert a few literals per type",
  ["utility.hpp", "scalar_traits.hpp", "scalars/gmpxx.hpp", "scalars/boost_rational.hpp"],
  [("var_number", "utility.hpp"), ("scalar_traits<S>::make_const", "scalar_traits.hpp")])

p("C10", "Every elementary space owns its own contiguous block of index bits",
  "In every Hilbert space, however it was constructed or extended, the elementary spaces occupy consecutive, non-overlapping bit ranges in their sort order starting at bit 0, each as wide as the space requires; total bit count, dimension (product of the spaces' dimensions), per-algebra ranges (smallest range containing all spaces of that algebra) and the enumeration of states are recomputed from the full set of spaces after each change. "
  "An elementary space already present is refused, as is a total of more bits than a state index can hold, and a refused extension leaves the Hilbert space as it was.",
  ["inputs", "histories"], "all sets of elementary spaces and all sequences of add() calls, including refused ones",
  "tests build a few spaces; sequences of additions in arbitrary sort positions and refused additions are not enumerated",
  ["loperator/hilbert_space.hpp"],
  [("recompute_bit_ranges, init_foreach_alg, add, constructors", "loperator/hilbert_space.hpp")],
  state=[("elementary_spaces_/algebra_bit_ranges_/bit_range_end_/dim_/foreach_alg_", "layout of the product space", "loperator/hilbert_space.hpp")])

p("C11", "Copying or moving an object yields a complete, independent object",
  "A copy (by construction or assignment) of any library object with value semantics carries over all of the source's state, replaces all of the target's previous state, and keeps working when the source is modified, moved or destroyed; moving an object does not leave the new object referring to parts of the old one. "
  "Virtual copies of elementary spaces have the same type and contents as the original.",
  ["histories"], "all objects, and all later uses of copy and original",
  "tests copy a few objects and compare only the fields that operator== looks at",
  ["loperator/hilbert_space.hpp", "loperator/n_fermion_sector_view.hpp", "loperator/elementary_space_fermion.hpp", "loperator/elementary_space_boson.hpp", "loperator/elementary_space_spin.hpp", "expression/expression.hpp", "expression/monomial.hpp"],
  [("user-written copy operations of hilbert_space", "loperator/hilbert_space.hpp"), ("members referring to sibling members", "loperator/n_fermion_sector_view.hpp"), ("clone()", "loperator/elementary_space.hpp")])

p("C12", "State indices are handled at full 64-bit width everywhere",
  "No computation of basis-state indices, bit masks, sector or Hilbert space sizes, strides, ranks or offsets passes through a type narrower than 64 bits or through a shift performed in a narrower type, so results are right for modes at bit positions 31 and above and for sizes above 2^31 as for small ones.",
  ["inputs"], "all Hilbert spaces up to the maximal number of bits, all modes and sectors",
  "tests stay far below 2^31 states because storing larger vectors is impractical",
  ["loperator/bit_ops.hpp", "loperator/hilbert_space.hpp", "loperator/n_fermion_sector_view.hpp", "loperator/monomial_action_fermion.hpp", "loperator/monomial_action_boson.hpp", "loperator/monomial_action_spin.hpp", "loperator/compressed_state_view.hpp", "loperator/mapped_basis_view.hpp", "loperator/sparse_state_vector.hpp", "loperator/space_partition.hpp"],
  [("sv_index_type arithmetic", "loperator/state_vector.hpp")])

p("C13", "Read-only operations have no hidden state",
  "Operations on constant objects (iterating over basis states or views, applying an operator, reading elements, querying spaces and partitions) neither modify the object nor any state shared between calls, so the same object can be used from several threads, and an operation can be started while another one on the same object is still in progress (for example nested iteration), with the same results as in isolation. The unranking generators, which are iteration cursors by design, are excepted.",
  ["schedules", "histories"], "all interleavings and nestings of const operations on shared objects",
  "the tests are single-threaded and never nest iterations over one object",
  ["loperator/hilbert_space.hpp", "loperator/n_fermion_sector_view.hpp", "loperator/disjoint_sets.hpp", "loperator/compressed_state_view.hpp", "loperator/loperator.hpp", "loperator/space_partition.hpp"],
  [("const member functions", "loperator/hilbert_space.hpp"), ("unranking generators", "loperator/n_fermion_sector_view.hpp")])

p("C14", "A product acting on a basis state changes only its own modes, within range",
  "Acting with a product of fermionic, bosonic or spin operators on a basis state yields zero exactly when a fermionic mode to be emptied (filled) is empty (already filled), or the occupation number or spin projection would leave its range (or an S_z eigenvalue is zero); otherwise the resulting basis state differs from the initial one exactly by the requested change of the modes named in the product, and all other bits are untouched. "
  "The accompanying factor is the exact product of the standard matrix elements for bosonic and spin operators, and the fermionic sign is that of moving each operator, one after another, past the occupied fermionic modes that precede its own mode in the Hilbert space, whatever other modes there are.",
  ["inputs"], "all basis states, powers, mode positions and cut-off dimensions",
  "tests enumerate small Hilbert spaces only",
  ["loperator/monomial_action_fermion.hpp", "loperator/monomial_action_boson.hpp", "loperator/monomial_action_spin.hpp", "loperator/monomial_action.hpp"],
  [("act()", "loperator/monomial_action_boson.hpp")])

p("C15", "All ways of applying an operator compute the same linear map",
  "Every form of applying an operator (returning a new vector, writing into a given vector, operator*, with and without parameters, after fixing parameters, storing evaluated coefficients) first clears the destination and then adds, for every non-zero source amplitude and every term, amplitude times term coefficient times the term's matrix element at the term's image state; each term starts from the unmodified source state with unit factor. "
  "With parameters, each coefficient functor is called once per application and every functor receives the same argument values.",
  ["inputs"], "all operators, state vectors, StateVector types and coefficient arguments (including arguments that can be moved from)",
  "tests use one or two argument types (double) and freshly zeroed destinations",
  ["loperator/loperator.hpp"],
  [("act_impl, operator(), operator*, at, act_and_store_coeffs", "loperator/loperator.hpp")])

p("C16", "All state vector types implement the same element interface",
  "For std::vector, Eigen vectors, blocks and maps, sparse vectors and every view: reading element n gives the stored amplitude (zero if absent), update_add_element(n, x) adds x to exactly that amplitude, set_zeros clears all amplitudes, zeros_like gives an all-zero vector of the same size, and foreach visits every index whose amplitude is non-zero exactly once, with its own index and amplitude, and skips zero amplitudes. A sparse vector stores non-zero amplitudes only (unless zeros are assigned through operator[], which the documentation excludes; prune() removes those).",
  ["inputs"], "all vector types, sizes, indices and amplitudes",
  "tests check one small vector per type",
  ["loperator/state_vector.hpp", "loperator/state_vector_eigen3.hpp", "loperator/sparse_state_vector.hpp", "loperator/mapped_basis_view.hpp", "loperator/compressed_state_view.hpp", "loperator/n_fermion_sector_view.hpp"],
  [("get_element, update_add_element, set_zeros, zeros_like, foreach", "loperator/state_vector.hpp")])

p("C17", "Views translate every index and constant views are read-only",
  "Each access through a basis view reaches the underlying vector at the view's translation of the given index, the same translation for reading and for updating; an index a mapped basis does not contain raises an exception instead of touching another element. "
  "Views made from a vector refer to it or own it as documented, and updating or clearing through a view of a constant vector, or creating a zero vector like a view, does not compile.",
  ["inputs", "programs"], "all view types, all indices, and all programs that try to modify through constant views",
  "rejection of a program cannot be tested by a test that must compile; index agreement is sampled",
  ["loperator/mapped_basis_view.hpp", "loperator/compressed_state_view.hpp", "loperator/n_fermion_sector_view.hpp"],
  [("update_add_element/set_zeros overloads for const views", "loperator/mapped_basis_view.hpp")])

p("C18", "Impossible requests are refused with an exception, possible ones are not",
  "Sector functions and views refuse sparse Hilbert spaces, sectors with more particles than modes (where a size function reports zero instead), sectors that overlap and sectors naming modes that are not in the space; operators refuse generators of unsupported algebras or of spaces not in the Hilbert space; lookups of absent spaces, algebras, subspaces and basis states, adding a space a second time, and automatic space construction for unsupported algebras are refused. "
  "The refusal happens for every such input, before any result is produced, through every entry point.",
  ["inputs"], "all inputs violating the documented preconditions, through each entry point",
  "tests provoke one instance of each error for some of the entry points",
  ["loperator/n_fermion_sector_view.hpp", "loperator/monomial_action.hpp", "loperator/monomial_action_fermion.hpp", "loperator/monomial_action_boson.hpp", "loperator/monomial_action_spin.hpp", "loperator/hilbert_space.hpp", "loperator/es_constructor.hpp", "loperator/space_partition.hpp"],
  [("throw sites guarding the entry points", "loperator/n_fermion_sector_view.hpp")])

p("C19", "A space partition joins every pair of states the operator couples",
  "When a partition is built from an operator, every basis state of the Hilbert space is used as a probe with unit amplitude and nothing else, and for every probe each state with a non-zero image amplitude is put into the probe's subspace; matrix elements, when requested, are recorded under (image, probe) with the image amplitude by every function that records them, and connections under (probe subspace, image subspace). "
  "States not connected by such couplings are not joined by construction. The subspace numbers, counts, lists of basis states and enumeration all describe that same partition.",
  ["inputs"], "all operators and Hilbert spaces",
  "tests partition two model Hamiltonians",
  ["loperator/space_partition.hpp", "loperator/disjoint_sets.hpp"],
  [("space_partition constructors, merge_subspaces, find_connections", "loperator/space_partition.hpp")])

p("C20", "The type system enforces scalar result types and immutability",
  "The scalar type of the result of every arithmetic operation on expressions and scalars (binary and unary operators, scalar operands on either side) is the type C++ gives to the same operation on the scalars, compound assignments return the expression they modify, conj() keeps the scalar type, transform() and the factories give the requested one; operations the scalars do not have are rejected at compile time. "
  "Generators and elementary spaces cannot be assigned, swapped or modified after construction, neither directly nor through the products and expressions that hold them. Lists of algebra IDs that are not strictly increasing are rejected at compile time wherever they are accepted otherwise, and so are scalar conversions that do not exist, while every conversion that exists, be it only explicitly, can be used to construct or assign an expression.",
  ["programs"], "all programs using the library with any combination of scalar types",
  "a test must compile, so it cannot show that wrong programs are rejected; result types are sampled",
  ["expression/expression.hpp", "scalar_traits.hpp", "expression/generator.hpp", "loperator/elementary_space.hpp", "algebra_ids.hpp"],
  [("sum_res_t/diff_res_t/mul_res_t/uminus_res_t", "scalar_traits.hpp"), ("deleted assignment, const members", "expression/generator.hpp")])

p("C21", "Spaces deduced from an expression match its generators",
  "A Hilbert space built from an expression contains, for every generator of every term, the elementary space of that generator's algebra with the generator's own indices (and spin length; for bosons the requested dimension), and nothing else; each space's dimension fits its bit count.",
  ["inputs"], "all expressions and all requested bosonic dimensions",
  "tests build spaces from three or four expressions",
  ["loperator/es_constructor.hpp", "loperator/hilbert_space.hpp", "loperator/elementary_space_fermion.hpp", "loperator/elementary_space_boson.hpp", "loperator/elementary_space_spin.hpp"],
  [("es_constructor::operator()", "loperator/es_constructor.hpp")])

# --- properties static analysis cannot decide here ---
p("C22", "Ranking and unranking of fermionic sectors are mutually inverse bijections",
  "For every number of modes and particles, each ranking algorithm maps the basis states of an N-fermion (multi)sector one-to-one onto 0..size-1, and enumeration visits the states in the order of their ranks.",
  ["inputs"], "all M, N, chunk sizes and sector layouts", "tests enumerate small M",
  ["loperator/n_fermion_sector_view.hpp"], [("combination_ranking, staggered_ranking, trie_ranking, unranking_generator", "loperator/n_fermion_sector_view.hpp")])
p("C23", "Products are stored in canonical form, however they are bracketed",
  "Every product of generators stored in an expression is sorted in the generator order and contains nothing the rules of its algebra remove (squares of fermionic operators, two spin-1/2 operators of the same site, vanishing powers of spin ladder operators), the ordering procedure ends on every product, and for fermions, bosons and spin-1/2 multiplying several factors gives the same stored terms in whichever order the multiplications are bracketed.",
  ["inputs"], "all products", "tests multiply short products",
  ["expression/expression.hpp"], [("bubble sort in normalize_and_store", "expression/expression.hpp")])
p("C24", "Merged subspaces are connected one-to-one by the given operators",
  "After merging, each of the two given operators connects any subspace to at most one subspace. No subspaces are merged beyond what that requires.",
  ["inputs"], "all operator pairs", "tests merge two models",
  ["loperator/space_partition.hpp"], [("merge_subspaces", "loperator/space_partition.hpp")])
p("C25", "A compressed view gives every valid basis state one element of its own",
  "For every Hilbert space the compressed view translates valid basis states to elements 0, ..., dim-1 of the underlying vector one to one: reading or updating the amplitude of a state reads or updates exactly one element, distinct states have distinct elements, none is left over, also for spaces whose states need more than 32 bits. Iterating over the view hands out exactly the non-zero elements, each once and with the state it belongs to under the same translation, wherever the zero amplitudes are.",
  ["inputs"], "all Hilbert spaces, states and patterns of zero amplitudes", "tests use a few small spaces",
  ["loperator/compressed_state_view.hpp", "loperator/hilbert_space.hpp", "loperator/bit_ops.hpp"], [("map_index, init, foreach", "loperator/compressed_state_view.hpp"), ("sparse_foreach_basis_state", "loperator/hilbert_space.hpp"), ("extract_bits", "loperator/bit_ops.hpp")])
p("C26", "Iterating over a Hilbert space visits every basis state exactly once",
  "foreach over a Hilbert space calls the functor with every valid basis state exactly once in increasing order.",
  ["inputs"], "all Hilbert spaces", "tests use a few spaces",
  ["loperator/hilbert_space.hpp"], [("foreach, sparse_foreach_basis_state", "loperator/hilbert_space.hpp")])
p("C27", "Basis mappers contain exactly the contributing states, numbered from 0",
  "A basis mapper built from a list of distinct states maps each to its position in the list. Built from an operator O it contains exactly the basis states contributing to O|0>; built from operators O_1, ..., O_M and N it contains exactly those contributing to at least one of O_1^{n_1} ... O_M^{n_M}|0> (the last operator in the list acts first) with n_1 + ... + n_M = N, hence nothing if there are no operators and N > 0, and |0> if N = 0. States built from operators are numbered 0 to size - 1 without gaps or repetitions, and size(), map(), inverse_map() and copies describe the same mapping.",
  ["inputs"], "all operator lists, matrix elements and N", "tests use a few operator lists whose order does not matter",
  ["loperator/mapped_basis_view.hpp"], [("basis_mapper constructors", "loperator/mapped_basis_view.hpp")])
p("C28", "Zero tests tolerate rounding without discarding significant terms",
  "Coefficients are treated as zero only when they are indistinguishable from rounding noise of the computation that produced them.",
  ["inputs"], "all floating-point computations", "tolerance behaviour depends on magnitudes",
  ["scalar_traits.hpp"], [("scalar_traits<floating point>::is_zero", "scalar_traits.hpp")])
p("C29", "Products and expressions show exactly what they hold",
  "A product of generators holds exactly the sequence of generators it was built from, in whatever way it was built (from single generators in any mixture of value categories, from pointers, from a range, by concatenating any mixture of generators, products and ranges of products, by appending). Its size, emptiness test, subscripts, forward and reverse iteration, iterator arithmetic, distances, comparisons and dereferencing all describe that one sequence, exchanging two generators changes those two positions only, and it is reported as ordered exactly when no generator is greater than its successor. "
  "Iterating over an expression in either direction visits every stored term exactly once, in increasing order of products, each with its own coefficient; size() is the number of terms; clear() leaves none. transform(e, f) calls f exactly once for each stored term, with that term's product and coefficient, and stores the returned value under the same product unless it is zero.",
  ["inputs"], "all products and expressions, all positions, all iterator operations", "tests walk over a few literal products with the commonest iterator operations",
  ["expression/monomial.hpp", "expression/expression.hpp"],
  [("const_iterator, concatenate, append, swap_generators, is_ordered", "expression/monomial.hpp"), ("iteration, transform, clear", "expression/expression.hpp")])
p("C30", "Printed text names every term, coefficient, generator and index",
  "The text of a generator consists of its operator name (C+ / C for fermions, A+ / A for bosons, S followed by the spin length unless it is 1/2 - an integer or k/2 - and by +, - or z for spins, g^ID for other algebras) followed by its indices, in order and separated by commas, in parentheses; string indices appear verbatim and other indices as their own text; dynamic index sequences print the same way, an empty sequence as an empty list. "
  "The text of a product lists its generators from left to right, where every maximal run of n > 1 equal neighbours is printed once as [X]^n. The text of an expression lists every stored term exactly once in the order of iteration, joined by ' + ', each as its coefficient followed by '*' and the product, the constant term as the coefficient alone, and an expression without terms prints its scalar type's zero.",
  ["inputs"], "all generators, index types, products and expressions", "tests print a handful of literals",
  ["expression/generator.hpp", "expression/generator_fermion.hpp", "expression/generator_boson.hpp", "expression/generator_spin.hpp", "expression/monomial.hpp", "expression/expression.hpp", "expression/dyn_indices.hpp", "utility.hpp"],
  [("to_string", "expression/generator_spin.hpp"), ("operator<<", "expression/monomial.hpp"), ("operator<<", "expression/expression.hpp"), ("tuple_to_string", "utility.hpp"), ("to_string(dyn_indices)", "expression/dyn_indices.hpp")])
p("C31", "Exceptions raised by refused requests carry the object refused",
  "A repeated elementary space ends in elementary_space_exists, a lookup of an absent one in elementary_space_not_found, and the exception holds its own copy of a space equal to that one. A Hilbert space needing more than 63 bits ends in hilbert_space_too_big carrying (and stating in its message) the number of bits needed by the spaces present and the one being added, or by all spaces given to a constructor. "
  "An operator containing a generator which cannot act ends in unknown_generator, and automatic construction of a space for an unsupported generator in es_construction_failure; both point to a generator of the expression for which the request really is impossible - never to an acceptable one - and name it in their message.",
  ["inputs"], "all refused requests, all positions of the culprit", "tests check the type of a few exceptions and compare messages of single-generator cases",
  ["loperator/hilbert_space.hpp", "loperator/monomial_action.hpp", "loperator/monomial_action_fermion.hpp", "loperator/monomial_action_boson.hpp", "loperator/monomial_action_spin.hpp", "loperator/es_constructor.hpp"],
  [("exception classes", "loperator/hilbert_space.hpp"), ("unknown_generator", "loperator/monomial_action.hpp"), ("es_construction_failure", "loperator/es_constructor.hpp")])
p("C32", "Zero tests and conjugation of coefficient types mean what they say",
  "For every coefficient type the library supports, the zero test is true for zero and treats a number and its negative alike. For exact types (integers of every width, rationals, GMP numbers) and for the library's own constants it is false for every other number. For floating-point types it is true for magnitudes up to the machine epsilon of that type and false for magnitudes of a thousand machine epsilons and more (with the default tolerance); a complex number is zero exactly when its real part and its imaginary part both are, whatever their signs. Complex conjugation returns its argument for real types and changes the sign of the imaginary part, and nothing else, for complex types.",
  ["inputs"], "all numbers of all supported coefficient types", "tests evaluate a handful of literals",
  ["scalar_traits.hpp", "scalars/boost_rational.hpp", "scalars/gmpxx.hpp", "utility.hpp"],
  [("scalar_traits<>::is_zero, conj", "scalar_traits.hpp"), ("scalar_traits of boost::rational", "scalars/boost_rational.hpp"), ("scalar_traits of GMP numbers", "scalars/gmpxx.hpp"), ("var_number::is_zero", "utility.hpp")])
p("C33", "Sector views combine the sectors' ranks and the other bits one to one",
  "For every Hilbert space and every choice of disjoint sectors of fermionic modes an N-fermion sector view and an N-fermion multisector view, whatever the ranking algorithm, give every state of the (multi)sector one element of its own: each sector's own occupation pattern is ranked by its own ranking object, and the ranks and the bits outside of the sectors together number the elements 0, ..., size-1 without gaps or repetitions. Reading and updating touch exactly that element. Iteration over a view (wherever the zero amplitudes are) and the lists of basis states pair the same elements with the same states, and the reported sizes are the numbers of states.",
  ["inputs"], "all Hilbert spaces, sectors, states and patterns of zero amplitudes", "tests use a few small spaces with modes in fixed positions",
  ["loperator/n_fermion_sector_view.hpp", "loperator/bit_ops.hpp"], [("map_index, foreach, init_sector_strides, make_nonmultisector_mask", "loperator/n_fermion_sector_view.hpp"), ("multisector_unranking_generator", "loperator/n_fermion_sector_view.hpp"), ("extract_bits, deposit_bits", "loperator/bit_ops.hpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
