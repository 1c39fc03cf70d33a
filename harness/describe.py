#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the one table below (run by hand when the table changes)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
L = "cpp/lib_moment/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, oracle, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, oracle=oracle, claimed=claimed))


prop("C01", "Locality words: equal operators have exactly one canonical form",
     "In every locality scenario, simplifying a word of operators gives the one normal form fixed by the defining relations (operators of different parties commute; each operator is a projector; different outcomes of one measurement annihilate), so two words come out equal exactly when those relations make them equal. "
     "Products, conjugates, signs and negation of words agree with that algebra: multiplication is associative with identity and zero, (ab)* = b*a*, and a** = a. "
     "The numbering of parties, measurements, outcomes and operators is consistent in both directions.",
     ["inputs", "configurations"], "all party/measurement/outcome layouts, all words and pairs of words whose rank fits 64 bits",
     "The tests fix a handful of scenarios and short words; the normal form must be right for every layout and word.",
     ["scenarios/locality/locality_context.cpp", "scenarios/locality/party.cpp", "scenarios/context.cpp", "dictionary/operator_sequence.cpp"],
     [("sort by party, collapse repeats, annihilate", "scenarios/locality/locality_context.cpp additional_simplification")],
     ["OperatorSequence construction, operator*, conjugate(), hermitian_type()", "LocalityContext index functions"],
     "reference normaliser written from the relations, metamorphic rewriting")

prop("C02", "Algebraic rewriting: sound, and confluent once completed",
     "In every algebraic scenario, reducing a word with the rulebook never changes what it denotes under the given relations (including its sign), and never leaves a word to which some rule still applies. "
     "When completion reports success, every word has exactly one reduced form whichever order rules are applied in, that form is minimal in the declared ordering among words the relations make equal, and the completed rulebook implies exactly the same relations as the rules supplied. "
     "Conjugating a word, including its sign, is an involution that respects products.",
     ["inputs", "programs"], "all operator counts and adjointness conventions, rule sets (commutation, projectors, unitaries, monomial rewriting, sign and zero rules), words",
     "The tests run completion on a few hand-picked rule sets and compare with the expected rules; confluence and soundness quantify over all words.",
     ["scenarios/algebraic/operator_rulebook.cpp", "scenarios/algebraic/operator_rule.cpp", "scenarios/algebraic/algebraic_context.cpp", "scenarios/algebraic/algebraic_precontext.cpp"],
     [("Knuth-Bendix completion", "scenarios/algebraic/operator_rulebook.cpp"), ("reduction and conjugation", "scenarios/algebraic/algebraic_context.cpp")],
     ["OperatorRulebook::complete/is_complete/reduce", "AlgebraicContext simplification and conjugate"],
     "breadth-first congruence closure over bounded words, matrix representations, random-order rewriting")

prop("C03", "Pauli words multiply, conjugate and commute like Pauli matrices",
     "For every number of qubits, simplifying, multiplying, conjugating and comparing words of Pauli operators agrees exactly (including the phase) with the tensor products of 2x2 Pauli matrices they stand for. "
     "Commutation and anticommutation tests, and (anti)commutators of words and of polynomials, agree with the matrices too.",
     ["inputs", "configurations"], "all qubit counts, words, phases, pairs of words and polynomials",
     "The tests use up to a few qubits and hand-worked products.",
     ["scenarios/pauli/pauli_context.cpp"], [("per-qubit product tables", "scenarios/pauli/pauli_context.cpp")],
     ["PauliContext multiply/commutator/anticommutator, OperatorSequence"], "symplectic bit-vector model, checked against explicit matrices")

prop("C04", "Inflation: words, source-permutation equivalence and factorisation",
     "In every inflation scenario (causal network and inflation level), words reduce to the normal form fixed by commuting observables, projectors and orthogonal outcomes, and replacing a word by its representative moment only ever applies a permutation of copies of the sources. "
     "A word is factorised exactly into the parts that share no source with each other, and the symbol recorded for a moment is the product of the symbols recorded for its factors.",
     ["inputs", "configurations"], "causal networks (observables, outcomes, sources, singletons), inflation levels, words",
     "The tests look at the triangle and a few other networks at one level.",
     ["scenarios/inflation/inflation_context.cpp", "scenarios/inflation/observable.cpp", "scenarios/inflation/factor_table.cpp"],
     [("canonical moment", "scenarios/inflation/inflation_context.cpp canonical_moment"), ("factorise", "scenarios/inflation/inflation_context.cpp factorize"), ("factor table", "scenarios/inflation/factor_table.cpp")],
     ["InflationContext::simplify_as_moment, factorize", "FactorTable entries"], "explicit orbit under source permutations, connected components, bilinear lookup of products")

prop("C05", "Dictionaries: exactly the distinct words up to a length, ranked injectively",
     "For every scenario, the list of words up to a given length holds each distinct non-zero word of that length or less exactly once, starting with the identity, and its companion list holds their conjugates in the same positions. "
     "A word's rank is its position in shortlex order: two words have the same rank only if they are the same word. "
     "Asking for the same level again, from any number of threads, gives the same list, which stays valid.",
     ["inputs", "configurations", "schedules"], "scenarios of every kind, word lengths, operator counts, request orders and threads",
     "The tests compare a few short lists element by element.",
     ["dictionary/dictionary.cpp", "dictionary/operator_sequence_generator.cpp", "dictionary/multi_operator_iterator.h", "scenarios/locality/locality_osg.cpp", "scenarios/pauli/pauli_osg.cpp", "scenarios/pauli/pauli_dictionary.cpp", "shortlex_hasher.h"],
     [("word lists", "scenarios/*/..._osg.cpp"), ("shortlex hash", "shortlex_hasher.h")],
     ["Context::operator_sequence_generator, Dictionary::Level, ShortlexHasher"], "brute-force enumeration with the reference normalisers")

prop("C06", "Symbol tables: one symbol per moment, with conjugates, aliases and basis",
     "For every history of registrations, each moment (up to conjugation, and up to the scenario's aliases) has exactly one symbol, looking a registered word or its conjugate up gives that symbol with the right conjugation and sign, and unregistered words are not found. "
     "Symbols keep their numbers; a symbol is marked real, imaginary, complex or zero as its word demands; and the real and imaginary basis numbering is a bijection with the symbols that have such a part. "
     "The index from positions in lists of words to symbols may be extended and read by several threads.",
     ["histories", "inputs", "configurations", "schedules"], "sequences of registrations, merges and nullifications in scenarios of every kind",
     "The tests register a few symbols in one order.",
     ["symbolic/symbol_table.cpp", "symbolic/symbol.cpp", "symbolic/symbol_lookup_result.h", "dictionary/dictionary_map.cpp"],
     [("hash tables for word and conjugate", "symbolic/symbol_table.cpp")],
     ["SymbolTable::where, hash_to_index, merge_in, create, Basis"], "model of a table over reference words")

prop("C07", "Polynomial arithmetic is exact linear algebra in canonical form",
     "For every list of terms, building a polynomial merges like terms, drops zeros and orders the rest, so that two expressions denoting the same combination are equal under every term ordering. "
     "Sums, scaling, conjugation, negation, real and imaginary parts of polynomials, and products of operator polynomials, denote the corresponding values for every assignment of values to symbols, and the predicates on polynomials (scalar, monomial, Hermitian, real, matching) say what those values imply.",
     ["inputs"], "term lists with duplicates, cancellations, conjugates and complex factors; every ordering; every assignment of values",
     "The tests add a few two-term polynomials.",
     ["symbolic/polynomial.cpp", "symbolic/polynomial_factory.h", "symbolic/polynomial_factory.cpp", "symbolic/monomial.cpp", "dictionary/raw_polynomial.cpp"],
     [("canonicalisation", "symbolic/polynomial.h fix_cc_in_place, remove_duplicates")],
     ["Polynomial, PolynomialFactory, RawPolynomial"], "evaluation at random assignments (homomorphism), canonical-form invariants")

prop("C08", "Basis vectors and matrices reconstruct what they were made from",
     "Writing any polynomial as real and imaginary coefficient vectors over the symbol basis, and reading it back, gives the same polynomial, and the coefficients applied to the basis values give its value. "
     "For every monomial or polynomial matrix, Hermitian or not, the dense and sparse, monolithic and per-symbol basis decompositions all sum, with the symbols' real and imaginary parts as weights, to the matrix itself. "
     "The mask of a polynomial marks exactly the basis elements it uses. Threads that ask for the same basis at once all get it whole.",
     ["inputs", "schedules"], "polynomials, matrices of polynomials, symbol tables with real, imaginary, complex and aliased symbols",
     "The tests compare a few small matrices' bases entry by entry; two of the files involved are not even built by the test configuration.",
     ["symbolic/polynomial_to_basis.cpp", "matrix/monomial_matrix_basis.cpp", "matrix/polynomial_matrix_basis.cpp", "matrix/matrix_basis.cpp"],
     [("basis export", "symbolic/polynomial_to_basis.cpp"), ("matrix basis", "matrix/*_basis.cpp")],
     ["PolynomialToBasisVec and friends, Matrix::Basis"], "numeric evaluation at random assignments")

prop("C09", "Moment rulebooks: completion preserves solutions and reduces uniquely",
     "For every set of polynomial equations, the completed rulebook is satisfied by exactly the assignments that satisfy the equations, an inconsistent set is reported as such, and no left-hand side occurs in any rule's right-hand side. "
     "Reducing a polynomial preserves its value on every satisfying assignment, is idempotent, and depends neither on the order in which the equations were supplied nor on how they were batched. "
     "Merging and comparing rulebooks, and exporting rules to basis vectors, agree with those solution sets.",
     ["inputs", "histories"], "systems of linear equations over moments with complex coefficients and conjugates, in every insertion order",
     "The tests complete a few small systems in one order.",
     ["symbolic/rules/moment_rulebook.cpp", "symbolic/rules/moment_rule.cpp", "symbolic/rules/moment_rulebook_to_basis.cpp"],
     [("insertion and completion", "symbolic/rules/moment_rulebook.cpp"), ("rule orientation and splitting", "symbolic/rules/moment_rule.cpp")],
     ["MomentRulebook::add_raw_rules, complete, reduce, compare_rulebooks"], "exact real linear algebra on the equations")

prop("C10", "Moment and localizing matrices hold the moments they are defined to hold",
     "In every scenario, entry (i,j) of the moment matrix of a level is the moment of w_i* w_j, and of the localizing matrix of a word or polynomial P the moment of w_i* P w_j (or the commutator or anticommutator forms), with the exact sign and conjugation, as an operator, as a symbol and numerically. "
     "A matrix is flagged Hermitian only if it equals its conjugate transpose, and Hermitian whenever the definition makes it so by construction.",
     ["inputs", "configurations"], "scenarios of every kind, levels, localizing words and polynomials with phases",
     "The tests check some entries for a few scenarios, and most of those tests are not linked in this configuration.",
     ["matrix/monomial_matrix_factory.cpp", "matrix/polynomial_matrix.cpp", "matrix/composite_matrix.cpp", "matrix/operator_matrix/operator_matrix.cpp", "matrix/operator_matrix/is_hermitian.cpp", "matrix/operator_matrix/localizing_matrix.h", "scenarios/pauli/matrices"],
     [("generators", "matrix/operator_matrix/*"), ("symbolic factory", "matrix/monomial_matrix_factory.cpp")],
     ["MatrixSystem::MomentMatrix, LocalizingMatrix, PolynomialLocalizingMatrix, PauliMatrixSystem::CommutatorMatrix ..."], "reference words, and concrete states and operators evaluated numerically")

prop("C11", "Matrix products and sums denote entrywise products and sums",
     "Multiplying a moment matrix from the left or right by a word or polynomial multiplies every entry by it as operators; adding matrices, scaling and adding identity or zero matrices denotes the entrywise result; and the Hermitian flag, the symbols and the basis of the result are those of the matrix so defined. "
     "The operands are unchanged.",
     ["inputs"], "matrices, words, polynomials and phases in every scenario that defines operators",
     "The tests multiply a few matrices by single operators.",
     ["matrix/symbolic_matrix.cpp", "matrix/monomial_matrix_arithmetic.cpp", "matrix/polynomial_matrix_arithmetic.cpp", "matrix/composite_matrix.cpp", "matrix/value_matrix.cpp"],
     [("pre/post multiply, add", "matrix/*_arithmetic.cpp, matrix/symbolic_matrix.cpp")],
     ["SymbolicMatrix::pre_multiply, post_multiply, add, clone"], "reference words and numeric evaluation")

prop("C12", "Substituted matrices, tensors and lookups obey the rulebook applied",
     "Applying a moment rulebook to a matrix replaces each entry by its reduction under that rulebook, whatever kind of matrix it is, so entries agree in value on every assignment that satisfies the rules and contain no rewritten symbol. "
     "The result's Hermitian flag and basis are those of the new entries.",
     ["inputs", "histories"], "matrices of every kind and scenario, rulebooks with monomial and polynomial right-hand sides",
     "The tests substitute a few rules into one matrix.",
     ["matrix/substituted_matrix.cpp", "matrix_system/matrix_system.cpp", "matrix_system/indices/substituted_matrix_index.cpp", "multithreading/matrix_transformation_worker.h"],
     [("substituted matrix factory", "matrix/substituted_matrix.cpp")],
     ["MatrixSystem::SubstitutedMatrix"], "entrywise reduction compared with an independent solver for the rules")

prop("C13", "Multithreaded construction gives the same result as single-threaded",
     "Whatever the number of worker threads and their interleaving, every matrix built with multithreading (moment, localizing, polynomial, extended, substituted) has the same entries, flags and moments as the one built without, and the symbol table contains the same moments. "
     "Building in parallel is free of data races and never loses an error raised by a worker.",
     ["schedules", "inputs", "configurations"], "matrix kinds, sizes, thread policies and schedules",
     "The tests compare a few matrices once; a schedule-dependent loss would not show.",
     ["multithreading/matrix_transformation_worker.h", "multithreading/maintains_mutex.h", "multithreading/multithreading.cpp", "scenarios/inflation/multithreading/extended_matrix_worker.cpp", "multithreading/matrix_transformation_worker.h"],
     [("row-strided workers", "multithreading/*.h")],
     ["MatrixSystem built with MultiThreadPolicy::Always / Never"], "differential single vs multi-threaded, under ThreadSanitizer")

prop("C14", "Matrix systems: one matrix per description, found again, consistently named",
     "For every history of requests, asking for a matrix by the same description returns the same matrix and number, different descriptions never share one, and numbers, existence queries, lookup by number and deletion agree with each other. "
     "A deleted matrix is gone, other matrices keep their numbers, and concurrent requests for the same description create it once.",
     ["histories", "schedules"], "sequences of create, find, fetch and delete calls over all index types, from one or more threads",
     "The tests create two or three matrices in one order.",
     ["matrix_system/matrix_system.cpp", "matrix_system/matrix_indices.h", "matrix_system/indices/localizing_matrix_index.cpp", "matrix_system/indices/polynomial_localizing_matrix_index.cpp", "matrix_system/index_storage/polynomial_index_storage.h", "matrix_system/rulebook_storage.cpp"],
     [("index storage", "matrix_system/indices/*, utilities/index_storage_map.h")],
     ["MatrixSystem::MomentMatrix, find, get, delete_matrix"], "stateful model of description -> number")

prop("C15", "Probabilities, Collins-Gisin and correlators describe one behaviour",
     "In every scenario with measurements, the Collins-Gisin tensor, the full-correlator tensor and the probability tensor are consistent: each probability is the stated linear combination of moments, probabilities of a measurement sum to one (or to the marginal), correlators are the stated sums of probabilities, and every index, range and symbol lookup finds the matching element. "
     "Explicit values assigned to outcomes turn into rules that fix exactly those probabilities, and conversion between tensors preserves the functional.",
     ["inputs", "configurations"], "party/measurement/outcome layouts, inflation networks, tensor indices, explicit value assignments, Bell functionals",
     "The tests read a few elements of CHSH-like tensors, and most of them are not linked in this configuration.",
     ["probability/collins_gisin.cpp", "probability/probability_tensor.cpp", "probability/full_correlator.cpp", "scenarios/locality/tensor_conversion.cpp", "scenarios/locality/locality_probability_tensor.cpp", "scenarios/inflation/inflation_collins_gisin.cpp", "scenarios/inflation/inflation_probability_tensor.cpp"],
     [("tensor index maps", "probability/*"), ("explicit value rules", "probability/probability_tensor.cpp")],
     ["CollinsGisin, ProbabilityTensor, FullCorrelator, TensorConvertor, explicit_value_rules"], "random behaviours: explicit local/no-signalling distributions evaluated directly")

prop("C16", "Extended matrices add exactly the products that keep factorisation exact",
     "Extending a moment matrix by a list of scalar symbols keeps the original block and the original matrix, and entry by entry holds the product of the row's and column's moments, recorded in the factor table as that product. "
     "A symbol is created for a product only if no symbol with the same factors is recorded, so that equal products share it, and the suggested extensions make every factorising moment of the matrix that can be made to appear as such a product do so. Moment rules of fundamental symbols are carried over to products, soundly, as these are recorded.",
     ["inputs", "histories"], "inflation networks and levels, extension lists, orders of construction",
     "The tests extend the triangle and pair scenarios by hand.",
     ["scenarios/inflation/extended_matrix.cpp", "scenarios/inflation/extension_suggester.cpp", "scenarios/inflation/factor_table.cpp", "scenarios/inflation/multithreading/extended_matrix_worker.cpp"],
     [("extended matrix", "scenarios/inflation/extended_matrix.cpp")],
     ["InflationMatrixSystem::ExtendedMatrix, ExtensionSuggester"], "multiplicative evaluation of factors")

prop("C17", "Symmetrised systems: invariant, faithful to the group and its average",
     "For every finite group of symmetries given by generators, the group found is exactly the one generated, its representation on longer words is the one induced by its action on operators, and the reduced system's moments are the images of the original ones under averaging over the group. "
     "Two moments get the same image if the group maps one to the other, mapping a polynomial or matrix forwards preserves its value in every invariant state, and mapping back and forward again is the identity. "
     "A representation, once made, is not replaced, whoever asks for which others, also from several threads.",
     ["inputs", "configurations", "schedules"], "generator sets, scenarios, word lengths, moments, maps and tolerances",
     "The tests use the CHSH symmetry group and a few others.",
     ["scenarios/symmetrized/group.cpp", "scenarios/symmetrized/representation.cpp", "scenarios/symmetrized/representation_mapper.cpp", "scenarios/symmetrized/symmetrized_matrix_system.cpp", "scenarios/derived/symbol_table_map.cpp", "scenarios/derived/lu_map_core_processor.cpp"],
     [("Dimino's algorithm", "scenarios/symmetrized/group.cpp"), ("map core and LU", "scenarios/derived")],
     ["Group::dimino_generation, RepresentationMapper, SymbolTableMap"], "brute-force closure, direct action on words, numeric invariant states")

prop("C18", "Imported matrices keep their entries and learn exactly what they imply",
     "For every matrix of numbers and symbols imported as real, Hermitian or general, the stored matrix has the given entries, symbols not met before are declared, and the type declared (symmetric, Hermitian, real, complex) is accepted exactly when the entries satisfy it or the implied properties of symbols can make it so. "
     "Importing further matrices only strengthens what is known of a symbol, consistently with every matrix imported.",
     ["inputs", "histories"], "sequences of imported matrices of numbers and symbols with real or complex factors",
     "The tests import a few 2x2 matrices.",
     ["scenarios/imported/imported_matrix_system.cpp", "symbolic/symbol_table.cpp"],
     [("import checks", "scenarios/imported/imported_matrix_system.cpp")],
     ["ImportedMatrixSystem::import_matrix"], "model of implied symbol properties, numeric evaluation")

prop("C19", "Pauli lattice symmetry: moments are identified exactly when translates",
     "For every chain or lattice of qubits, wrapping or not, two words are given the same representative moment exactly when one is a translate of the other on that lattice, and the representative is itself such a translate. "
     "Lists of symmetry-reduced or nearest-neighbour words hold exactly the words of that locality on that lattice, each once.",
     ["inputs", "configurations"], "chain lengths, lattice shapes (also non-square, also beyond one machine word of qubits), wrapping, words, neighbour distances",
     "The tests use small square lattices and chains.",
     ["scenarios/pauli/symmetry", "scenarios/pauli/pauli_osg.cpp", "scenarios/pauli/indices/nearest_neighbour_index.h"],
     [("site hashers", "scenarios/pauli/symmetry/site_hasher.cpp"), ("moment simplifiers", "scenarios/pauli/symmetry/*moment_simplifier*"), ("lattice duplicator", "scenarios/pauli/symmetry/lattice_duplicator.cpp")],
     ["PauliContext::simplify_as_moment, NearestNeighbour dictionaries"], "explicit orbit of translates computed on coordinates")

prop("C20", "Containers, index maps, iterators and numeric helpers obey their models",
     "For every history of operations, bit sets, small vectors, prefix-tree indices, persistent and index storage, tensors and square matrices behave like the plain sets, vectors, maps and arrays they stand for, and persistent storage also does so when several threads use it at once. "
     "Iterators over combinations, partitions, multipartitions, permutations, multi-dimensional indices and commuting words yield each element exactly once in their declared order, and integer and Kronecker powers, comparisons within tolerance and sparse-matrix predicates agree with direct computation.",
     ["histories", "inputs"], "operation sequences and sizes, including empty, page-boundary and stack-to-heap sizes",
     "The tests walk single examples; boundaries and move/copy histories are not covered.",
     ["utilities", "tensor"], [("containers", "utilities/dynamic_bitset.h, small_vector.h, index_tree.h"), ("iterators", "utilities/*iterator*, tensor/*")],
     ["public members of these classes"], "stateful models on standard containers, exhaustive enumeration")

prop("C21", "Text: names, parsing and formatting are faithful and total",
     "Alphabetic names number columns as spreadsheets do, operator names are found again by name tables, and what the library prints for words, monomials, polynomials, symbols and averaged symbols can be read back, under the usual reading of sums and products, as the same object; distinct words of a scenario print differently. "
     "Text of a monomial is parsed to exactly what it says, and malformed text or names are rejected with the documented error, never misread and never a crash; converting valid text between UTF-8 and UTF-16 preserves it, and broken encodings do not disturb the text before them.",
     ["inputs"], "all names, words, monomials, byte and code-unit strings",
     "The tests parse a few strings.",
     ["utilities/alphabetic_namer.h", "utilities/utf_conversion.cpp", "symbolic/monomial.cpp", "scenarios/algebraic/name_table.cpp", "utilities/format_factor.cpp", "scenarios/locality/locality_operator_formatter.cpp", "scenarios/algebraic/algebraic_context.cpp"],
     [("parsers", "scenarios/algebraic/name_table.cpp, symbolic/monomial.cpp"), ("formatters", "format_sequence")],
     ["parsers and formatters"], "round trips, reference decoders, mutation of valid input")

prop("C22", "Refused requests leave a matrix system as it was",
     "Whenever a matrix system refuses a request (a matrix made from a matrix, rulebook, symbol or range of neighbours that does not exist; a rulebook merged into one it contradicts, into one in use or into none; a change to a rulebook in use; a deletion or lookup of nothing; a product or sum that cannot be formed; a polynomial of unregistered words), "
     "its symbols and their bases, matrices, rulebooks and table of factors are as they were, and the request is not found as if it had been made. "
     "All that is granted later has the same result as in a system which never met the refused requests.",
     ["inputs", "histories"], "histories of granted and refused requests on systems of every kind",
     "The tests check that some calls throw, not what they leave behind.",
     ["matrix_system/matrix_system.cpp", "matrix_system/matrix_indices.h", "matrix_system/rulebook_storage.cpp", "symbolic/rules/moment_rulebook.cpp", "scenarios/inflation/inflation_matrix_system.cpp"],
     [("failed merge", "symbolic/rules/moment_rulebook.cpp combine_and_complete"), ("index banks", "matrix_system/matrix_indices.h"), ("matrices", "matrix_system/matrix_system.cpp")],
     ["public members of MatrixSystem and RulebookStorage"], "twin system that is only sent the granted requests, and the system's own picture before and after")

LEVEL_NOTE = "Bounded, seeded search over generated cases against an explicit oracle, built with the address sanitizer and library assertions; no claim beyond what was explored."

if __name__ == "__main__":
    props = json.load(open(os.path.join(HERE, "props.json")))
    with open(os.path.join(HERE, "../properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": [L + x for x in p["files"]], "mechanism": [{"name": a, "where": L + b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in props:
            checks.append({"property": p["id"], "quick_cmd": "python3 harness/run.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 harness/run.py %s --tier thorough" % p["id"],
                           "technique": "property-based testing: " + p["oracle"], "level": "exploration", "level_note": LEVEL_NOTE})
        else:
            na.append({"property": p["id"], "reason": "its check is not built yet"})
    with open(os.path.join(HERE, "../MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 harness/run.py --setup", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
