// C13: multithreaded construction against single-threaded.
#include "../pbt.h"
#include "../scene.h"
#include "../matrix_check.h"
#include "../linear.h"
#include "dictionary/dictionary.h"
#include "multithreading/matrix_transformation_worker.h"
#include "multithreading/multithreading.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include "matrix/polynomial_localizing_matrix.h"
#include <unistd.h>

/** The library asks once per process how many threads to use: give it another answer in each process. */
unsigned int std::thread::hardware_concurrency() noexcept {
    constexpr unsigned answers[] = {2, 3, 4, 5, 6, 7, 8, 11};
    return answers[static_cast<unsigned>(getpid()) % 8];
}

using namespace Moment;
using namespace model;
namespace mp = Moment::Pauli;

namespace {
    [[maybe_unused]] const bool tame = (model::wild_coef = false, true);
    using MTP = Multithreading::MultiThreadPolicy;

    size_t threads() { return Multithreading::get_max_worker_threads(); }

    /** What the table knows (a symbol may stand for a word, or for i times that word: either is right), in terms independent of the numbering. */
    std::map<Ops, std::string> contents(const SymbolTable& st) {
        std::map<Ops, std::string> out;
        for (auto& q : st) {
            if (!q.has_sequence()) { out[Ops{-1}] += "x"; continue; }
            auto a = from_seq(q.sequence()), b = from_seq(q.sequence_conj());
            if (a.zero) { out[Ops{-2}] = "zero"; continue; }
            // relative sign of the conjugate
            int rel = (b.sign - a.sign) & 3;
            if (b.ops < a.ops) { std::swap(a, b); }
            out[a.ops] = text(Word{false, 0, a.ops}) + " conj " + text(Word{false, 0, b.ops}) + (q.is_hermitian() || q.is_antihermitian() ? " self-conjugate" : "")
                + pbt::str(" ", q.is_hermitian() || q.is_antihermitian() ? 0 : rel % 2, " basis ", (q.basis_key().first >= 0) + (q.basis_key().second >= 0));
        }
        return out;
    }
    std::string show(const std::map<Ops, std::string>& m) { std::string r; for (auto& [k, v] : m) if (r.size() < 800) r += v + ", "; return r; }

    struct Twin { Scene a, b; };
    Twin gen_twin(pbt::Case& c, const SceneOptions& o) {
        Twin t;
        auto start = c.pos;
        t.a = gen_scene(c, o);
        pbt::Case again{std::vector<uint64_t>(c.tape_.begin() + static_cast<ptrdiff_t>(start), c.tape_.begin() + static_cast<ptrdiff_t>(c.pos)), c.size()};
        t.b = gen_scene(again, o);
        c.check(t.a.name == t.b.name, "machinery: twin scenes differ");
        return t;
    }

    void compare(const pbt::Case& c, const Scene& sa, const Scene& sb, const SymbolicMatrix& a, const SymbolicMatrix& b, const std::string& what) {
        auto va = sa.symbol_values(a.symbols), vb = sb.symbol_values(b.symbols);
        const size_t d = a.Dimension();
        c.check(d == b.Dimension(), what + ": dimension");
        c.check(a.is_monomial() == b.is_monomial(), what + ": monomial");
        c.check(a.Hermitian() == b.Hermitian(), what + ": Hermitian flag");
        if (sa.kind != ALG) c.check(a.HasComplexBasis() == b.HasComplexBasis(), what + ": complex basis");
        // (which of two words that are a phase apart stands for both depends on the order of registration)
        if (sa.kind != ALG) c.check(a.HasComplexCoefficients() == b.HasComplexCoefficients(), what + ": complex coefficients");
        for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
            cd x = entry(a, i, j, va), y = entry(b, i, j, vb);
            c.checkf(pbt::close(x, y), [&] { return what + pbt::str(": entry (", i, ",", j, ") is worth ", x, " with one thread, but ", y, " with ", threads()); });
        }
        std::set<std::string> wa, wb;
        for (auto id : symbols_in(a)) { auto& q = a.symbols[static_cast<size_t>(id)]; if (q.has_sequence()) { auto k = sa.normal(from_seq(q.sequence()).ops); wa.insert(text(Word{false, 0, std::min(k.ops, sa.conj(k).ops)})); } }
        for (auto id : symbols_in(b)) { auto& q = b.symbols[static_cast<size_t>(id)]; if (q.has_sequence()) { auto k = sb.normal(from_seq(q.sequence()).ops); wb.insert(text(Word{false, 0, std::min(k.ops, sb.conj(k).ops)})); } }
        c.check(wa == wb, what + ": other moments");
        c.check(a.IncludedSymbols().size() == b.IncludedSymbols().size() && a.RealBasisIndices().size() + a.ImaginaryBasisIndices().size() == b.RealBasisIndices().size() + b.ImaginaryBasisIndices().size()
                && (sa.kind == ALG || a.RealBasisIndices().size() == b.RealBasisIndices().size()), what + ": sizes of bases");
        c.check(a.has_unaliased_operator_matrix() == b.has_unaliased_operator_matrix() && a.has_aliased_operator_matrix() == b.has_aliased_operator_matrix(), what + ": operator matrices");
        if (a.has_unaliased_operator_matrix()) {
            for (bool al : {false, true}) {
                auto& x = al ? a.aliased_operator_matrix() : a.unaliased_operator_matrix();
                auto& y = al ? b.aliased_operator_matrix() : b.unaliased_operator_matrix();
                for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
                    auto& p = x(std::array<size_t, 2>{i, j});
                    auto& q = y(std::array<size_t, 2>{i, j});
                    c.checkf(from_seq(p) == from_seq(q) && p.hash() == q.hash(), [&] { return what + pbt::str(": operator (", i, ",", j, ") is ", text(from_seq(p)), " with one thread, but ", text(from_seq(q))); });
                }
                c.check(x.is_hermitian() == y.is_hermitian(), what + ": hermiticity of operators");
                c.check(x.nonhermitian_index() == y.nonhermitian_index(), what + ": index of a non-hermitian operator");
            }
        }
    }
    void compare_tables(const pbt::Case& c, const SymbolTable& a, const SymbolTable& b, const std::string& what) {
        auto x = contents(a), y = contents(b);
        c.check(a.size() == b.size(), what + pbt::str(": ", a.size(), " symbols with one thread, but ", b.size()));
        c.checkf(x == y, [&] { return what + ": symbols with one thread: " + show(x) + "; with more: " + show(y); });
        c.check(a.Basis.RealSymbolCount() + a.Basis.ImaginarySymbolCount() == b.Basis.RealSymbolCount() + b.Basis.ImaginarySymbolCount(), what + ": basis");
    }
    bool same(const SymbolicMatrix& a, const SymbolicMatrix& b) {
        if (a.is_monomial() != b.is_monomial() || a.Dimension() != b.Dimension() || a.Hermitian() != b.Hermitian()) return false;
        for (size_t i = 0; i < a.Dimension(); ++i) for (size_t j = 0; j < a.Dimension(); ++j) {
            if (a.is_monomial()) { if (!(dynamic_cast<const MonomialMatrix&>(a).SymbolMatrix(i, j) == dynamic_cast<const MonomialMatrix&>(b).SymbolMatrix(i, j))) return false; }
            else if (!(dynamic_cast<const PolynomialMatrix&>(a).SymbolMatrix(i, j) == dynamic_cast<const PolynomialMatrix&>(b).SymbolMatrix(i, j))) return false;
        }
        return a.IncludedSymbols() == b.IncludedSymbols();
    }
}

RACY_LAW(matrices, "a matrix of dimension 3 or more was made with two threads or more", 3200, 60000) {
    auto n_threads = threads();
    SceneOptions o;
    o.system = true;
    o.tolerance = 1e6;
    auto [sa, sb] = gen_twin(c, o);
    c.note(sa.name);
    c.label(kind_name[sa.kind]);
    auto& A = *sa.system;
    auto& B = *sb.system;
    auto* pa = dynamic_cast<mp::PauliMatrixSystem*>(&A);
    auto* pb = dynamic_cast<mp::PauliMatrixSystem*>(&B);
    std::vector<std::pair<ptrdiff_t, ptrdiff_t>> made;
    auto requests = 1 + c.below(4);
    for (uint64_t r = 0; r < requests; ++r) {
        size_t level = 1 + c.below(2);
        while (level > 0 && (2 * level + 3 > sa.max_len * 2 || A.osg_size(level) > 45)) --level;
        auto what_kind = c.below(pa ? 9 : 6);
        auto word = c.chance(15) ? Ops{} : sa.word(c, 2);
        auto sign = static_cast<int>(c.below(4));
        std::vector<std::tuple<Ops, int, cd>> terms;
        for (auto k = c.below(4); k > 0; --k) { auto w = sa.word(c, 2); auto sg = static_cast<int>(c.below(4)); terms.emplace_back(w, sg, gen_coef(c)); }
        auto raw = [&](const Scene& s) { RawPolynomial p; for (auto& [w, sg, f] : terms) p.emplace_back(to_seq(s.context(), w, sg), f); return p; };
        auto nearest = c.below(2);
        auto from = made.empty() ? std::pair<ptrdiff_t, ptrdiff_t>{-1, -1} : c.pick(made);
        bool pre = c.coin(), poly = c.coin();
        std::string what;
        auto run = [&](const Scene& s, MatrixSystem& ms, mp::PauliMatrixSystem* pauli, MTP policy, ptrdiff_t source) -> ptrdiff_t {
            auto seq = to_seq(s.context(), word, sign);
            switch (what_kind) {
                case 0: what = pbt::str("M", level); return ms.MomentMatrix.create(level, policy).first;
                case 1: what = pbt::str("L", level, "(", text(from_seq(seq)), ")"); return ms.LocalizingMatrix.create(LocalizingMatrixIndex{level, seq}, policy).first;
                case 2: what = pbt::str("PL", level, " raw"); return ms.create_and_register_localizing_matrix(level, raw(s), policy).first;
                case 3: {
                    what = pbt::str("PL", level);
                    auto p = ms.polynomial_factory().register_and_construct(ms.Symbols(), raw(s));
                    return ms.PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{level, p}, policy).first;
                }
                case 4: case 5: {
                    if (source < 0) return -1;
                    what = pbt::str(pre ? "pre" : "post", "multiplied matrix ", source, poly ? " by a polynomial" : " by a word");
                    auto& m = ms[source];
                    std::unique_ptr<SymbolicMatrix> x;
                    try {
                        if (poly) x = pre ? m.pre_multiply(raw(s), ms.polynomial_factory(), ms.Symbols(), policy) : m.post_multiply(raw(s), ms.polynomial_factory(), ms.Symbols(), policy);
                        else x = pre ? m.pre_multiply(seq, cd{0, -2}, ms.polynomial_factory(), ms.Symbols(), policy) : m.post_multiply(seq, cd{0, -2}, ms.polynomial_factory(), ms.Symbols(), policy);
                    } catch (const errors::cannot_multiply_exception&) { return -2; }
                    auto lock = ms.get_write_lock();
                    return ms.push_back(lock, std::move(x));
                }
                case 6: what = pbt::str("M", level, " nn"); return pauli->PauliMomentMatrices.create(mp::MomentMatrixIndex{level, nearest}, policy).first;
                case 7: what = pbt::str("comm", level); return pauli->CommutatorMatrices.create(mp::CommutatorMatrixIndex{level, nearest, seq}, policy).first;
                default: what = pbt::str("anticomm", level); return pauli->AnticommutatorMatrices.create(mp::AnticommutatorMatrixIndex{level, nearest, seq}, policy).first;
            }
        };
        auto ia = run(sa, A, pa, MTP::Never, from.first);
        c.note(what);
        auto ib = run(sb, B, pb, MTP::Always, from.second);
        c.check((ia < 0) == (ib < 0), what + ": refused by only one");
        if (ia < 0) continue;
        made.emplace_back(ia, ib);
        if (B[ib].Dimension() >= 3 && n_threads >= 2) c.nontrivial();
        compare(c, sa, sb, A[ia], B[ib], what);
        compare_tables(c, A.Symbols(), B.Symbols(), what);
    }
    c.label(pbt::str(n_threads, " threads"));
    // substitution, in one system
    auto& st = B.Symbols();
    if (made.empty() || st.size() < 4) return;
    auto hidden = std::make_shared<std::vector<cd>>(arbitrary_values(c, st));
    auto rules = gen_rules(c, B, 3, hidden);
    Linear lin{st};
    for (auto& p : rules) lin.add(st, p);
    lin.solve();
    if (lin.marginal || !lin.consistent) return;
    MomentRulebook book{B, false};
    book.add_raw_rules(std::vector<Polynomial>{rules});
    book.complete();
    auto& m = B[c.pick(made).second];
    auto one = book.create_substituted_matrix(st, m, MTP::Never), many = book.create_substituted_matrix(st, m, MTP::Always);
    c.check(same(*one, *many), "substituted matrix differs: " + dump(*one) + " and " + dump(*many));
}

RACY_LAW(transformation, "an element in a column of its own thread fails, or none does and there are 4 columns or more", 3000, 60000) {
    auto n_threads = threads();
    auto dim = c.below(30);
    auto salt = c.below(1000);
    std::vector<uint64_t> in(dim * dim), out(dim * dim, 7);
    for (size_t k = 0; k < in.size(); ++k) in[k] = k;
    std::set<uint64_t> bad;
    if (dim > 0 && c.coin()) for (auto k = 1 + c.below(3); k > 0; --k) bad.insert(c.below(in.size()));
    c.note(pbt::str("dimension ", dim, " failing {", pbt::join(bad), "}"));
    auto f = [&](uint64_t x) { if (bad.count(x)) throw std::range_error{pbt::str(x)}; return x * x + salt; };
    bool threw = false;
    try { Multithreading::transform_matrix_data(dim, in.data(), out.data(), f); }
    catch (const std::range_error& e) { threw = true; c.check(bad.count(std::stoull(e.what())) == 1, "another error than was raised"); }
    c.check(threw == !bad.empty(), "an error raised by a worker was lost");
    if (bad.empty()) for (size_t k = 0; k < in.size(); ++k) c.check(out[k] == f(k), pbt::str("element ", k, " was not transformed"));
    c.nontrivial(n_threads >= 2 && (!bad.empty() || dim >= 4));
}

RACY_LAW(extended, "an extended matrix with a new product of moments, made with two threads or more", 3200, 60000) {
    auto n_threads = threads();
    SceneOptions o;
    o.system = true;
    o.kinds = {INFL};
    auto [sa, sb] = gen_twin(c, o);
    c.note(sa.name);
    auto& A = dynamic_cast<Inflation::InflationMatrixSystem&>(*sa.system);
    auto& B = dynamic_cast<Inflation::InflationMatrixSystem&>(*sb.system);
    size_t level = 1 + c.below(2);
    while (level > 1 && A.osg_size(level) > 30) --level;
    if (A.osg_size(level) > 45) throw pbt::Discard{};
    // single-threaded in both, so that symbols have the same numbers
    auto& ma = A.MomentMatrix(level);
    auto& mb = B.MomentMatrix(level);
    c.check(same(ma, mb), "machinery: moment matrices differ");
    std::vector<std::vector<Word>> products;     // of factors, by symbol
    auto describe = [](const Inflation::FactorTable& t, symbol_name_t id) {
        std::multiset<std::string> r;
        for (auto& q : t[static_cast<size_t>(id)].canonical.sequences) r.insert(text(from_seq(q)));
        return r;
    };
    auto all = [&](const Inflation::FactorTable& t) { std::multiset<std::multiset<std::string>> r; for (size_t k = 0; k < t.size(); ++k) r.insert(describe(t, static_cast<symbol_name_t>(k))); return r; };
    auto steps = 1 + c.below(3);
    for (uint64_t step = 0; step < steps; ++step) {
        // extensions: by factors, since numbers may differ
        auto before = A.Symbols().size();
        std::vector<symbol_name_t> ea, eb;
        auto k = 1 + c.below(4);
        for (uint64_t i = 0; i < k; ++i) {
            auto id = static_cast<symbol_name_t>(1 + c.below(A.Symbols().size() - 1));
            if (std::find(ea.begin(), ea.end(), id) != ea.end()) continue;
            auto want = describe(A.Factors(), id);
            for (size_t q = 0; q < B.Factors().size(); ++q) if (describe(B.Factors(), static_cast<symbol_name_t>(q)) == want) { ea.push_back(id); eb.push_back(static_cast<symbol_name_t>(q)); break; }
        }
        c.note("extend by " + pbt::join(ea));
        auto [ia, xa] = A.ExtendedMatrices.create(Inflation::ExtendedMatrixIndex{level, std::span<const symbol_name_t>{ea}}, MTP::Never);
        auto [ib, xb] = B.ExtendedMatrices.create(Inflation::ExtendedMatrixIndex{level, std::span<const symbol_name_t>{eb}}, MTP::Always);
        c.check(xa.Dimension() == xb.Dimension() && xa.Hermitian() == xb.Hermitian(), "dimension and hermiticity");
        for (size_t i = 0; i < xa.Dimension(); ++i) for (size_t j = 0; j < xa.Dimension(); ++j) {
            auto &x = xa.SymbolMatrix(i, j), &y = xb.SymbolMatrix(i, j);
            c.check(x.factor == y.factor && x.conjugated == y.conjugated, pbt::str("factor of (", i, ",", j, ")"));
            c.checkf(describe(A.Factors(), x.id) == describe(B.Factors(), y.id), [&] { return pbt::str("entry (", i, ",", j, ") is a product of other moments: ", A.Factors()[static_cast<size_t>(x.id)].sequence_string(), " and ", B.Factors()[static_cast<size_t>(y.id)].sequence_string()); });
        }
        c.check(A.Symbols().size() == B.Symbols().size(), pbt::str(A.Symbols().size(), " symbols with one thread, but ", B.Symbols().size()));
        c.check(A.Factors().size() == B.Factors().size() && all(A.Factors()) == all(B.Factors()), "factor tables differ");
        c.check(xa.IncludedSymbols().size() == xb.IncludedSymbols().size() && xa.RealBasisIndices().size() == xb.RealBasisIndices().size(), "bases differ");
        compare_tables(c, A.Symbols(), B.Symbols(), "extended matrix");
        if (A.Symbols().size() > before && n_threads >= 2) c.nontrivial();
    }
}
