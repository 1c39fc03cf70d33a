// C11: products, sums and copies of symbolic matrices.
#include "../pbt.h"
#include "../matrix_check.h"
#include "dictionary/dictionary.h"
#include "dictionary/operator_sequence_generator.h"
#include "matrix/composite_matrix.h"
#include "matrix/value_matrix.h"
#include <Eigen/Dense>
#include <Eigen/SparseCore>

using namespace Moment;
using namespace model;
namespace mp = Moment::Pauli;

namespace {
    using MTP = Multithreading::MultiThreadPolicy;
    struct Entry {
        std::unique_ptr<SymbolicMatrix> own;
        const SymbolicMatrix* m = nullptr;
        std::string name;
        std::function<cd(size_t, size_t)> value;             // entry
        std::optional<std::vector<Word>> words;              // operator of each entry (column-major), if it has operators
        cd factor = 1.0;                                     // times this
        std::optional<std::vector<cd>> numbers;              // a matrix of values
    };
}

LAW(arithmetic, "a product with an operator that is not the identity, or a sum of two matrices, of dimension 2 or more", 12000, 500000) {
    SceneOptions o;
    o.system = true;
    o.max_ops = 5;
    auto s = gen_scene(c, o);
    c.note(s.name);
    c.label(kind_name[s.kind]);
    auto& ms = *s.system;
    auto& st = ms.Symbols();
    auto& factory = ms.polynomial_factory();
    auto* pauli = dynamic_cast<mp::PauliMatrixSystem*>(&ms);
    std::vector<std::shared_ptr<Entry>> pool;
    const bool tracked = s.kind != ALG;                    // reference products are independent of the library
    (void) tracked;
    size_t level = 1;
    while (level > 0 && ms.osg_size(level) > 10) --level;
    if (ms.osg_size(level) > 10) throw pbt::Discard{};
    if (level == 1 && s.n <= 2 && c.coin()) level = 2;
    if (2 * level + 7 > s.max_len * 2) throw pbt::Discard{};
    const size_t dim = ms.osg_size(level);

    auto verify = [&](const Entry& e) {
        auto v = s.symbol_values(st);
        size_t d = e.m->Dimension();
        std::vector<cd> want(d * d);
        for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) want[j * d + i] = e.value(i, j);
        check_matrix(c, *e.m, st, v, want, e.name);
        if (e.words) {
            c.check(e.m->is_monomial(), e.name + ": not monomial");
            check_operator_matrix(c, s, *e.m, *e.words, e.name);
            auto& mm = dynamic_cast<const MonomialMatrix&>(*e.m);
            c.checkf(pbt::close(mm.global_factor(), e.factor), [&] { return e.name + pbt::str(": factor ", mm.global_factor(), ", expected ", e.factor); });
        }
    };
    auto from_operators = [&](const SymbolicMatrix& m, const std::string& name) {
        auto e = std::make_shared<Entry>();
        e->m = &m;
        e->name = name;
        e->words.emplace();
        for (auto& q : m.unaliased_operator_matrix()) e->words->push_back(from_seq(q));
        e->factor = dynamic_cast<const MonomialMatrix&>(m).global_factor();
        size_t d = m.Dimension();
        auto ep = e.get();
        e->value = [&s, ep, d](size_t i, size_t j) { return ep->factor * s.value((*ep->words)[j * d + i]); };
        pool.push_back(e);
    };
    auto raw_poly = [&](size_t least) {
        RawPolynomial p;
        auto k = c.chance(12) ? 4 + c.below(5) : least + c.below(4 - least);
        for (uint64_t i = 0; i < k; ++i) p.emplace_back(to_seq(s.context(), c.chance(20) ? Ops{} : s.word(c, 2), static_cast<int>(c.below(4))), gen_coef(c));
        return p;
    };
    // starting matrices
    { auto [ix, m] = ms.MomentMatrix.create(level, MTP::Never); from_operators(m, pbt::str("M", level)); }
    { auto q = to_seq(s.context(), s.word(c, 2), static_cast<int>(c.below(4))); auto [ix, m] = ms.LocalizingMatrix.create(LocalizingMatrixIndex{level, q}, MTP::Never); from_operators(m, "L(" + text(from_seq(q)) + ")"); }
    if (pauli && c.coin()) {
        auto q = to_seq(s.context(), s.word(c, 2), 0);
        auto [ix, m] = pauli->CommutatorMatrices.create(mp::CommutatorMatrixIndex{level, 0, q}, MTP::Never);
        from_operators(m, "[" + text(from_seq(q)) + "]");
    }
    if (c.chance(60)) {          // values
        auto e = std::make_shared<Entry>();
        auto style = c.below(4), shape = c.below(4);
        auto n = static_cast<Eigen::Index>(dim);
        Eigen::MatrixXcd a(n, n);
        for (Eigen::Index i = 0; i < n; ++i) for (Eigen::Index j = 0; j < n; ++j) a(i, j) = c.coin() ? cd{} : gen_coef(c);
        if (shape == 1) a = (a + a.adjoint().eval()).eval();
        if (shape == 2) a = (a - a.adjoint().eval()).eval();
        if (shape == 3) a = Eigen::MatrixXcd::Zero(n, n);
        bool cx = style & 1, sparse = style & 2;
        if (!cx) a = a.real().cast<cd>().eval();
        Eigen::MatrixXd re = a.real();
        std::unique_ptr<ValueMatrix> vm;
        if (sparse && cx) { Eigen::SparseMatrix<cd> sp = a.sparseView(); vm = std::make_unique<ValueMatrix>(s.context(), st, 1.0, sp); }
        else if (sparse) { Eigen::SparseMatrix<double> sp = re.sparseView(); vm = std::make_unique<ValueMatrix>(s.context(), st, 1.0, sp); }
        else if (cx) vm = std::make_unique<ValueMatrix>(s.context(), st, 1.0, a);
        else vm = std::make_unique<ValueMatrix>(s.context(), st, 1.0, re);
        bool anti = (a + a.adjoint()).isZero(1e-12);
        e->name = pbt::str("values", sparse ? " sparse" : "", cx ? " complex" : "", " shape ", shape);
        c.check(vm->AntiHermitian() == anti, e->name + ": anti-Hermitian flag");
        e->own = std::move(vm);
        e->m = e->own.get();
        e->numbers.emplace(a.data(), a.data() + a.size());
        auto ep = e.get();
        e->value = [ep, dim](size_t i, size_t j) { return (*ep->numbers)[j * dim + i]; };
        pool.push_back(e);
    }
    if (c.chance(40)) {
        auto p = factory.register_and_construct(st, raw_poly(0));
        auto [ix, m] = ms.PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{level, p}, MTP::Never);
        auto e = std::make_shared<Entry>();
        e->m = &m;
        e->name = pbt::str("PL(", p, ")");
        std::vector<std::pair<Word, cd>> terms;
        for (auto& t : p) terms.emplace_back(from_seq(t.conjugated ? st[static_cast<size_t>(t.id)].sequence_conj() : st[static_cast<size_t>(t.id)].sequence()), t.factor);
        std::vector<Word> cols, rws;
        for (auto& q : ms.Context().dictionary().Level(level)()) { cols.push_back(from_seq(q)); rws.push_back(s.conj(cols.back())); }
        e->value = [&s, terms, cols, rws](size_t i, size_t j) { cd r = 0; for (auto& [t, f] : terms) r += f * s.value(s.mul(s.mul(rws[i], t), cols[j])); return r; };
        pool.push_back(e);
    }
    if (c.chance(20)) {
        auto e = std::make_shared<Entry>();
        e->own = MonomialMatrix::zero_matrix(s.context(), st, dim);
        e->m = e->own.get();
        e->name = "0";
        e->value = [](size_t, size_t) { return cd{}; };
        e->words.emplace(dim * dim, Zero());
        pool.push_back(e);
    }
    for (auto& e : pool) verify(*e);

    auto steps = c.range(1, 5);
    for (int64_t step = 0; step < steps; ++step) {
        auto src = pool[c.below(pool.size())];
        auto what = c.below(9);
        auto e = std::make_shared<Entry>();
        const MTP policy = MTP::Never;
        if (what <= 3) {       // products
            bool pre = c.coin();
            std::vector<std::pair<Word, cd>> terms;
            std::unique_ptr<SymbolicMatrix> r;
            bool refused = false;
            std::string with;
            bool by_symbol = what == 2 || what == 3;
            bool scalar_one = false, may_refuse = !src->words && !src->numbers;
            auto term_of = [&](const Monomial& t) {
                auto& sym = st[static_cast<size_t>(t.id)];
                if (t.id == 0) return std::pair{Zero(), t.factor};
                return std::pair{from_seq(t.conjugated ? sym.sequence_conj() : sym.sequence()), t.factor};
            };
            try {
                if (what == 0) {
                    auto q = to_seq(s.context(), c.chance(20) ? Ops{} : s.word(c, 2), static_cast<int>(c.below(4)));
                    auto f = gen_coef(c);
                    terms.emplace_back(from_seq(q), f);
                    with = pbt::str(f, "*", text(from_seq(q)));
                    r = pre ? src->m->pre_multiply(q, f, factory, st, policy) : src->m->post_multiply(q, f, factory, st, policy);
                } else if (what == 1) {
                    auto p = raw_poly(0);
                    for (auto& t : p) { terms.emplace_back(from_seq(t.sequence), t.weight); with += pbt::str("+", t.weight, "*", text(from_seq(t.sequence))); }
                    if (p.empty()) may_refuse = true;
                    r = pre ? src->m->pre_multiply(p, factory, st, policy) : src->m->post_multiply(p, factory, st, policy);
                } else {
                    auto p = factory.register_and_construct(st, raw_poly(what == 2 ? 1 : 0));
                    if (what == 2) {
                        if (p.empty()) continue;
                        auto t = p[c.below(p.size())];
                        terms.push_back(term_of(t));
                        with = pbt::str("monomial ", t);
                        scalar_one = t.id == 1 && t.factor == 1.0;
                        r = pre ? src->m->pre_multiply(t, factory, st, policy) : src->m->post_multiply(t, factory, st, policy);
                    } else {
                        for (auto& t : p) terms.push_back(term_of(t));
                        with = pbt::str("polynomial ", p);
                        scalar_one = p.size() == 1 && p[0].id == 1 && p[0].factor == 1.0;
                        r = pre ? src->m->pre_multiply(p, factory, st, policy) : src->m->post_multiply(p, factory, st, policy);
                    }
                }
            } catch (const errors::cannot_multiply_exception&) { refused = true; }
            e->name = pre ? "(" + with + ")*" + src->name : src->name + "*(" + with + ")";
            c.note(e->name);
            if (refused) {
                c.check(may_refuse, e->name + ": refused");
                c.label("refused");
                continue;
            }
            if (dim > 1 && std::any_of(terms.begin(), terms.end(), [](auto& t) { return !t.first.zero && !t.first.ops.empty(); })) c.nontrivial();
            c.label(by_symbol ? "product by symbols" : "product by words");
            e->m = r.get();
            e->own = std::move(r);
            auto sp = src;
            if (src->words) {
                auto products = [&](const Word& t) {
                    std::vector<Word> w;
                    for (auto& x : *src->words) w.push_back(pre ? s.mul(t, x) : s.mul(x, t));
                    return w;
                };
                std::vector<std::pair<std::vector<Word>, cd>> parts;
                for (auto& [t, f] : terms) parts.emplace_back(products(t), f * src->factor);
                e->value = [&s, parts, dim](size_t i, size_t j) { cd v = 0; for (auto& [w, f] : parts) v += f * s.value(w[j * dim + i]); return v; };
                if (terms.size() == 1 && e->m->is_monomial()) { e->words = parts[0].first; e->factor = parts[0].second; }
            } else if (src->numbers) {
                e->value = [&s, terms, sp, dim](size_t i, size_t j) { cd v = 0; for (auto& [t, f] : terms) v += f * s.value(t); return v * (*sp->numbers)[j * dim + i]; };
            } else {             // may only be by a scalar
                const bool zeros = [&] { for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) if (!pbt::close(sp->value(i, j), 0.0)) return false; return true; }();
                c.check(scalar_one || zeros || terms.empty() || (terms.size() == 1 && terms[0].first.zero), e->name + ": not refused");
                e->value = [terms, sp, &s](size_t i, size_t j) { cd v = 0; for (auto& [t, f] : terms) v += f * s.value(t); return v * sp->value(i, j); };
            }
            c.check(e->m->Dimension() == dim, e->name + ": dimension");
            if (scalar_one) e->numbers = src->numbers;
            if (e->m->is_monomial() && e->m->has_unaliased_operator_matrix() && std::all_of(terms.begin(), terms.end(), [&](auto& t) { return t.first.zero || (src->numbers && t.second == 0.0); })) {
                e->words.emplace(dim * dim, Zero());
                e->factor = dynamic_cast<const MonomialMatrix&>(*e->m).global_factor();
            }
        } else if (what == 4 || what == 5) {
            auto other = pool[c.below(pool.size())];
            e->name = "(" + src->name + " + " + other->name + ")";
            c.note(e->name);
            if (c.chance(5)) {      // of another size
                auto wrong = MonomialMatrix::zero_matrix(s.context(), st, c.coin() ? dim + 1 : 2 * dim);
                bool threw = false, threw_back = false;
                try { auto r = src->m->add(*wrong, factory, policy); } catch (const errors::cannot_add_exception&) { threw = true; }
                try { auto r = wrong->add(*src->m, factory, policy); } catch (const errors::cannot_add_exception&) { threw_back = true; }
                c.check(threw && threw_back, src->name + ": added to a matrix of another size");
                c.label("sum of different sizes");
            }
            e->own = src->m->add(*other->m, factory, policy);
            e->m = e->own.get();
            e->value = [src, other](size_t i, size_t j) { return src->value(i, j) + other->value(i, j); };
            if (dim > 1) c.nontrivial();
            c.label("sum of matrices");
        } else if (what == 6) {
            auto p = factory.register_and_construct(st, raw_poly(0));
            bool one = c.coin() && !p.empty();
            auto t = one ? p[c.below(p.size())] : Monomial{};
            if (one && c.chance(10)) t = Monomial{0, 1.0, false};
            e->name = "(" + src->name + " + everywhere " + (one ? pbt::str(t) : pbt::str(p)) + ")";
            c.note(e->name);
            e->own = one ? src->m->add(t, factory, policy) : src->m->add(p, factory, policy);
            e->m = e->own.get();
            e->value = [src, p, t, one, &s, &st](size_t i, size_t j) { auto v = s.symbol_values(st); return src->value(i, j) + (one ? eval(t, v) : eval(p, v)); };
            c.label("sum with polynomial");
        } else if (what == 8) {
            CompositeMatrix::ConstituentInfo info{dim};
            std::vector<std::pair<std::shared_ptr<Entry>, cd>> parts;
            auto k = c.below(c.chance(20) ? 10 : 4);
            e->name = "combined (";
            for (uint64_t i = 0; i < k; ++i) {
                parts.emplace_back(pool[c.below(pool.size())], gen_coef(c));
                info.elements.emplace_back(parts.back().first->m, parts.back().second);
                e->name += pbt::str(" + ", parts.back().second, "*", parts.back().first->name);
            }
            e->name += ")";
            if (e->name.size() < 600) c.note(e->name);
            e->own = std::make_unique<CompositeMatrix>(s.context(), st, factory, std::move(info));
            e->m = e->own.get();
            e->value = [parts](size_t i, size_t j) { cd v = 0; for (auto& [q, f] : parts) v += f * q->value(i, j); return v; };
            if (dim > 1 && k > 1) c.nontrivial();
            c.label("linear combination");
        } else {
            e->name = "copy of " + src->name;
            c.note(e->name);
            e->own = src->m->clone(policy);
            e->m = e->own.get();
            e->value = [src](size_t i, size_t j) { return src->value(i, j); };
            e->words = src->words;
            e->factor = src->factor;
            e->numbers = src->numbers;
            c.check(e->m != src->m && e->m->is_monomial() == src->m->is_monomial(), e->name + ": another kind of matrix");
            c.check(e->m->Description() == src->m->Description(), e->name + ": description");
            c.label("copy");
        }
        verify(*e);
        verify(*src);
        pool.push_back(e);
    }
    for (auto& e : pool) verify(*e);
    // matrices of operators, multiplied by polynomials of symbols term by term
    auto src = pool[c.below(pool.size())];
    if (!src->words) return;
    auto p = factory.register_and_construct(st, raw_poly(0));
    auto& om = src->m->unaliased_operator_matrix();
    bool pre = c.coin();
    auto list = pre ? om.pre_multiply(p, st, MTP::Never) : om.post_multiply(p, st, MTP::Never);
    c.check(list.size() == p.size(), "one matrix of operators for each term");
    for (size_t k = 0; k < p.size(); ++k) {
        if (p[k].id == 0) continue;
        auto& sym = st[static_cast<size_t>(p[k].id)];
        auto t = from_seq(p[k].conjugated ? sym.sequence_conj() : sym.sequence());
        c.check(list[k]->Dimension() == om.Dimension(), "dimension of a product of operators");
        size_t i = 0;
        for (auto& q : *list[k]) {
            auto want = pre ? s.mul(t, (*src->words)[i]) : s.mul((*src->words)[i], t);
            c.checkf(from_seq(q) == want, [&] { return src->name + (pre ? " from the left by " : " from the right by ") + text(t) + pbt::str(": entry ", i, " is ", text(from_seq(q)), ", expected ", text(want)); });
            ++i;
        }
    }
}
