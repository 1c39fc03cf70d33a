// C12: substituted matrices, against real linear algebra over the unknown parts of the symbols.
#include "../pbt.h"
#include "../linear.h"
#include "../matrix_check.h"
#include "dictionary/dictionary.h"
#include "matrix/composite_matrix.h"
#include "matrix/value_matrix.h"
#include "matrix/substituted_matrix.h"
#include "matrix_system/matrix_system_errors.h"
#include <Eigen/Dense>

using namespace Moment;
using namespace model;

namespace {
    [[maybe_unused]] const bool tame = (model::wild_coef = false, true);
    using MTP = Multithreading::MultiThreadPolicy;
    struct Book { size_t index; Linear lin; std::vector<Polynomial> raw; };

    Polynomial entry_poly(const SymbolicMatrix& m, size_t i, size_t j) {
        if (m.is_monomial()) { auto& x = dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j); return x.id == 0 || x.factor == 0.0 ? Polynomial{} : Polynomial{x}; }
        return dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j);
    }
}

LAW(substitution, "an entry of a matrix was rewritten", 24000, 800000) {
    SceneOptions o;
    o.system = true;
    o.max_ops = 4;
    o.tolerance = 1e6;
    auto s = gen_scene(c, o);
    c.note(s.name);
    c.label(kind_name[s.kind]);
    auto& ms = *s.system;
    auto& st = ms.Symbols();
    auto& factory = ms.polynomial_factory();
    size_t level = 1;
    while (level > 0 && ms.osg_size(level) > 8) --level;
    if (level == 0) throw pbt::Discard{};
    if (s.n <= 2 && c.chance(30)) level = 2;
    if (2 * level + 4 > s.max_len * 2) throw pbt::Discard{};
    const size_t dim = ms.osg_size(level);

    std::vector<std::pair<ptrdiff_t, std::string>> sources;
    sources.emplace_back(ms.MomentMatrix.create(level, MTP::Never).first, pbt::str("M", level));
    if (c.coin()) {
        auto q = to_seq(s.context(), s.word(c, 2), static_cast<int>(c.below(4)));
        sources.emplace_back(ms.LocalizingMatrix.create(LocalizingMatrixIndex{level, q}, MTP::Never).first, "L(" + text(from_seq(q)) + ")");
    }
    auto raw_poly = [&] {
        RawPolynomial p;
        auto k = 1 + c.below(3);
        for (uint64_t i = 0; i < k; ++i) p.emplace_back(to_seq(s.context(), c.chance(20) ? Ops{} : s.word(c, 2), static_cast<int>(c.below(4))), gen_coef(c));
        return p;
    };
    auto keep = [&](std::unique_ptr<SymbolicMatrix> m, const std::string& name) {
        auto lock = ms.get_write_lock();
        sources.emplace_back(ms.push_back(lock, std::move(m)), name);
    };
    if (c.coin()) {
        auto p = factory.register_and_construct(st, raw_poly());
        sources.emplace_back(ms.PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{level, p}, MTP::Never).first, pbt::str("PL(", p, ")"));
    }
    if (c.coin()) {      // values times a word: one symbol in every entry
        auto n = static_cast<Eigen::Index>(dim);
        Eigen::MatrixXcd a(n, n);
        for (Eigen::Index i = 0; i < n; ++i) for (Eigen::Index j = 0; j < n; ++j) a(i, j) = c.coin() ? cd{} : gen_coef(c);
        if (c.coin()) a = (a + a.adjoint().eval()).eval();
        auto vm = std::make_unique<ValueMatrix>(s.context(), st, factory.zero_tolerance, a);
        if (c.coin()) keep(vm->post_multiply(raw_poly(), factory, st, MTP::Never), "values times words");
        else keep(std::move(vm), "values");
    }
    if (sources.size() > 1 && c.coin()) {
        auto a = c.pick(sources), b = c.pick(sources);
        keep(ms[a.first].add(ms[b.first], factory, MTP::Never), "(" + a.second + " + " + b.second + ")");
    }
    if (c.chance(30)) {
        auto a = c.pick(sources);
        if (ms[a.first].is_monomial() && ms[a.first].has_unaliased_operator_matrix()) { cd f = gen_coef(c); if (f == 0.0) f = cd{0, 1}; keep(ms[a.first].pre_multiply(Polynomial{Monomial{1, f}}, factory, st, MTP::Never), pbt::str(f, "*", a.second)); }
    }
    while (st.size() < 4) st.create(1, true, c.coin());

    std::vector<Book> books;
    auto rule_sets = 1 + c.below(3);
    auto hidden = std::make_shared<std::vector<cd>>(arbitrary_values(c, st));
    for (uint64_t k = 0; k < rule_sets; ++k) {
        auto raw = gen_rules(c, ms, 4, hidden);
        note_rules(c, raw);
        Linear lin{st};
        for (auto& p : raw) lin.add(st, p);
        lin.solve();
        if (lin.marginal || !lin.consistent) throw pbt::Discard{};
        auto rb = std::make_unique<MomentRulebook>(ms, false);
        rb->add_raw_rules(std::vector<Polynomial>{raw});
        rb->complete();
        auto [ix, ref] = ms.Rulebook.add(std::move(rb));
        c.check(ix == books.size() && &ms.Rulebook(ix) == &ref, "index of a new rulebook");
        books.push_back(Book{ix, lin, raw});
    }
    auto n_sources = sources.size();
    auto steps = 2 + c.below(5);
    for (uint64_t step = 0; step < steps; ++step) {
        auto src = c.chance(80) ? sources[c.below(n_sources)] : c.pick(sources);
        auto& book = c.pick(books);
        auto policy = c.chance(25) ? MTP::Always : MTP::Never;
        SubstitutedMatrixIndex index{src.first, static_cast<ptrdiff_t>(book.index)};
        auto found = ms.SubstitutedMatrix.find_index(index);
        auto name = pbt::str(src.second, " | rules ", book.index);
        c.note(name);
        auto symbols = st.size();
        auto before = ms.size();
        auto [ix, m] = ms.SubstitutedMatrix.create(index, policy);
        c.check(st.size() == symbols, name + ": new symbols");
        c.check(&ms[ix] == &m, name + ": index");
        if (found >= 0) { c.check(found == ix && ms.size() == before, name + ": made twice"); continue; }
        c.check(static_cast<size_t>(ix) == before && ms.size() == before + 1, name + ": not added at the end");
        auto& source = ms[src.first];
        auto& rb = ms.Rulebook(book.index);
        c.check(m.Dimension() == source.Dimension(), name + ": dimension");
        auto sub = dynamic_cast<const SubstitutedMatrix*>(&m);
        c.check(sub && &sub->source_matrix == &source && &sub->rules == &rb, name + ": source and rules");
        auto v = book.lin.sample(c, st);
        const size_t d = source.Dimension();
        std::vector<cd> want(d * d);
        bool any = false;
        for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
            auto a = entry_poly(source, i, j), b = entry_poly(m, i, j);
            want[j * d + i] = eval(a, v);
            for (auto& t : a) any = any || rb.find(t.id) != rb.end();
            for (auto& t : b) {
                auto it = rb.find(t.id);
                c.checkf(it == rb.end() || it->second.is_partial(), [&] { return name + pbt::str(": entry (", i, ",", j, ") is still ", show(b)); });
            }
            auto r = rb.reduce(b);
            c.checkf(r.approximately_equals(b, 1e6) || (r.empty() && b.empty()), [&] { return name + pbt::str(": entry (", i, ",", j, ") is ", show(b), ", but reduces to ", show(r)); });
            // equal entries stay equal, and entries that the rules make equal become equal
            auto e = rb.reduce(a);
            c.checkf(e.approximately_equals(b, 1e6) || (e.empty() && b.empty()), [&] { return name + pbt::str(": entry (", i, ",", j, ") is ", show(b), ", but the source entry reduces to ", show(e)); });
        }
        c.nontrivial(any);
        c.label(m.is_monomial() ? "monomial" : "polynomial");
        if (m.Hermitian() != source.Hermitian()) c.label("hermiticity changed");
        check_matrix(c, m, st, v, want, name);
        sources.emplace_back(ix, "(" + name + ")");
        // rules in use are fixed
        if (c.chance(30)) {
            bool refused = false;
            try { ms.Rulebook(book.index).add_raw_rule(Polynomial{Monomial{2, 1.0}, Monomial{1, cd{-7.0, 0}}}); } catch (const std::exception&) { refused = true; }
            c.check(refused, "rulebook in use was changed");
        }
    }
    // bad indices
    for (auto bad : {SubstitutedMatrixIndex{static_cast<ptrdiff_t>(ms.size()), ptrdiff_t{0}}, SubstitutedMatrixIndex{ptrdiff_t{0}, static_cast<ptrdiff_t>(books.size())}, SubstitutedMatrixIndex{ptrdiff_t{-1}, ptrdiff_t{0}}}) {
        auto before = ms.size();
        bool refused = false;
        try { ms.SubstitutedMatrix.create(bad, MTP::Never); } catch (const std::exception&) { refused = true; }
        c.check(refused && ms.size() == before, "matrix made from a missing matrix or rulebook");
        c.check(ms.SubstitutedMatrix.find_index(bad) < 0, "missing matrix found");
    }
}
