// C09: moment rulebooks, against real linear algebra over the unknown parts of the symbols.
#include <map>
#include "../pbt.h"
#include "../poly_gen.h"
#include "../linear.h"
#include <Eigen/Dense>
#include "matrix_system/matrix_system.h"
#include "scenarios/context.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/rules/moment_rule.h"
#include "symbolic/rules/moment_rulebook.h"
#include "symbolic/rules/moment_rulebook_to_basis.h"
#include "symbolic/symbol_table.h"

using namespace Moment;
using namespace model;

namespace {
    [[maybe_unused]] const bool tame = (model::wild_coef = false, true);
    constexpr double tol_multiplier = 1e6;

    struct Sys : MatrixSystem {
        Sys(std::unique_ptr<Moment::Context> c, bool by_hash) : MatrixSystem{std::move(c), tol_multiplier} {
            if (by_hash) this->replace_polynomial_factory(std::make_unique<ByHashPolynomialFactory>(this->Symbols(), tol_multiplier));
        }
    };

    struct World {
        Scene scene;                 // only for its words
        std::unique_ptr<Sys> sys;
        bool by_hash = false;
    };
    World gen_world(pbt::Case& c, size_t most = 6) {
        World w;
        SceneOptions o;
        o.max_ops = 4;
        w.scene = gen_scene(c, o);
        w.by_hash = c.coin();
        c.note(w.by_hash ? "by hash" : "by id");
        w.scene.ctx = w.scene.owned.get();
        w.sys = std::make_unique<Sys>(std::move(w.scene.owned), w.by_hash);
        fill_table(c, w.scene, w.sys->Symbols(), most);
        for (auto k = c.below(4); k > 0; --k) { w.sys->Symbols().create(1, true, true); c.note("complex symbol"); }
        while (w.sys->Symbols().size() < 4) w.sys->Symbols().create(1, true, c.coin());
        return w;
    }

    /** Unknown parts fixed by a rule */
    size_t fixes(const SymbolTable& st, symbol_name_t id, bool partial) {
        auto [r, i] = st[static_cast<size_t>(id)].basis_key();
        if (partial) return 1;
        return static_cast<size_t>(r >= 0) + static_cast<size_t>(i >= 0);
    }

    void check_book(pbt::Case& c, const World& w, const MomentRulebook& rb, const Linear& lin, const std::vector<Polynomial>& raw) {
        const auto& f = w.sys->polynomial_factory();
        const auto& st = w.sys->Symbols();
        size_t fixed = 0;
        bool mono = true, herm = true;
        for (auto& [id, rule] : rb) {
            c.check(id == rule.LHS() && id > 1 && static_cast<size_t>(id) < st.size(), "key of rule");
            fixed += fixes(st, id, rule.is_partial());
            mono = mono && rule.RHS().is_monomial();
            if (st[static_cast<size_t>(id)].is_hermitian()) {
                Linear z{st};
                z.add(st, rule.RHS());
                for (double x : z.rows[1]) herm = herm && std::abs(x) < 1e-7;
            }
            for (auto& m : rule.RHS()) {
                c.checkf(m.id != id || rule.is_partial(), [&] { return pbt::str("right-hand side of the rule for #", id, " mentions it"); });
                c.checkf(m.id == id || f.key(Monomial{m.id}) < f.key(Monomial{id}), [&] { return pbt::str("rule for #", id, " has the later symbol #", m.id); });
                c.checkf(m.id == id || rb.find(m.id) == rb.end() || rb.find(m.id)->second.is_partial(),
                         [&] { return pbt::str("rule for #", id, " has #", m.id, ", which has a rule of its own: ", show(rb)); });
            }
            auto again = rb.reduce(rule.RHS());
            std::map<std::pair<symbol_name_t, bool>, std::complex<double>> diff;
            for (auto& m : rule.RHS()) {
                c.checkf(m.factor != 0.0, [&] { return pbt::str("rule for #", id, " has a term that is nought: ", show(rb)); });
                diff[{m.id, m.conjugated}] += m.factor;
            }
            for (auto& m : again) diff[{m.id, m.conjugated}] -= m.factor;
            for (auto& [key, x] : diff)
                c.checkf(std::abs(x) < 1e-7, [&] { return pbt::str("right-hand side of the rule for #", id, " can be reduced: ", show(rb)); });
            c.checkf(lin.implies(st, rule.as_polynomial(f)), [&] { return pbt::str("rule for #", id, " does not follow from the rules supplied: ", show(rb)); });
        }
        c.check(rb.is_monomial() == mono, "is_monomial()");
        c.check(rb.is_hermitian() == herm, "is_hermitian()");
        c.checkf(fixed == lin.rank(), [&] { return pbt::str("rules fix ", fixed, " parts, but the equations fix ", lin.rank(), ": ", show(rb)); });
        for (auto& p : raw) {
            auto r = rb.reduce(p);
            c.checkf(r.empty(), [&] { return "supplied rule " + show(p) + " reduces to " + show(r) + " with " + show(rb); });
        }
        // arbitrary polynomials
        for (int t = 0; t < 4; ++t) {
            auto p = c.chance(8) ? f(gen_terms(c, st, 25, false, 40)) : f(gen_terms(c, st, 5));
            auto r = rb.reduce(p);
            auto v = lin.sample(c, st);
            c.checkf(pbt::close(eval(p, v), eval(r, v), 1e-6), [&] { return show(p) + " reduces to " + show(r) + ", which has another value, with " + show(rb); });
            auto again = rb.reduce(r);
            c.checkf(again.approximately_equals(r, tol_multiplier * 1e3), [&] { return show(p) + " reduces to " + show(r) + " and then to " + show(again); });
            bool any = std::any_of(p.begin(), p.end(), [&](const Monomial& m) { return rb.find(m.id) != rb.end(); });
            auto copy = p;
            c.check(rb.reduce_in_place(copy) == any, "reduce_in_place says whether it matched");
            c.check(copy.approximately_equals(r, 1.0) || (copy.empty() && r.empty()), "reduce_in_place differs from reduce");
            auto [ri, pi] = rb.match(p);
            c.check((ri != rb.end()) == any, "match");
            if (any) c.check(ri->first == pi->id, "match points to the symbol");
            if (!raw.empty()) {
                auto q = p;
                auto& x = c.pick(raw);
                f.append(q, x * gen_coef(c));
                f.append(q, c.pick(raw).conjugate(st) * gen_coef(c));
                auto rq = rb.reduce(q);
                c.checkf(rq.approximately_equals(r, tol_multiplier * 1e3), [&] { return show(p) + " and " + show(q) + " are equal, but reduce to " + show(r) + " and " + show(rq) + " with " + show(rb); });
            }
        }
        for (int t = 0; t < 3; ++t) {
            Monomial m{static_cast<symbol_name_t>(1 + c.below(st.size() - 1)), gen_coef(c), false};
            if (m.factor == 0.0) m.factor = 1.0;
            m.conjugated = c.coin();
            auto v = lin.sample(c, st);
            c.check(pbt::close(eval(rb.reduce(m), v), eval(m, v), 1e-6), "reduce(Monomial)");
            auto it = rb.find(m.id);
            bool can = it == rb.end() || it->second.RHS().is_monomial();
            try {
                auto r = rb.reduce_monomial(m);
                c.check(can, "reduce_monomial with a rule that is not monomial");
                c.checkf(pbt::close(eval(r, v), eval(m, v), 1e-6), [&] { return "reduce_monomial of " + show(Polynomial{m}) + " gives " + show(Polynomial{r}) + " with " + show(rb); });
                if (r.conjugated && it != rb.end()) c.check(!st[static_cast<size_t>(r.id)].is_hermitian() && !st[static_cast<size_t>(r.id)].is_antihermitian(), "reduce_monomial leaves a needless conjugate");
            } catch (const errors::not_monomial&) { c.check(!can, "reduce_monomial refuses a monomial rule"); }
        }
    }

    /** Complete a rulebook; true if consistent */
    bool complete(pbt::Case& c, MomentRulebook& rb, const Linear& lin) {
        try { rb.complete(); } catch (const errors::invalid_moment_rule&) {
            c.checkf(!lin.consistent, [&] { return "rules rejected as contradictory, but they have a solution"; });
            c.label("contradiction");
            return false;
        }
        c.checkf(lin.consistent, [&] { return "contradictory rules accepted: " + show(rb); });
        c.check(!rb.pending_rules(), "rules pending after completion");
        return true;
    }
}

LAW(completion, "two or more rules, consistent", 24000, 900000) {
    auto w = gen_world(c);
    const auto& st = w.sys->Symbols();
    auto raw = gen_rules(c, *w.sys, 5);
    note_rules(c, raw);
    Linear lin{st};
    for (auto& p : raw) lin.add(st, p);
    lin.solve();
    if (lin.marginal) throw pbt::Discard{};
    MomentRulebook rb{*w.sys};
    c.check(rb.empty() && rb.is_monomial() && rb.is_hermitian(), "empty rulebook");
    if (c.coin()) { auto copy = raw; rb.add_raw_rules(std::move(copy)); } else for (auto& p : raw) rb.add_raw_rule(Polynomial{p});
    c.check(rb.raw_rule_size() == raw.size() && rb.pending_rules() == !raw.empty(), "raw rules counted");
    if (!complete(c, rb, lin)) return;
    c.nontrivial(rb.size() >= 2);
    bool partial = false;
    for (auto& [id, r] : rb) partial = partial || r.is_partial();
    if (partial) c.label("partial rule");
    if (rb.is_monomial()) c.label("monomial");
    check_book(c, w, rb, lin, raw);
}

LAW(order_and_batches, "two or more rules, consistent", 10000, 400000) {
    auto w = gen_world(c);
    const auto& st = w.sys->Symbols();
    const auto& f = w.sys->polynomial_factory();
    auto raw = gen_rules(c, *w.sys, 6);
    note_rules(c, raw);
    Linear lin{st};
    for (auto& p : raw) lin.add(st, p);
    lin.solve();
    if (lin.marginal) throw pbt::Discard{};
    MomentRulebook a{*w.sys}, b{*w.sys};
    auto cut = static_cast<long>(c.below(raw.size() + 1));
    a.add_raw_rules(std::vector<Polynomial>(raw.begin(), raw.begin() + cut));
    a.add_raw_rules(std::vector<Polynomial>(raw.begin() + cut, raw.end()));
    c.check(a.pending_rules() == !raw.empty(), "pending rules");
    // the same, shuffled and in several batches, sometimes rescaled or conjugated
    auto other = raw;
    c.shuffle(other);
    for (auto& p : other) {
        if (c.chance(30)) p = p.conjugate(st);
        cd g = gen_coef(c);
        if (c.chance(30) && g != 0.0) p *= g;
    }
    bool ok_b = true;
    try {
        for (auto& p : other) { b.add_raw_rule(Polynomial{p}); if (c.coin()) b.complete(); }
        b.complete();
    } catch (const errors::invalid_moment_rule&) { ok_b = false; }
    c.check(ok_b == lin.consistent, ok_b ? "contradiction missed when rules come in batches" : "contradiction reported when rules come in batches");
    if (!complete(c, a, lin)) return;
    c.nontrivial(a.size() >= 2);
    check_book(c, w, b, lin, raw);
    c.checkf(a.size() == b.size(), [&] { return "rulebook depends on the order of rules: " + show(a) + " or " + show(b); });
    for (auto& [id, r] : a) {
        auto it = b.find(id);
        c.checkf(it != b.end() && it->second.is_partial() == r.is_partial() && it->second.RHS().approximately_equals(r.RHS(), 1e9),
                 [&] { return "rulebook depends on the order of rules: " + show(a) + " or " + show(b); });
    }
    auto [cmp, x, y] = a.compare_rulebooks(b);
    c.check(cmp == MomentRulebook::RulebookComparisonResult::AEqualsB && !x && !y, "rulebooks with the same content compare different");
    (void)f;
}

LAW(combine_and_compare, "both rulebooks have rules, and neither contains the other", 10000, 400000) {
    auto w = gen_world(c);
    const auto& st = w.sys->Symbols();
    auto hidden = c.chance(80) ? std::make_shared<std::vector<cd>>(arbitrary_values(c, st)) : nullptr;
    auto ra = gen_rules(c, *w.sys, 3, hidden), rb = gen_rules(c, *w.sys, 3, hidden);
    if (c.chance(15)) ra.clear();
    if (c.chance(15)) rb.clear();
    if (c.chance(25) && !ra.empty()) rb = {c.pick(ra)};
    note_rules(c, ra);
    note_rules(c, rb);
    Linear la{st}, lb{st}, lu{st};
    for (auto& p : ra) { la.add(st, p); lu.add(st, p); }
    for (auto& p : rb) { lb.add(st, p); lu.add(st, p); }
    la.solve(); lb.solve(); lu.solve();
    if (la.marginal || lb.marginal || lu.marginal || !la.consistent || !lb.consistent) throw pbt::Discard{};
    MomentRulebook a{*w.sys}, b{*w.sys};
    a.add_raw_rules(std::vector<Polynomial>{ra});
    b.add_raw_rules(std::vector<Polynomial>{rb});
    a.set_name("first");
    b.set_name(c.coin() ? "second" : "");
    if (!complete(c, a, la) || !complete(c, b, lb)) c.fail("consistent rules rejected");
    bool b_in_a = std::all_of(rb.begin(), rb.end(), [&](auto& p) { return la.implies(st, p); });
    bool a_in_b = std::all_of(ra.begin(), ra.end(), [&](auto& p) { return lb.implies(st, p); });
    using R = MomentRulebook::RulebookComparisonResult;
    auto [cmp, only_a, only_b] = a.compare_rulebooks(b);
    auto want = a_in_b ? (b_in_a ? R::AEqualsB : R::BContainsA) : (b_in_a ? R::AContainsB : R::Disjoint);
    c.checkf(cmp == want, [&] { return pbt::str("comparison gives ", static_cast<int>(cmp), ", not ", static_cast<int>(want), ": ", show(a), " and ", show(b)); });
    c.check((only_a != nullptr) == !a_in_b && (only_b != nullptr) == !b_in_a, "rules reported as different");
    if (only_a) c.check(!lb.implies(st, only_a->as_polynomial(a.factory)), "rule reported as missing from B follows from B");
    if (only_b) c.check(!la.implies(st, only_b->as_polynomial(a.factory)), "rule reported as missing from A follows from A");
    c.nontrivial(want == R::Disjoint);
    std::string before = show(a);
    bool mono = a.is_monomial(), herm = a.is_hermitian();
    auto all = ra;
    all.insert(all.end(), rb.begin(), rb.end());
    try {
        a.combine_and_complete(std::move(b));
        c.check(lu.consistent, "contradictory rulebooks were combined");
        check_book(c, w, a, lu, all);
    } catch (const errors::invalid_moment_rule&) {
        c.check(!lu.consistent, "consistent rulebooks could not be combined");
        c.label("contradiction");
        c.checkf(show(a) == before && a.is_monomial() == mono && a.is_hermitian() == herm && !a.pending_rules(), [&] { return "failed merge changed the rulebook from " + before + " to " + show(a); });
        check_book(c, w, a, la, ra);
    }
    // the rulebook goes on working
    auto rest = gen_rules(c, *w.sys, 2, hidden);
    Linear l2{st};
    if (lu.consistent) for (auto& p : all) l2.add(st, p); else for (auto& p : ra) l2.add(st, p);
    for (auto& p : rest) l2.add(st, p);
    l2.solve();
    if (l2.marginal) return;
    a.add_raw_rules(std::vector<Polynomial>{rest});
    if (complete(c, a, l2)) check_book(c, w, a, l2, rest);
}

LAW(value_lists, "a value given to a symbol with two parts, or a zero", 2000, 80000) {
    auto w = gen_world(c);
    const auto& st = w.sys->Symbols();
    MomentRulebook rb{*w.sys};
    std::vector<Polynomial> raw;
    const auto& f = w.sys->polynomial_factory();
    bool complex = c.coin();
    std::map<symbol_name_t, double> rm;
    std::map<symbol_name_t, cd> cm;
    auto n = 1 + c.below(c.chance(10) ? 16 : 4);
    for (uint64_t k = 0; k < n; ++k) {
        auto id = static_cast<symbol_name_t>(c.chance(5) ? 1 : 2 + c.below(st.size() - 2));
        cd v = gen_coef(c);
        if (!complex) v = v.real();
        if (!(complex ? cm.emplace(id, v).second : rm.emplace(id, v.real()).second)) continue;
        raw.push_back(f({Monomial{id, 1.0}, Monomial{1, -v}}));
        c.note(pbt::str("#", id, " = ", v));
        c.nontrivial(v == 0.0 || (!st[static_cast<size_t>(id)].is_hermitian() && !st[static_cast<size_t>(id)].is_antihermitian()));
    }
    Linear lin{st};
    for (auto& p : raw) lin.add(st, p);
    lin.solve();
    if (complex) rb.add_raw_rules(cm); else rb.add_raw_rules(rm);
    if (!complete(c, rb, lin)) return;
    check_book(c, w, rb, lin, raw);
    c.check(rb.is_monomial() || lin.rank() > 0, "value rules are monomial");
    for (auto& [id, v] : cm) if (id > 1) { auto r = rb.reduce(Monomial{id}); c.check(v == 0.0 ? r.empty() : (r.size() == 1 && r[0].id == 1 && pbt::close(r[0].factor, v)), "value of symbol"); }
    for (auto& [id, v] : rm) if (id > 1) { auto r = rb.reduce(Monomial{id}); c.check(v == 0.0 ? r.empty() : (r.size() == 1 && r[0].id == 1 && pbt::close(r[0].factor, v)), "value of symbol"); }
}

LAW(injected_rules, "a rule is refused, because the symbol has one already", 2000, 80000) {
    auto w = gen_world(c);
    const auto& st = w.sys->Symbols();
    const auto& f = w.sys->polynomial_factory();
    MomentRulebook rb{*w.sys};
    std::map<symbol_name_t, Polynomial> model;
    auto n = 1 + c.below(c.chance(10) ? 16 : 5);
    for (uint64_t k = 0; k < n; ++k) {
        auto id = static_cast<symbol_name_t>(2 + c.below(st.size() - 2));
        // right-hand side over lower symbols that have no rule
        Polynomial::storage_t t;
        for (auto& m : gen_terms(c, st, 3)) if (f.key(Monomial{m.id}) < f.key(Monomial{id})) t.push_back(m);
        auto p = f(std::move(t));
        c.note(pbt::str("inject #", id, " -> ", show(p)));
        bool fresh = model.emplace(id, p).second;
        c.nontrivial(!fresh);
        c.check(rb.inject(id, Polynomial{p}) == fresh, "inject says whether the rule was added");
        c.check(rb.size() == model.size(), "size");
        bool mono = true, herm = true;
        for (auto& [i, q] : model) {
            auto it = rb.find(i);
            c.check(it != rb.end() && it->second.RHS().approximately_equals(q), "injected rule is there, and the first one stays");
            mono = mono && q.is_monomial();
            if (st[static_cast<size_t>(i)].is_hermitian()) herm = herm && q.is_hermitian(st, tol_multiplier);
        }
        c.check(rb.is_monomial() == mono, "is_monomial after inject");
        c.check(rb.is_hermitian() == herm, "is_hermitian after inject");
    }
}

LAW(as_matrix, "some rule, and a solution tested", 10000, 400000) {
    auto w = gen_world(c);
    const auto& st = w.sys->Symbols();
    const auto& f = w.sys->polynomial_factory();
    auto raw = gen_rules(c, *w.sys, 4);
    note_rules(c, raw);
    Linear lin{st};
    for (auto& p : raw) lin.add(st, p);
    lin.solve();
    if (lin.marginal || !lin.consistent) throw pbt::Discard{};
    MomentRulebook rb{*w.sys};
    rb.add_raw_rules(std::vector<Polynomial>{raw});
    if (!complete(c, rb, lin)) return;
    c.nontrivial(!rb.empty());
    const auto n = static_cast<Eigen::Index>(lin.nr + lin.ni);
    auto rewrite = c.coin() ? MomentRulebookToBasis{f, MomentRulebookToBasis::ExportMode::Rewrite}(rb)
                            : MomentRulebookToBasis{st, tol_multiplier}(rb);
    auto homog = MomentRulebookToBasis{f, MomentRulebookToBasis::ExportMode::Homogeneous}(rb);
    c.check(rewrite.rows() == n && rewrite.cols() == n && homog.rows() == n && homog.cols() == n, "shape");
    auto dense = [&](const Eigen::SparseMatrix<double>& m) { return Eigen::MatrixXd(m); };
    Eigen::MatrixXd R = dense(rewrite), H = dense(homog);
    auto vec = [&](const std::vector<cd>& v) {
        Eigen::VectorXd x(n);
        BasisValues b{st, v};
        for (size_t k = 0; k < b.re.size(); ++k) x[static_cast<Eigen::Index>(k)] = b.re[k];
        for (size_t k = 0; k < b.im.size(); ++k) x[static_cast<Eigen::Index>(lin.nr + k)] = b.im[k];
        x[0] = 1.0;
        return x;
    };
    auto sol = vec(lin.sample(c, st));
    c.checkf((R * sol - sol).norm() < 1e-6 * (1 + sol.norm()), [&] { return "the matrix moves a solution, with " + show(rb); });
    c.checkf((H * sol).norm() < 1e-6 * (1 + sol.norm()), [&] { return "homogeneous form is not zero at a solution, with " + show(rb); });
    auto any = vec(arbitrary_values(c, st));
    Eigen::VectorXd y = R * any;
    std::vector<double> yy(y.data(), y.data() + n);
    c.check(pbt::close(yy[0], 1.0), "identity is preserved");
    auto yv = lin.values(yy, st);
    yv[1] = 1.0;
    for (auto& p : raw) c.checkf(std::abs(eval(p, yv)) < 1e-6 * (1 + y.norm()), [&] { return "after rewriting, " + show(p) + " is not zero, with " + show(rb); });
    // homogeneous: zero exactly on solutions
    bool solves = true;
    auto av = arbitrary_values(c, st);
    for (auto& p : raw) if (std::abs(eval(p, av)) > 1e-6) solves = false;
    bool zero = (H * vec(av)).norm() < 1e-7;
    c.checkf(zero == solves, [&] { return pbt::str("homogeneous form is ", zero ? "zero" : "not zero", " at a point that ", solves ? "is" : "is not", " a solution, with ", show(rb)); });
    Eigen::FullPivLU<Eigen::MatrixXd> lu{H};
    lu.setThreshold(1e-8);
    c.check(static_cast<size_t>(lu.rank()) == lin.rank(), "rank of homogeneous form");
}

LAW(single_rules, "the polynomial mentions the symbol ruled on both plain and conjugated, or the rule fixes one direction only", 12000, 400000) {
    // one rule, made in each of the ways there are, applied by itself
    auto w = gen_world(c);
    const auto& st = w.sys->Symbols();
    const auto& f = w.sys->polynomial_factory();
    auto id = static_cast<symbol_name_t>(2 + c.below(st.size() - 2));
    auto& sym = st[static_cast<size_t>(id)];
    auto lower = [&](size_t most) {
        Polynomial::storage_t t;
        for (auto& m : gen_terms(c, st, most)) if (m.id < id && f.key(Monomial{m.id}) < f.key(Monomial{id})) t.push_back(m);
        return f(std::move(t));
    };
    std::optional<MomentRule> rule;
    auto v = arbitrary_values(c, st);
    auto at = static_cast<size_t>(id);
    auto kind = c.below(3);
    if (kind == 0) {
        rule.emplace(id, lower(4));
        c.check(!rule->is_partial() && rule->LHS() == id, "a rule as given");
    } else if (kind == 1) {
        if (sym.is_hermitian() || sym.is_antihermitian()) return;
        // the part of the symbol along one direction is a real combination of others
        auto angle = static_cast<double>(c.below(16)) * 3.14159265358979323846 / 8;
        cd d = std::polar(1.0, angle);
        auto real = lower(4).Real(f);
        c.note(pbt::str("#", id, " along ", d, " is ", show(real)));
        rule.emplace(f, id, d, Polynomial{real});
        c.check(rule->LHS() == id && rule->is_partial() && pbt::close(rule->partial_direction(), d), "a rule for one direction");
        c.nontrivial();
        auto other = gen_coef(c).real();
        auto sol = v;
        sol[at] = d * cd(eval(real, v).real(), other);
        c.checkf(pbt::close(eval(rule->RHS(), sol), sol[at]), [&] { return "the rule " + show(rule->RHS()) + pbt::str(" gives ", eval(rule->RHS(), sol), " for ", sol[at]); });
        sol[at] = d * cd(eval(real, v).real() + 1.0, other);
        c.checkf(!pbt::close(eval(rule->RHS(), sol), sol[at]), [&] { return "the rule " + show(rule->RHS()) + " allows any value"; });
        // and any value at all is mapped to one that satisfies it, keeping the part across
        auto image = eval(rule->RHS(), v);
        cd want = d * cd(eval(real, v).real(), (v[at] / d).imag());
        c.checkf(pbt::close(image, want), [&] { return "the rule " + show(rule->RHS()) + pbt::str(" maps ", v[at], " to ", image, ", expected ", want); });
    } else {
        auto p = f(gen_terms(c, st, 4));
        auto expect = MomentRule::PolynomialDifficulty::Simple;
        using D = MomentRule::PolynomialDifficulty;
        if (p.empty()) expect = D::Trivial;
        else if (p.back().id == 1) expect = D::Contradiction;
        else if (p.size() > 1 && p[p.size() - 2].id == p.back().id) expect = std::abs(std::abs(p[p.size() - 2].factor) - std::abs(p.back().factor)) < 1e-9 ? D::NonorientableRule : D::NeedsReorienting;
        c.checkf(MomentRule::get_difficulty(p, tol_multiplier) == expect, [&] { return "difficulty of " + show(p); });
        bool thrown = false;
        try { rule.emplace(f, Polynomial{p}); } catch (const errors::invalid_moment_rule&) { thrown = true; }
        c.check(thrown == (expect == D::Contradiction), "whether a rule is contradictory");
        if (thrown) return;
        c.check(rule->is_trivial() == (expect == D::Trivial), "whether a rule is trivial");
        if (rule->is_trivial()) { c.check(rule->as_polynomial(f).empty() && !rule->split(), "a trivial rule"); return; }
        id = rule->LHS();
        at = static_cast<size_t>(id);
        c.check(id == p.back().id, "the symbol ruled");
        c.check(rule->is_partial() == (expect == D::NonorientableRule), "whether a rule is partial");
        // with what was split off, it says just what the polynomial does
        Linear all{st}, parts{st};
        all.add(st, p);
        parts.add(st, rule->as_polynomial(f));
        auto rest = rule->split();
        if (rest) { parts.add(st, *rest); c.label("split"); }
        all.solve();
        parts.solve();
        c.check(!rule->split(), "what is split off is given once");
        c.checkf(all.consistent == parts.consistent, [&] { return "rule for " + show(p) + " is not as consistent"; });
        if (all.marginal || parts.marginal) throw pbt::Discard{};
        if (all.consistent) c.checkf(all.rank() == parts.rank() && all.implies(st, rule->as_polynomial(f)) && (!rest || all.implies(st, *rest)), [&] { return "rule for " + show(p) + pbt::str(" is #", id, " -> ") + show(rule->RHS()) + (rest ? " and " + show(*rest) : ""); });
    }
    c.note(pbt::str("#", id, " -> ", show(rule->RHS())));
    // put in a polynomial: the value is that with the symbol's value replaced
    for (int t = 0; t < 3; ++t) {
        auto terms = gen_terms(c, st, 5);
        if (c.coin()) terms.emplace_back(id, gen_coef(c), false);
        if (c.coin()) terms.emplace_back(id, gen_coef(c), true);
        auto q = f(std::move(terms));
        auto hits = std::count_if(q.begin(), q.end(), [&](const Monomial& m) { return m.id == id; });
        if (hits == 2) c.nontrivial();
        c.check(rule->matches(q) == (hits > 0), "whether a rule matches " + show(q));
        auto [n, it] = rule->match_info(q);
        c.check(static_cast<long>(n) == hits && (n == 0) == (it == q.end()) && (n == 0 || it->id == id), "match_info of " + show(q));
        auto u = v;
        u[at] = eval(rule->RHS(), v);
        auto got = rule->reduce(f, q);
        c.checkf(pbt::close(eval(got, v), eval(q, u), 1e-6), [&] { return show(q) + " becomes " + show(got) + pbt::str(", worth ", eval(got, v), ", expected ", eval(q, u)); });
        c.check(got.approximately_equals(f(Polynomial::storage_t(got.begin(), got.end())), tol_multiplier), "the result is not in canonical form: " + show(got));
        if (q.empty()) continue;
        auto m = q[c.below(q.size())];
        auto one = rule->reduce(f, m);
        c.checkf(pbt::close(eval(one, v), eval(m, u), 1e-6), [&] { return show(Polynomial{m}) + " becomes " + show(one); });
        if (rule->RHS().is_monomial()) {
            auto r = rule->reduce_monomial(st, m);
            c.checkf(pbt::close(eval(r, v), eval(m, u), 1e-6), [&] { return show(Polynomial{m}) + " becomes the monomial " + show(Polynomial{r}); });
        }
    }
}
