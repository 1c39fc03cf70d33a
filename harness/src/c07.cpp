// C07: polynomial arithmetic.
#include "../pbt.h"
#include "../poly_gen.h"
#include "scenarios/context.h"
#include "symbolic/monomial_comparator.h"
#include "symbolic/monomial_comparator_by_hash.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/polynomial_ordering.h"
#include "symbolic/symbol_table.h"
#include "dictionary/raw_polynomial.h"

using namespace Moment;
using namespace model;

namespace {
    using Terms = std::map<std::pair<symbol_name_t, bool>, cd>;

    struct Table {
        const SymbolTable& st;
        /** Fold conjugates of hermitian and antihermitian symbols, and drop zeros. */
        Terms canonical(const Terms& in) const {
            Terms out;
            for (auto& [k, f] : in) {
                auto& sym = st[static_cast<size_t>(k.first)];
                if (k.first == 0) continue;
                bool cj = k.second;
                cd g = f;
                if (cj && sym.is_hermitian()) cj = false;
                else if (cj && sym.is_antihermitian()) { cj = false; g = -g; }
                out[{k.first, cj}] += g;
            }
            for (auto i = out.begin(); i != out.end();) if (std::abs(i->second) < 1e-14) i = out.erase(i); else ++i;
            return out;
        }
        Terms conj(const Terms& in) const {
            Terms out;
            for (auto& [k, f] : in) out[{k.first, !k.second}] += std::conj(f);
            return canonical(out);
        }
    };
    Terms terms(const Polynomial::storage_t& p) { Terms t; for (auto& m : p) t[{m.id, m.conjugated}] += m.factor; return t; }
    Terms terms(const Polynomial& p) { Terms t; for (auto& m : p) t[{m.id, m.conjugated}] += m.factor; return t; }
    Terms plus(const Terms& a, const Terms& b, cd fa = 1.0, cd fb = 1.0) {
        Terms o;
        for (auto& [k, f] : a) o[k] += fa * f;
        for (auto& [k, f] : b) o[k] += fb * f;
        return o;
    }
    bool equal(const Terms& a, const Terms& b) {
        if (a.size() != b.size()) return false;
        for (auto& [k, f] : a) {
            auto i = b.find(k);
            if (i == b.end() || !pbt::close(f, i->second, 1e-12)) return false;
        }
        return true;
    }
    std::string show(const Terms& t) {
        std::stringstream ss;
        if (t.empty()) ss << "0";
        for (auto& [k, f] : t) ss << " + (" << f.real() << "," << f.imag() << ")#" << k.first << (k.second ? "*" : "");
        return ss.str();
    }
    void sound(const pbt::Case& c, const PolynomialFactory& f, const Polynomial& p, const std::string& what) {
        for (size_t k = 0; k < p.size(); ++k) {
            c.check(p[k].id != 0, what + ": has a zero term");
            c.check(std::abs(p[k].factor) > 1e-14, what + ": has a term with factor zero");
            auto& s = f.symbols[static_cast<size_t>(p[k].id)];
            c.check(!p[k].conjugated || !(s.is_hermitian() || s.is_antihermitian()), what + ": needless conjugation");
            if (k) c.check(f.less(p[k - 1], p[k]), what + ": terms out of order, or repeated");
        }
    }
}

LAW(arithmetic, "some symbol occurs twice, or both plain and conjugated", 60000, 2500000) {
    SceneOptions o;
    o.max_ops = 4;
    auto s = gen_scene(c, o);
    c.note(s.name);
    c.label(kind_name[s.kind]);
    SymbolTable st{s.context()};
    fill_table(c, s, st);
    auto f = gen_factory(c, st);
    Table tab{st};
    auto v = arbitrary_values(c, st);
    auto sa = gen_terms(c, st), sb = gen_terms(c, st, 4);
    std::set<symbol_name_t> ids;
    for (auto& m : sa) if (m.id > 1 && !ids.insert(m.id).second) c.nontrivial();
    auto ta = tab.canonical(terms(sa)), tb = tab.canonical(terms(sb));
    c.note("A =" + show(terms(sa)) + ", B =" + show(terms(sb)));
    auto A = (*f)(Polynomial::storage_t{sa}), B = (*f)(Polynomial::storage_t{sb});
    auto is = [&](const Polynomial& p, const Terms& want, cd val, const std::string& what) {
        sound(c, *f, p, what);
        c.checkf(equal(terms(p), want), [&] { return what + " is" + show(terms(p)) + ", expected" + show(want); });
        c.checkf(pbt::close(eval(p, v), val), [&] { return what + pbt::str(" is worth ", eval(p, v), ", expected ", val); });
    };
    cd va = value_of(sa, v), vb = value_of(sb, v);
    is(A, ta, va, "A");
    is(B, tb, vb, "B");
    // order in which the terms are given
    auto shuffled = sa;
    std::vector<Monomial> sv(sa.begin(), sa.end());
    c.shuffle(sv);
    std::copy(sv.begin(), sv.end(), shuffled.begin());
    c.check((*f)(Polynomial::storage_t{shuffled}) == A, "polynomial depends on the order of its terms");
    auto pre = sa;
    auto order = f->presort_data(pre);
    c.check(order.size() == sa.size() && pre.size() == sa.size(), "presort: size");
    std::set<size_t> perm;
    for (size_t k = 0; k < order.size(); ++k) {
        c.check(perm.insert(order[k]).second && order[k] < sa.size(), "presort: not a permutation");
        c.check(pre[k] == sa[order[k]], "presort: wrong element");
        if (k) c.check(!f->less(pre[k], pre[k - 1]), "presort: not sorted");
    }
    // sums
    auto ts = tab.canonical(plus(ta, tb));
    is(f->sum(A, B), ts, va + vb, "A+B");
    is(f->sum(B, A), ts, va + vb, "B+A");
    Polynomial C{A};
    f->append(C, B);
    is(C, ts, va + vb, "A appended by B");
    if (dynamic_cast<ByIDPolynomialFactory*>(f.get())) {
        is(A + B, ts, va + vb, "A + B by operator");
        Polynomial D{A};
        D += B;
        is(D, ts, va + vb, "A += B");
    }
    Polynomial E{A};
    f->append(E, A);
    is(E, tab.canonical(plus(ta, ta)), va + va, "A appended by itself");
    is(f->sum(A, A * cd{-1.0}), Terms{}, 0.0, "A-A");
    for (size_t k = 0; k < B.size(); ++k) {
        is(f->sum(A, B[k]), tab.canonical(plus(ta, terms(Polynomial{B[k]}))), va + eval(B[k], v), "A + monomial");
        for (size_t j = 0; j < A.size(); ++j)
            is(f->sum(A[j], B[k]), tab.canonical(plus(terms(Polynomial{A[j]}), terms(Polynomial{B[k]}))), eval(A[j], v) + eval(B[k], v), "monomial + monomial");
        if (!A.empty()) is(f->sum(A, Monomial{A[0].id, -A[0].factor, A[0].conjugated}), tab.canonical(plus(ta, terms(Polynomial{A[0]}), 1.0, -1.0)), va - eval(A[0], v), "A - its first term");
    }
    auto canonical = [&](Monomial m) {
        auto& sym = st[static_cast<size_t>(m.id)];
        if (m.conjugated && (sym.is_hermitian() || sym.is_antihermitian())) m.conjugated = false;
        return m;
    };
    for (auto m : sb) {  // any monomial, also zero
        m = canonical(m);
        is(f->sum(A, m), tab.canonical(plus(ta, Terms{{{m.id, m.conjugated}, m.factor}})), va + eval(m, v), "A + any monomial");
        for (auto n : sa) {
            n = canonical(n);
            is(f->sum(n, m), tab.canonical(plus(Terms{{{n.id, n.conjugated}, n.factor}}, Terms{{{m.id, m.conjugated}, m.factor}})), eval(n, v) + eval(m, v), "any monomial + any monomial");
        }
    }
    // scaling
    cd z = gen_coef(c);
    is(f->scale(A, z), tab.canonical(plus(ta, Terms{}, z)), z * va, "scaled A");
    is(A * z, tab.canonical(plus(ta, Terms{}, z)), z * va, "A times z");
    Polynomial F{A};
    F *= z;
    c.check(F == A * z, "*=");
    // conjugation, real and imaginary parts
    auto tc = tab.conj(ta);
    auto cj = A.conjugate(st);
    is(cj, tc, std::conj(va), "conjugate of A");
    c.check(cj.conjugate(st) == A, "A conjugated twice");
    is(A.Real(*f), tab.canonical(plus(ta, tc, 0.5, 0.5)), va.real(), "real part of A");
    is(A.Imaginary(*f), tab.canonical(plus(ta, tc, cd{0, -0.5}, cd{0, 0.5})), va.imag(), "imaginary part of A");
    c.check(f->sum(A.Real(*f), A.Imaginary(*f) * cd{0, 1}) == A, "Re + i Im");
    bool her = equal(ta, tc), anti = equal(ta, tab.canonical(plus(tc, Terms{}, -1.0)));
    for (int pass = 0; pass < 3; ++pass) {
        Polynomial P = pass == 0 ? A : pass == 1 ? A.Real(*f) : A.Imaginary(*f) * cd{0, 1};
        bool h = pass == 0 ? her : pass == 1 ? true : P.empty(), an = pass == 0 ? anti : pass == 2 ? true : P.empty();
        c.checkf(f->is_hermitian(P) == h, [&] { return show(terms(P)) + (h ? " is not" : " is") + " found hermitian"; });
        c.checkf(f->is_antihermitian(P) == an, [&] { return show(terms(P)) + (an ? " is not" : " is") + " found antihermitian"; });
    }
    c.check(A.is_conjugate(st, cj), "A is not found to be the conjugate of its conjugate");
    bool conj_b = equal(tc, tb);
    c.checkf(A.is_conjugate(st, B) == conj_b, [&] { return show(ta) + " is" + (conj_b ? " not" : "") + " found to be the conjugate of" + show(tb); });
    if (c.coin()) {  // nearly the conjugate
        auto near = sa;
        if (!near.empty()) {
            auto& e = near[c.below(near.size())];
            e = c.coin() ? Monomial{e.id, e.factor + gen_coef(c), e.conjugated} : Monomial{e.id, e.factor, !e.conjugated};
            auto N = (*f)(Polynomial::storage_t{near});
            bool w = equal(tab.conj(tab.canonical(terms(near))), tc);
            c.checkf(cj.is_conjugate(st, N) == w, [&] { return show(tc) + " is" + (w ? " not" : "") + " found to be the conjugate of" + show(tab.canonical(terms(near))); });
            c.checkf(A.is_conjugate(st, N) == equal(tab.canonical(terms(near)), tc), [&] { return show(ta) + pbt::str(" conjugate of") + show(tab.canonical(terms(near))) + "?"; });
            c.check((A == N) == equal(ta, tab.canonical(terms(near))), "equality of A and its neighbour");
            c.check((A != N) == !(A == N), "!=");
        }
    }
    c.checkf((A == B) == equal(ta, tb), [&] { return show(ta) + " == " + show(tb); });
    // conjugates written needlessly
    {
        Polynomial raw{Polynomial::storage_t{sa}};   // by ID only: no folding of conjugates
        if (dynamic_cast<ByIDPolynomialFactory*>(f.get())) {
            bool any = false;
            for (auto& m : raw) if (m.conjugated && (st[static_cast<size_t>(m.id)].is_hermitian() || st[static_cast<size_t>(m.id)].is_antihermitian())) any = true;
            auto fixed = raw;
            c.check(fixed.fix_cc_in_place(st, true) == any, "fix_cc_in_place reports");
            is(fixed, ta, va, "A with conjugates repaired");
            c.check(raw.fix_cc(st, true) == fixed, "fix_cc");
        }
    }
    // small questions
    size_t deg = 0;
    for (auto& [k, x] : ta) if (k.first > 1 && st[static_cast<size_t>(k.first)].has_sequence()) deg = std::max(deg, st[static_cast<size_t>(k.first)].sequence().size());
    c.checkf(f->maximum_degree(A) == deg, [&] { return pbt::str("degree ", f->maximum_degree(A), ", expected ", deg); });
    c.check(A.is_monomial() == (ta.size() <= 1), "is_monomial");
    bool thrown = false;
    Monomial m0;
    try { m0 = static_cast<Monomial>(A); } catch (const std::logic_error&) { thrown = true; }
    c.check(thrown == (ta.size() > 1), "converting to a monomial");
    if (!thrown) c.check(pbt::close(eval(m0, v), va), "value of A as monomial");
    bool real = true;
    for (auto& [k, x] : ta) real = real && std::abs(x.imag()) < 1e-13;
    c.check(A.real_factors() == real, "real_factors");
    c.check(A.size() == ta.size() && A.empty() == ta.empty(), "size");
    c.check(A.first_id() == (A.empty() ? 0 : A[0].id) && A.last_id() == (A.empty() ? 0 : A[A.size() - 1].id), "first and last id");
}

LAW(rounding, "some factor is almost, but not exactly, real or imaginary", 20000, 500000) {
    Context ctx{2};
    SymbolTable st{ctx};
    st.create(4, true, true);
    ByIDPolynomialFactory f{st};
    double tol = c.pick(std::vector<double>{1.0, 10.0, 1000.0, 1e6});
    const double eps = std::numeric_limits<double>::epsilon() * tol;
    Polynomial::storage_t s;
    Terms want;
    auto n = static_cast<symbol_name_t>(c.range(1, 4));
    c.note(pbt::str("tolerance ", tol));
    for (symbol_name_t id = 2; id < 2 + n; ++id) {
        double a = static_cast<double>(c.range(1, 3)) * (c.coin() ? 1 : -1), b = 0;
        auto how = c.below(4);
        b = how == 0 ? 0.0 : how == 1 ? eps * 0.01 : how == 2 ? eps * 50 : 1.0;
        if (how == 1) c.nontrivial();
        bool swap = c.coin();
        cd x = swap ? cd{b, a} : cd{a, b};
        cd y = how == 1 ? (swap ? cd{0, a} : cd{a, 0}) : x;
        s.emplace_back(id, x, false);
        want[{id, false}] = y;
        c.note(pbt::str(x));
    }
    auto p = f(Polynomial::storage_t{s});
    p.real_or_imaginary_if_close(tol);
    for (auto& m : p) {
        auto w = want[{m.id, m.conjugated}];
        c.checkf(m.factor == w, [&] { return pbt::str("factor becomes (", m.factor.real(), ", ", m.factor.imag(), "), expected (", w.real(), ", ", w.imag(), ")"); });
    }
    // terms below the tolerance vanish, terms above do not
    PolynomialFactory* fac[2];
    ByIDPolynomialFactory byid{st, tol};
    ByHashPolynomialFactory byhash{st, tol};
    fac[0] = &byid; fac[1] = &byhash;
    cd small{0.3 * eps, c.coin() ? 0.3 * eps : 0.0}, large{0.0, 4.0 * eps};
    for (auto* g : fac) {
        c.check((*g)({Monomial{2, small}}).empty(), "a term below the tolerance is kept");
        c.check((*g)({Monomial{2, large}}).size() == 1, "a term above the tolerance is dropped");
        auto P = (*g)({Monomial{2, 1.0}, Monomial{3, 1.0}});
        c.check(g->sum(P, Monomial{2, -1.0 + 0.3 * eps}).size() == 1, "sum: a term below the tolerance is kept");
        c.check(g->sum(P, (*g)({Monomial{2, -1.0 + 0.3 * eps}})).size() == 1, "sum: a term below the tolerance is kept");
        c.check(g->sum(Monomial{2, 1.0}, Monomial{2, -1.0 + 0.3 * eps}).empty(), "sum of monomials: a term below the tolerance is kept");
        auto Q = P;
        g->append(Q, (*g)({Monomial{2, -1.0 + 0.3 * eps}}));
        c.check(Q.size() == 1, "append: a term below the tolerance is kept");
        c.check(g->scale(P, small).empty(), "scaling by a factor below the tolerance");
    }
}

LAW(order, "three different polynomials", 30000, 900000) {
    SceneOptions o;
    o.max_ops = 4;
    auto s = gen_scene(c, o);
    c.note(s.name);
    SymbolTable st{s.context()};
    fill_table(c, s, st);
    auto f = gen_factory(c, st);
    std::vector<Polynomial> p;
    for (int k = 0; k < 3; ++k) p.push_back(k && c.chance(30) ? p[0] * gen_coef(c) : (*f)(gen_terms(c, st, 3)));
    for (auto& x : p) c.note(show(terms(x)));
    c.nontrivial(p[0] != p[1] && p[1] != p[2] && p[0] != p[2]);
    PolynomialOrdering plain{*f};
    PolynomialOrderingWithCoefficients with{*f};
    auto same_support = [&](const Polynomial& a, const Polynomial& b) {
        if (a.size() != b.size()) return false;
        for (size_t k = 0; k < a.size(); ++k) if (a[k].id != b[k].id || a[k].conjugated != b[k].conjugated) return false;
        return true;
    };
    for (auto& a : p) for (auto& b : p) {
        c.checkf(!(plain(a, b) && plain(b, a)) && (plain(a, b) || plain(b, a)) != same_support(a, b), [&] { return "order of" + show(terms(a)) + " and" + show(terms(b)); });
        c.checkf(!(with(a, b) && with(b, a)) && (with(a, b) || with(b, a)) != (a == b), [&] { return "order with coefficients of" + show(terms(a)) + " and" + show(terms(b)); });
        for (auto& d : p) {
            c.check(!plain(a, b) || !plain(b, d) || plain(a, d), "order is not transitive");
            c.check(!with(a, b) || !with(b, d) || with(a, d), "order with coefficients is not transitive");
        }
        if (!a.empty() && !b.empty() && f->less(a.back(), b.back())) c.check(plain(a, b) && with(a, b), "leading term does not decide");
    }
    // keys, and order, of monomials
    std::vector<Monomial> ms;
    for (size_t id = 0; id < st.size(); ++id) for (bool cj : {false, true}) ms.emplace_back(static_cast<symbol_name_t>(id), 1.0, cj);
    IdMoreComparator more;
    for (auto& a : ms) for (auto& b : ms) {
        bool same = a.id == b.id && a.conjugated == b.conjugated;
        c.check((f->key(a) == f->key(b)) == same, "keys of different monomials coincide");
        c.check(f->less(a, b) == (f->key(a) < f->key(b)), "key does not follow the order");
        c.check(!same || !f->less(a, b), "a monomial is below itself");
        if (a.id != b.id) c.check(more(a, b) == (a.id > b.id) && (more.key(a) < more.key(b)) == more(a, b), "descending order");
    }
}

LAW(raw, "two raw polynomials of two or more terms each", 60000, 2000000) {
    SceneOptions o;
    o.max_ops = 6;
    auto s = gen_scene(c, o);
    c.note(s.name);
    c.label(kind_name[s.kind]);
    auto& ctx = s.context();
    using Sum = std::map<Ops, cd>;
    auto gen = [&](RawPolynomial& p, Sum& m) {
        auto n = c.below(4);
        for (uint64_t k = 0; k < n; ++k) {
            Ops w = s.word(c, 3);
            int sg = static_cast<int>(c.below(4));
            cd x = gen_coef(c);
            p.emplace_back(to_seq(ctx, w, sg), x);
            auto nf = s.normal(w, sg);
            c.note(pbt::str("(", x.real(), ",", x.imag(), ") i^", sg) + text(w));
            if (!nf.zero) m[nf.ops] += x * i_to(nf.sign);
        }
        c.note(";");
    };
    auto clean = [](Sum m) { for (auto i = m.begin(); i != m.end();) if (std::abs(i->second) < 1e-14) i = m.erase(i); else ++i; return m; };
    auto is = [&](const RawPolynomial& p, const Sum& want_in, const std::string& what) {
        auto want = clean(want_in);
        Sum got;
        for (auto& t : p) {
            auto w = from_seq(t.sequence);
            c.check(!w.zero && w.sign == 0, what + ": term is zero or carries a phase");
            c.check(got.emplace(w.ops, t.weight).second, what + ": a word occurs twice");
        }
        c.checkf(got.size() == want.size(), [&] { return what + pbt::str(": ", got.size(), " terms, expected ", want.size()); });
        for (auto& [w, x] : want) c.checkf(got.count(w) && pbt::close(got[w], x), [&] { return what + ": factor of " + text(w) + pbt::str(" is ", got[w], ", expected ", x); });
    };
    RawPolynomial A, B;
    Sum a, b;
    gen(A, a);
    gen(B, b);
    c.nontrivial(a.size() > 1 && b.size() > 1);
    auto CA = A, CB = B;
    CA.condense();
    CB.condense();
    is(CA, a, "A");
    is(CB, b, "B");
    Sum sum = a, dif = a, prod;
    for (auto& [w, x] : b) { sum[w] += x; dif[w] -= x; }
    for (auto& [w, x] : a) for (auto& [u, y] : b) {
        auto r = s.mul(Word{false, 0, w}, Word{false, 0, u});
        if (!r.zero) prod[r.ops] += x * y * i_to(r.sign);
    }
    is(RawPolynomial::add(A, B), sum, "A+B");
    is(RawPolynomial::subtract(A, B), dif, "A-B");
    is(RawPolynomial::subtract(A, A), Sum{}, "A-A");
    bool short_enough = true;
    for (auto& [w, x] : a) for (auto& [u, y] : b) short_enough = short_enough && w.size() + u.size() <= s.max_len * 2;
    if (short_enough) {
        is(ctx.Context::multiply(A, B), prod, "AB");
        auto viaf = RawPolynomial::distributed_product(A, B, [&](const OperatorSequence& l, const OperatorSequence& r) { return l * r; },
                                                       [](cd l, cd r) { return l * r; });
        is(viaf, prod, "AB by distributed product");
    }
    auto ca = clean(a);
    c.check(CA.is_scalar() == (ca.empty() || (ca.size() == 1 && ca.begin()->first.empty())), "is_scalar");
    // as symbols, and back
    SymbolTable st{ctx};
    auto f = gen_factory(c, st);
    auto P = A.to_polynomial_register_symbols(*f, st);
    auto v = s.symbol_values(st);
    cd va = 0;
    for (auto& [w, x] : a) va += x * s.value(Word{false, 0, w});
    sound(c, *f, P, "symbolic A");
    c.checkf(pbt::close(eval(P, v), va), [&] { return pbt::str("symbolic A is worth ", eval(P, v), ", expected ", va); });
    auto P2 = A.to_polynomial(*f);
    c.check(P2 == P, "symbolic A changes once its symbols are registered");
    c.check(CA.to_polynomial(*f) == P, "symbolic A changes when A is condensed");
    RawPolynomial back{P, st};
    c.checkf(pbt::close(s.value(back), va), [&] { return pbt::str("A turned to symbols and back is worth ", s.value(back), ", expected ", va); });
    auto Q = B.to_polynomial_register_symbols(*f, st);
    v = s.symbol_values(st);
    c.check(A.to_polynomial(*f) == P || dynamic_cast<ByIDPolynomialFactory*>(f.get()) == nullptr, "symbolic A changes when more symbols are registered");
    auto S = RawPolynomial::add(A, B).to_polynomial(*f);
    c.checkf(S == f->sum(P, Q), [&] { return "symbols of A+B:" + show(terms(S)) + ", sum of the symbolic forms:" + show(terms(f->sum(P, Q))); });
    // words nobody registered are refused
    SymbolTable empty{ctx};
    ByIDPolynomialFactory ef{empty};
    bool known = true, thrown = false;
    for (auto& t : A) if (!t.sequence.zero() && !t.sequence.empty()) known = false;
    try { auto x = A.to_polynomial(ef); (void)x; } catch (const errors::unregistered_operator_sequence&) { thrown = true; }
    c.check(thrown == !known, "unregistered words");
}
