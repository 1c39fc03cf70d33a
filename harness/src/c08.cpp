// C08: basis vectors and matrix bases.
#include "../pbt.h"
#include "../basis_check.h"
#include "../poly_gen.h"
#include "matrix/matrix_basis.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "symbolic/polynomial_to_basis.h"
#include "symbolic/polynomial_to_basis_mask.h"
#include "symbolic/symbol_errors.h"
#include <barrier>
#include <thread>
#include <Eigen/Dense>
#include <Eigen/SparseCore>

using namespace Moment;
using namespace model;

namespace {
    template<class V> cd dot(const V& vec, const std::vector<double>& x, const pbt::Case& c, const std::string& what) {
        c.check(static_cast<size_t>(vec.size()) == x.size(), what + ": length of the vector");
        cd r = 0;
        Eigen::Index last = -1;
        for (typename V::InnerIterator it(vec); it; ++it) {
            c.check(it.index() > last && it.index() < vec.size(), what + ": entries out of order");
            last = it.index();
            r += cd{it.value()} * x[static_cast<size_t>(it.index())];
        }
        return r;
    }
    Eigen::SparseVector<double> real_part(const Eigen::SparseVector<cd>& v) { Eigen::SparseVector<double> o(v.size()); for (Eigen::SparseVector<cd>::InnerIterator it(v); it; ++it) o.insert(it.index()) = it.value().real(); return o; }
}

LAW(vectors, "some symbol occurs both plain and conjugated, or with a factor that is not real", 40000, 1500000) {
    SceneOptions o;
    o.max_ops = 4;
    auto s = gen_scene(c, o);
    c.note(s.name);
    c.label(kind_name[s.kind]);
    SymbolTable st{s.context()};
    fill_table(c, s, st);
    auto f = gen_factory(c, st);
    auto v = arbitrary_values(c, st);
    BasisValues b{st, v};
    std::vector<Polynomial> ps;
    auto many = static_cast<size_t>(c.range(1, 3));
    PolynomialToBasisVec to{st, 1.0};
    PolynomialToComplexBasisVec toc{st, 1.0};
    PolynomialToBasisMask mask{st, 1.0};
    auto nre = static_cast<Eigen::Index>(b.re.size()), nim = static_cast<Eigen::Index>(b.im.size());
    auto collective = mask.empty_mask();
    std::set<symbol_name_t> all_re, all_im;
    for (size_t k = 0; k < many; ++k) {
        auto p = (*f)(gen_terms(c, st));
        ps.push_back(p);
        c.note(pbt::str(p));
        for (size_t j = 0; j < p.size(); ++j) if (std::abs(p[j].factor.imag()) > 0 || (j && p[j - 1].id == p[j].id)) c.nontrivial();
        cd want = eval(p, v);
        auto is = [&](cd got, cd w, const std::string& what) { c.checkf(pbt::close(got, w), [&] { return what + pbt::str(" gives ", got, ", expected ", w); }); };
        auto both = to(p);
        is(dot(both.real_part.real, b.re, c, "re") + dot(both.real_part.imaginary, b.im, c, "im"), want.real(), "real part");
        is(dot(both.imaginary_part.real, b.re, c, "re") + dot(both.imaginary_part.imaginary, b.im, c, "im"), want.imag(), "imaginary part");
        auto re = to.Real(p), im = to.Imaginary(p);
        is(dot(re.real, b.re, c, "re") + dot(re.imaginary, b.im, c, "im"), want.real(), "real part alone");
        is(dot(im.real, b.re, c, "re") + dot(im.imaginary, b.im, c, "im"), want.imag(), "imaginary part alone");
        auto cx = toc(p);
        is(dot(cx.real, b.re, c, "re") + dot(cx.imaginary, b.im, c, "im"), want, "complex vector");
        ComplexBasisVector cv{both};
        is(dot(cv.real, b.re, c, "re") + dot(cv.imaginary, b.im, c, "im"), want, "complex vector from real and imaginary part");
        // and rows of triplets
        std::vector<Eigen::Triplet<double>> tre, tim, tall;
        Eigen::Index r0 = c.range(-1, 3), r1 = c.range(-1, 3);
        to.add_triplet_row(p, r0, r1, tre, tim);
        to.add_triplet_row(p, r0, r1, tall);
        cd got = 0, got_all = 0;
        auto at = [&](const Eigen::Triplet<double>& t) {
            c.check(t.col() >= 0 && t.col() < nre + nim, "triplet: column");
            return t.value() * (t.col() < nre ? b.re[static_cast<size_t>(t.col())] : b.im[static_cast<size_t>(t.col() - nre)]);
        };
        for (auto& t : tre) { c.check(t.row() == r0 && r0 >= 0, "real triplets: row"); got += at(t); }
        for (auto& t : tim) { c.check(t.row() == r1 && r1 >= 0, "imaginary triplets: row"); got += cd{0, 1} * at(t); }
        cd w{r0 >= 0 ? want.real() : 0.0, r1 >= 0 ? want.imag() : 0.0};
        is(got, w, "triplets");
        std::set<std::pair<Eigen::Index, Eigen::Index>> places;
        for (auto& t : tall) {
            c.check(places.emplace(t.row(), t.col()).second || (r1 >= 0 && r0 == r1 + nre), "combined triplets: a place occurs twice");
            bool is_re = r0 >= 0 && t.row() == r0 && (r1 < 0 || r0 != r1 + nre), is_im = r1 >= 0 && t.row() == r1 + nre;
            c.check(is_re || is_im || r0 == r1 + nre, "combined triplets: row");
            got_all += (is_re ? cd{1, 0} : cd{0, 1}) * at(t);
        }
        if (r0 < 0 || r1 < 0 || r0 != r1 + nre) is(got_all, w, "combined triplets");
        // which basis elements the polynomial touches
        auto [mre, mim] = mask(p);
        std::set<symbol_name_t> wre, wim;
        for (Eigen::SparseVector<cd>::InnerIterator it(cx.real); it; ++it) wre.insert(static_cast<symbol_name_t>(it.index()));
        for (Eigen::SparseVector<cd>::InnerIterator it(cx.imaginary); it; ++it) wim.insert(static_cast<symbol_name_t>(it.index()));
        auto [gre, gim] = PolynomialToBasisMask::masks_to_sets(mre, mim);
        c.check(gre == wre, "mask of real elements");
        c.check(gim == wim, "mask of imaginary elements");
        mask.set_bits(collective.first, collective.second, p);
        all_re.insert(wre.begin(), wre.end());
        all_im.insert(wim.begin(), wim.end());
        for (auto& m : p) {
            auto em = mask.empty_mask();
            mask.set_bits(em.first, em.second, m);
            auto [r, i] = st[static_cast<size_t>(m.id)].basis_key();
            std::set<symbol_name_t> a, bb;
            if (r >= 0) a.insert(static_cast<symbol_name_t>(r));
            if (i >= 0) bb.insert(static_cast<symbol_name_t>(i));
            c.check(em.first.to_set() == a && em.second.to_set() == bb, pbt::str("mask of the monomial ", m));
            if (p.size() == 1 && !m.conjugated) continue;
        }
    }
    c.check(collective.first.to_set() == all_re && collective.second.to_set() == all_im, "mask of several polynomials");
    auto mono = toc(std::span<const Polynomial>(ps));
    c.check(mono.real.rows() == nre && mono.imaginary.rows() == nim && mono.real.cols() == static_cast<Eigen::Index>(many) && mono.imaginary.cols() == static_cast<Eigen::Index>(many), "size of the monolith");
    for (size_t k = 0; k < many; ++k) {
        cd got = 0;
        for (Eigen::Index i = 0; i < nre; ++i) got += mono.real.coeff(i, static_cast<Eigen::Index>(k)) * b.re[static_cast<size_t>(i)];
        for (Eigen::Index i = 0; i < nim; ++i) got += mono.imaginary.coeff(i, static_cast<Eigen::Index>(k)) * b.im[static_cast<size_t>(i)];
        c.checkf(pbt::close(got, eval(ps[k], v)), [&] { return pbt::str("column ", k, " of the monolith gives ", got, ", expected ", eval(ps[k], v)); });
    }
    // unknown symbols are refused
    Polynomial bad{Monomial{static_cast<symbol_name_t>(st.size()), 1.0}};
    auto refused = [&](auto&& g) { try { g(); } catch (const errors::unknown_symbol&) { return true; } return false; };
    c.check(refused([&] { (void)to(bad); }) && refused([&] { (void)toc(bad); }) && refused([&] { (void)toc(std::span<const Polynomial>(&bad, 1)); }), "unknown symbol");
}

LAW(from_vectors, "two or more non-zero entries", 30000, 900000) {
    SceneOptions o;
    o.max_ops = 4;
    auto s = gen_scene(c, o);
    c.note(s.name);
    SymbolTable st{s.context()};
    fill_table(c, s, st);
    auto f = gen_factory(c, st);
    auto v = arbitrary_values(c, st);
    BasisValues b{st, v};
    auto size_re = static_cast<Eigen::Index>(b.re.size()), size_im = static_cast<Eigen::Index>(b.im.size());
    bool extra_re = c.chance(4), extra_im = c.chance(4);
    Eigen::SparseVector<double> re(size_re + extra_re), im(size_im + extra_im);
    Eigen::SparseVector<cd> cre(size_re + extra_re), cim(size_im + extra_im);
    cd want = 0, cwant = 0;
    int entries = 0;
    bool beyond = false;
    auto put = [&](auto& d, auto& z, const std::vector<double>& x, bool imag, cd unit) {
        for (Eigen::Index i = 0; i < d.size(); ++i) {
            if (!c.chance(50)) continue;
            cd q = gen_coef(c);
            if (std::abs(q) == 0) continue;
            if (static_cast<size_t>(i) >= x.size()) { beyond = true; }
            double r = q.real() != 0 ? q.real() : 1.0;
            c.note(pbt::str(imag ? "im" : "re", i, "=", r, ",", q));
            d.insert(i) = r;
            z.insert(i) = q;
            ++entries;
            if (static_cast<size_t>(i) < x.size()) {
                want += unit * r * x[static_cast<size_t>(i)];
                cwant += unit * q * x[static_cast<size_t>(i)];
            }
        }
    };
    put(re, cre, b.re, false, 1.0);
    put(im, cim, b.im, true, cd{0, 1});
    c.nontrivial(entries > 1);
    bool thrown = false;
    Polynomial p, q;
    try { p = BasisVecToPolynomial{*f}(re, im); q = ComplexBasisVecToPolynomial{*f}(cre, cim); } catch (const errors::unknown_basis_elem&) { thrown = true; }
    c.check(thrown == beyond, beyond ? "entry outside the basis is accepted" : "vector is refused");
    if (thrown) return;
    c.checkf(pbt::close(eval(p, v), want), [&] { return pbt::str("polynomial from vectors is worth ", eval(p, v), ", expected ", want); });
    c.checkf(pbt::close(eval(q, v), cwant), [&] { return pbt::str("polynomial from complex vectors is worth ", eval(q, v), ", expected ", cwant); });
    // and back: its complex vector holds the same numbers, with those of the imaginary basis multiplied by i
    auto back = PolynomialToComplexBasisVec{st, 1.0}(q);
    auto same = [&](const Eigen::SparseVector<cd>& x, const Eigen::SparseVector<cd>& y, cd unit) {
        if (x.size() > y.size()) return false;
        for (Eigen::Index i = 0; i < x.size(); ++i) if (!pbt::close(x.coeff(i), unit * y.coeff(i))) return false;
        return true;
    };
    c.check(same(back.real, cre, 1.0) && same(back.imaginary, cim, cd{0, 1}), "vectors do not come back");
}

namespace {
    template<class T> std::unique_ptr<SquareMatrix<T>> square(size_t dim, const std::vector<T>& rowmajor) {
        std::vector<T> data;
        for (size_t j = 0; j < dim; ++j) for (size_t i = 0; i < dim; ++i) data.push_back(rowmajor[i * dim + j]);
        return std::make_unique<SquareMatrix<T>>(dim, std::move(data));
    }
    bool hermitian(const Grid& g, size_t dim) {
        for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) if (!pbt::close(g[i * dim + j], std::conj(g[j * dim + i]))) return false;
        return true;
    }
}

LAW(matrices, "some element is complex, and some symbol occurs in two elements", 12000, 400000) {
    SceneOptions o;
    o.max_ops = 4;
    auto s = gen_scene(c, o);
    c.note(s.name);
    SymbolTable st{s.context()};
    fill_table(c, s, st, 7);
    auto f = gen_factory(c, st);
    auto v = arbitrary_values(c, st);
    BasisValues b{st, v};
    auto dim = static_cast<size_t>(c.range(1, 4));
    bool herm = c.coin(), real = c.chance(60), mono = c.coin();
    c.label(pbt::str(mono ? "monomial" : "polynomial", herm ? " hermitian" : "", real ? " real" : ""));
    c.note(pbt::str("dimension ", dim));
    std::vector<Polynomial> el(dim * dim);
    for (size_t i = 0; i < dim; ++i) for (size_t j = herm ? i : 0; j < dim; ++j) {
        Polynomial p = (*f)(gen_terms(c, st, mono ? 1 : 3, real));
        if (herm && i == j) {
            p = p.Real(*f);
            if (mono && p.size() > 1) p = Polynomial{};
        }
        el[i * dim + j] = p;
        if (herm) el[j * dim + i] = p.conjugate(st);
    }
    Grid want;
    std::map<symbol_name_t, int> uses;
    bool complex_value = false, complex_coefs = false;
    std::set<symbol_name_t> re_basis, im_basis;
    PolynomialToComplexBasisVec vec{st, 1.0};
    for (auto& p : el) {
        want.push_back(eval(p, v));
        if (std::abs(want.back().imag()) > 1e-9) complex_value = true;
        for (auto& t : p) { ++uses[t.id]; if (std::abs(t.factor.imag()) > 0) complex_coefs = true; }
        auto x = vec(p);
        for (Eigen::SparseVector<cd>::InnerIterator it(x.real); it; ++it) re_basis.insert(static_cast<symbol_name_t>(it.index()));
        for (Eigen::SparseVector<cd>::InnerIterator it(x.imaginary); it; ++it) im_basis.insert(static_cast<symbol_name_t>(it.index()));
        c.note(pbt::str(p));
    }
    c.nontrivial(complex_value && std::any_of(uses.begin(), uses.end(), [](auto& u) { return u.second > 1; }));
    std::unique_ptr<SymbolicMatrix> m;
    if (mono) {
        std::vector<Monomial> ms;
        for (auto& p : el) ms.push_back(p.empty() ? (c.coin() ? Monomial{0, 0.0} : Monomial{static_cast<symbol_name_t>(c.below(st.size())), 0.0}) : p[0]);
        m = std::make_unique<MonomialMatrix>(s.context(), st, 1.0, square(dim, ms), herm);
        auto& mm = static_cast<MonomialMatrix&>(*m);
        for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) c.check(pbt::close(eval(mm.SymbolMatrix(i, j), v), want[i * dim + j]), "element of the matrix");
    } else {
        m = std::make_unique<PolynomialMatrix>(s.context(), st, 1.0, square(dim, el));
        auto& pm = static_cast<PolynomialMatrix&>(*m);
        for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) c.check(pm.SymbolMatrix(i, j) == el[i * dim + j], "element of the matrix");
        bool is = true;
        for (size_t i = 0; i < dim; ++i) for (size_t j = i; j < dim; ++j) is = is && el[j * dim + i] == el[i * dim + j].conjugate(st);
        c.checkf(m->Hermitian() == is, [&] { return pbt::str("matrix is", is ? " not" : "", " found hermitian"); });
    }
    if (m->Hermitian()) c.check(hermitian(want, dim), "the matrix calls itself hermitian, and is not");
    c.check(m->Dimension() == dim, "dimension");
    std::set<symbol_name_t> inc;
    for (auto& [id, n] : uses) inc.insert(id);
    auto got_inc = m->IncludedSymbols();
    got_inc.erase(0);
    c.check(got_inc == inc, "included symbols");
    c.check(m->RealBasisIndices() == re_basis, "indices of real basis elements");
    c.check(m->ImaginaryBasisIndices() == im_basis, "indices of imaginary basis elements");
    c.check(m->HasComplexBasis() == !im_basis.empty(), "HasComplexBasis");
    for (auto& [id, k] : m->BasisKey()) c.check(k == st[static_cast<size_t>(id)].basis_key(), "basis key");
    all_bases(c, *m, b, want, complex_coefs);
}

RACY_LAW(concurrent_bases, "two threads or more ask for the same basis of a matrix with several symbols", 1500, 40000) {
    SceneOptions o;
    o.max_ops = 3;
    auto s = gen_scene(c, o);
    SymbolTable st{s.context()};
    fill_table(c, s, st, 6);
    auto f = gen_factory(c, st);
    auto v = arbitrary_values(c, st);
    BasisValues b{st, v};
    auto dim = static_cast<size_t>(c.range(1, 4));
    std::vector<Polynomial> el;
    Grid want;
    bool complex_coefs = false;
    for (size_t i = 0; i < dim * dim; ++i) {
        el.push_back((*f)(gen_terms(c, st, 3, c.coin())));
        want.push_back(eval(el.back(), v));
        for (auto& t : el.back()) if (std::abs(t.factor.imag()) > 0) complex_coefs = true;
        c.note(pbt::str(el.back()));
    }
    const PolynomialMatrix m{s.context(), st, 1.0, square(dim, el)};
    const auto threads = static_cast<size_t>(c.range(2, 4));
    std::vector<std::vector<size_t>> ask(threads);
    for (size_t t = 0; t < threads; ++t) {
        if (t && c.coin()) ask[t] = ask[0]; else for (size_t k = c.range(1, 4); k > 0; --k) ask[t].push_back(c.below(8));
        for (auto k : ask[t]) if (t && std::find(ask[0].begin(), ask[0].end(), k) != ask[0].end() && m.IncludedSymbols().size() > 2) c.nontrivial();
        c.note(pbt::str("thread ", t, ":", pbt::join(ask[t])));
    }
    // what a thread saw of a basis, at once and without waiting for the others
    auto weigh = [](const auto& two) {
        cd sum = 0;
        auto one = [&](const auto& part, auto&& one_more) -> void {
            if constexpr (requires { part.begin()->rows(); }) { for (auto& x : part) one_more(x, one_more); }
            else if constexpr (requires { part.nonZeros(); part.innerIndexPtr(); }) {
                for (Eigen::Index k = 0; k < part.outerSize(); ++k) for (typename std::decay_t<decltype(part)>::InnerIterator it(part, k); it; ++it) sum += cd{it.value()} * static_cast<double>(1 + it.row() + 7 * it.col());
            } else for (Eigen::Index j = 0; j < part.cols(); ++j) for (Eigen::Index i = 0; i < part.rows(); ++i) sum += cd{part(i, j)} * static_cast<double>(1 + i + 7 * j);
        };
        one(two.first, one); one(two.second, one);
        return sum;
    };
    auto see = [&](const PolynomialMatrix& mat, size_t k) -> cd {
        auto& all = mat.Basis;
        switch (k) {
            case 0: return weigh(all.Dense());
            case 1: return weigh(all.DenseComplex());
            case 2: return weigh(all.Sparse());
            case 3: return weigh(all.SparseComplex());
            case 4: return weigh(all.DenseMonolithic());
            case 5: return weigh(all.DenseMonolithicComplex());
            case 6: return weigh(all.SparseMonolithic());
            default: return weigh(all.SparseMonolithicComplex());
        }
    };
    std::vector<std::vector<std::string>> got(threads);
    std::barrier start{static_cast<ptrdiff_t>(threads)};
    auto look = [&](const PolynomialMatrix& mat, size_t k) { try { return pbt::str(see(mat, k)); } catch (const std::exception& e) { return std::string("refused: ") + e.what(); } };
    {
        std::vector<std::jthread> pool;
        for (size_t t = 0; t < threads; ++t) pool.emplace_back([&, t] { start.arrive_and_wait(); for (auto k : ask[t]) got[t].push_back(look(m, k)); });
    }
    const PolynomialMatrix alone{s.context(), st, 1.0, square(dim, el)};
    for (size_t t = 0; t < threads; ++t) for (size_t k = 0; k < ask[t].size(); ++k) {
        auto one = look(alone, ask[t][k]);
        c.check(got[t][k] == one, pbt::str("basis ", ask[t][k], " seen by thread ", t, " is ", got[t][k], ", not ", one));
    }
    all_bases(c, m, b, want, complex_coefs);
}

LAW(sums_of_monomial_matrices, "two or more matrices, with a symbol in common", 8000, 300000) {
    SceneOptions o;
    o.max_ops = 3;
    auto s = gen_scene(c, o);
    c.note(s.name);
    SymbolTable st{s.context()};
    fill_table(c, s, st, 6);
    auto f = gen_factory(c, st);
    auto v = arbitrary_values(c, st);
    BasisValues b{st, v};
    auto dim = static_cast<size_t>(c.range(1, 3)), parts = static_cast<size_t>(c.range(1, 4));
    std::vector<std::unique_ptr<MonomialMatrix>> owned;
    std::vector<const MonomialMatrix*> ptrs;
    Grid want(dim * dim, 0.0);
    std::set<symbol_name_t> seen;
    for (size_t k = 0; k < parts; ++k) {
        std::vector<Monomial> ms;
        std::set<symbol_name_t> here;
        for (size_t i = 0; i < dim * dim; ++i) {
            auto p = (*f)(gen_terms(c, st, 1));
            ms.push_back(p.empty() ? Monomial{0, 0.0} : p[0]);
            want[i] += eval(p, v);
            c.note(pbt::str(p));
            if (!p.empty()) { if (seen.count(p[0].id)) c.nontrivial(); here.insert(p[0].id); }
        }
        seen.insert(here.begin(), here.end());
        owned.push_back(std::make_unique<MonomialMatrix>(s.context(), st, 1.0, square(dim, ms), false));
        ptrs.push_back(owned.back().get());
    }
    PolynomialMatrix sum{s.context(), *f, st, std::span<const MonomialMatrix*>(ptrs)};
    bool complex_coefs = false;
    for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) {
        auto& p = sum.SymbolMatrix(i, j);
        c.checkf(pbt::close(eval(p, v), want[i * dim + j]), [&] { return pbt::str("element (", i, ",", j, ") is worth ", eval(p, v), ", expected ", want[i * dim + j]); });
        for (size_t k = 0; k < p.size(); ++k) {
            c.check(p[k].id != 0 && std::abs(p[k].factor) > 1e-13, "sum has a zero term");
            if (k) c.check(f->less(p[k - 1], p[k]), "terms of a sum are out of order");
            if (std::abs(p[k].factor.imag()) > 0) complex_coefs = true;
        }
    }
    all_bases(c, sum, b, want, complex_coefs);
}
