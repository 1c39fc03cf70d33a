// C18: imported matrices, and what they say of their symbols.
#include "../pbt.h"
#include "../basis_check.h"
#include "scenarios/imported/imported_context.h"
#include "scenarios/imported/imported_matrix_system.h"
#include "matrix_system/matrix_system_errors.h"
#include "tensor/square_matrix.h"

using namespace Moment;
using namespace model;
using Moment::Imported::ImportedMatrixSystem;
using Import = Moment::Imported::errors::bad_import_matrix;

namespace {
    struct Item { symbol_name_t id; cd f; bool conj; };
    std::string show(const Item& e) { return pbt::str("(", e.f.real(), ",", e.f.imag(), ")#", e.id, e.conj ? "*" : ""); }
    // what a symbol can be: bit 0 real, bit 1 imaginary; both: any complex number; neither: only zero, or not describable
    constexpr int REAL = 1, IMAG = 2, ANY = 3;
    int must_be_real(cd f) { return f.imag() == 0 ? REAL : f.real() == 0 ? IMAG : 0; }
    /** f s = g s, or f s = g conj(s) */
    int must_agree(cd f, cd g, bool conjugated) {
        if (!conjugated) return f == g ? ANY : 0;
        return f == g ? REAL : f == -g ? IMAG : 0;
    }
    struct Model {
        bool real_only;
        std::vector<int> can{0, REAL};
        struct Stored { size_t dim; bool hermitian; std::vector<Item> e; };
        std::vector<Stored> matrices;

        bool accept(size_t dim, const std::vector<Item>& e, bool complex, bool hermitian) {       // e[row * dim + col]
            if (real_only && complex) return false;
            auto now = can;
            for (auto& x : e) while (static_cast<size_t>(x.id) >= now.size()) now.push_back(real_only ? REAL : ANY);
            for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) {
                auto& a = e[i * dim + j];
                auto& b = e[j * dim + i];
                if (hermitian && a.id != b.id) return false;
                if (a.id == 0) continue;
                auto& s = now[static_cast<size_t>(a.id)];
                if (!complex) s &= must_be_real(a.f);
                if (!hermitian) continue;
                if (!complex) s &= must_agree(a.f, b.f, a.conj != b.conj);
                else if (i == j) s &= must_be_real(a.f);
                else s &= must_agree(a.f, std::conj(b.f), a.conj == b.conj);
            }
            for (size_t k = 1; k < now.size(); ++k) if (now[k] == 0) return false;
            can = std::move(now);
            matrices.push_back({dim, hermitian, e});
            return true;
        }
    };
    void check_all(pbt::Case& c, const ImportedMatrixSystem& ms, const Model& m, const std::string& when, bool bases) {
        auto& st = ms.Symbols();
        c.check(st.size() == m.can.size(), when + pbt::str(": ", st.size(), " symbols, expected ", m.can.size()));
        c.check(ms.size() == m.matrices.size(), when + ": number of matrices");
        std::vector<cd> v{0.0, 1.0};
        std::set<symbol_name_t> re{1}, im;
        for (size_t k = 2; k < m.can.size(); ++k) {
            auto& q = st[k];
            c.check(static_cast<size_t>(q.Id()) == k && !q.has_sequence(), when + ": symbol");
            c.check(q.is_hermitian() == (m.can[k] == REAL), when + pbt::str(": #", k, q.is_hermitian() ? " is said to be real" : " is not said to be real"));
            c.check(q.is_antihermitian() == (m.can[k] == IMAG), when + pbt::str(": #", k, q.is_antihermitian() ? " is said to be imaginary" : " is not said to be imaginary"));
            v.emplace_back((m.can[k] & REAL) ? std::sin(1.3 * static_cast<double>(k) + 0.2) : 0.0, (m.can[k] & IMAG) ? std::cos(1.7 * static_cast<double>(k) + 0.4) : 0.0);
            if (m.can[k] & REAL) re.insert(static_cast<symbol_name_t>(k));
            if (m.can[k] & IMAG) im.insert(static_cast<symbol_name_t>(k));
        }
        auto& rs = st.Basis.RealSymbols();
        auto& is = st.Basis.ImaginarySymbols();
        c.check(std::set<symbol_name_t>(rs.begin(), rs.end()) == re && rs.size() == re.size(), when + ": real basis");
        c.check(std::set<symbol_name_t>(is.begin(), is.end()) == im && is.size() == im.size(), when + ": imaginary basis");
        for (size_t k = 0; k < rs.size(); ++k) c.check(st[static_cast<size_t>(rs[k])].basis_key().first == static_cast<ptrdiff_t>(k), when + ": index in real basis");
        for (size_t k = 0; k < is.size(); ++k) c.check(st[static_cast<size_t>(is[k])].basis_key().second == static_cast<ptrdiff_t>(k), when + ": index in imaginary basis");
        BasisValues b{st, v};
        for (size_t k = 0; k < m.matrices.size(); ++k) {
            auto& x = m.matrices[k];
            auto& mat = ms[static_cast<ptrdiff_t>(k)];
            std::string name = when + pbt::str(": matrix ", k);
            std::vector<cd> rows, cols;
            bool coefs = false;
            for (auto& e : x.e) {
                rows.push_back(e.id == 0 ? cd{0.0} : e.f * (e.conj ? std::conj(v[static_cast<size_t>(e.id)]) : v[static_cast<size_t>(e.id)]));
                if (e.id != 0 && e.f.imag() != 0) coefs = true;
            }
            for (size_t j = 0; j < x.dim; ++j) for (size_t i = 0; i < x.dim; ++i) cols.push_back(rows[i * x.dim + j]);
            check_matrix(c, mat, st, v, cols, name, false);
            c.check(mat.Hermitian() == x.hermitian, name + ": Hermitian");
            if (bases) all_bases(c, mat, b, rows, coefs, false);
        }
    }
    cd gen_factor(pbt::Case& c, bool real) {
        switch (c.below(real ? 5 : 9)) {
            case 0: case 1: case 2: return 1.0;
            case 3: return -1.0;
            case 4: return c.coin() ? 0.5 : -2.0;
            case 5: return cd{0, 1};
            case 6: return cd{0, c.coin() ? -1.0 : 2.0};
            case 7: return cd{1, 1};
            default: return cd{0.5, -2};
        }
    }
}

LAW(histories, "a symbol met before becomes known to be real or imaginary", 12000, 400000) {
    Model m{c.chance(25)};
    ImportedMatrixSystem ms{m.real_only};
    c.check(ms.importedContext.real_only() == m.real_only, "real only");
    c.note(m.real_only ? "real context" : "complex context");
    check_all(c, ms, m, "at first", false);
    for (size_t step = 1 + c.below(5); step > 0; --step) {
        if (c.chance(5)) {
            bool refused = false;
            try {
                if (c.coin()) (void) ms.MomentMatrix(c.below(3));
                else (void) ms.LocalizingMatrix(LocalizingMatrixIndex{c.below(2), OperatorSequence::Identity(ms.Context())});
            } catch (const std::runtime_error&) { refused = true; }
            c.check(refused, "a moment matrix of an imported system");
            check_all(c, ms, m, "after a refused moment matrix", false);
            continue;
        }
        bool complex = c.chance(m.real_only ? 10 : 65), hermitian = c.chance(65);
        size_t dim = 1 + c.below(c.chance(70) ? 3 : 4);
        size_t known = m.can.size(), limit = known + 3;
        bool tidy = c.coin();      // mostly acceptable
        auto fresh = [&] { return static_cast<symbol_name_t>(c.chance(15) ? c.below(2) : c.below(limit)); };
        auto factor = [&] { return gen_factor(c, tidy ? (!complex || c.chance(60)) : c.chance(60)); };
        std::vector<Item> e(dim * dim);
        for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) {
            auto& x = e[i * dim + j];
            if (hermitian && j < i) {
                auto& y = e[j * dim + i];
                x = y;
                if (complex) { x.f = std::conj(x.f); x.conj = !x.conj; }
                if (c.chance(15)) x.conj = !x.conj;
                if (c.chance(tidy ? 4 : 15)) x.f = -x.f;
                if (c.chance(tidy ? 2 : 10)) x.f = std::conj(x.f);
                if (c.chance(2)) x.f = factor();
                if (c.chance(2)) x.id = fresh();
            } else {
                x = Item{fresh(), factor(), c.chance(30)};
                if (hermitian && complex && i == j && tidy) x.f = x.f.real() != 0 ? x.f.real() : x.f;
            }
            if (x.id == 0) x = Item{0, 0.0, false};
        }
        std::string text = complex ? "complex" : "real";
        text += hermitian ? " symmetric:" : ":";
        for (auto& x : e) text += " " + show(x);
        c.note(text);
        auto before = m.can;
        bool accept = m.accept(dim, e, complex, hermitian);
        std::vector<Monomial> data;
        for (size_t j = 0; j < dim; ++j) for (size_t i = 0; i < dim; ++i) { auto& x = e[i * dim + j]; data.push_back(x.id == 0 ? Monomial{0} : Monomial{x.id, x.f, x.conj}); }
        bool accepted = false;
        std::string why;
        try {
            auto [index, mat] = ms.import_matrix(std::make_unique<SquareMatrix<Monomial>>(dim, std::move(data)), complex, hermitian);
            accepted = true;
            c.check(index + 1 == m.matrices.size() || !accept, "index of the new matrix");
            c.check(&mat == &ms[static_cast<ptrdiff_t>(index)], "another matrix is returned");
        } catch (const Import& x) { why = x.what(); }
        c.check(accepted == accept, accept ? "refused: " + why : "a matrix which is not as declared is accepted");
        if (accepted) {
            for (size_t k = 2; k < before.size(); ++k) if (m.can[k] != before[k]) c.nontrivial();
            c.label(complex ? (hermitian ? "hermitian" : "complex") : hermitian ? "symmetric" : "real");
        } else c.label("refused");
        check_all(c, ms, m, pbt::str(accepted ? "after import " : "after refusal ", m.matrices.size()), c.chance(60));
    }
    check_all(c, ms, m, "at last", true);
}
