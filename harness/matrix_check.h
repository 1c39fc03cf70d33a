// Checks of symbolic matrices against values of their entries.
#pragma once
#include "poly_gen.h"
#include "matrix/symbolic_matrix.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix/operator_matrix/operator_matrix.h"
#include "matrix_system/matrix_system.h"

namespace model {
    inline cd entry(const Moment::SymbolicMatrix& m, size_t i, size_t j, const std::vector<cd>& v) {
        if (m.is_monomial()) return eval(dynamic_cast<const Moment::MonomialMatrix&>(m).SymbolMatrix(i, j), v);
        return eval(dynamic_cast<const Moment::PolynomialMatrix&>(m).SymbolMatrix(i, j), v);
    }
    inline std::set<Moment::symbol_name_t> symbols_in(const Moment::SymbolicMatrix& m) {
        std::set<Moment::symbol_name_t> ids;
        if (m.is_monomial()) for (auto& x : dynamic_cast<const Moment::MonomialMatrix&>(m).SymbolMatrix()) ids.insert(x.id);
        else for (auto& p : dynamic_cast<const Moment::PolynomialMatrix&>(m).SymbolMatrix()) for (auto& x : p) ids.insert(x.id);
        return ids;
    }
    inline std::string dump(const Moment::SymbolicMatrix& m) {
        std::string r = "[";
        for (size_t i = 0; i < m.Dimension() && r.size() < 600; ++i) { for (size_t j = 0; j < m.Dimension(); ++j) r += (m.is_monomial() ? pbt::str(dynamic_cast<const Moment::MonomialMatrix&>(m).SymbolMatrix(i, j)) : pbt::str(dynamic_cast<const Moment::PolynomialMatrix&>(m).SymbolMatrix(i, j))) + ", "; r += "; "; }
        r += "] where";
        for (auto id : symbols_in(m)) { auto& q = m.symbols[static_cast<size_t>(id)]; r += pbt::str(" #", id, q.has_sequence() ? "=" + text(from_seq(q.sequence())) + ", its conjugate " + text(from_seq(q.sequence_conj())) : "", q.is_hermitian() ? " H" : "", q.is_antihermitian() ? " A" : ""); }
        return r;
    }
    /** Checks entries (want is column-major) and the properties that derive from them. */
    inline void check_matrix(const pbt::Case& c, const Moment::SymbolicMatrix& m, const Moment::SymbolTable& st, const std::vector<cd>& v,
                             const std::vector<cd>& want, const std::string& what, bool exact_hermitian = true) {
        size_t d = m.Dimension();
        c.check(want.size() == d * d, what + ": wrong dimension");
        if (m.is_monomial()) c.check(dynamic_cast<const Moment::MonomialMatrix&>(m).SymbolMatrix.Dimension() == d, what + ": dimension of the symbol matrix");
        bool herm = true;
        for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
            cd got = entry(m, i, j, v);
            c.checkf(pbt::close(got, want[j * d + i]), [&] { return what + pbt::str(": entry (", i, ",", j, ") is worth ", got, ", expected ", want[j * d + i]); });
            if (!pbt::close(want[j * d + i], std::conj(want[i * d + j]), 1e-12)) herm = false;
        }
        // a word whose conjugate is i times itself has a symbol that no flag describes
        if (!m.is_monomial() || !m.has_unaliased_operator_matrix() || std::abs(dynamic_cast<const Moment::MonomialMatrix&>(m).global_factor().imag()) > 0) for (auto id : symbols_in(m)) {
            auto& q = st[static_cast<size_t>(id)];
            if (!q.has_sequence()) continue;
            auto a = from_seq(q.sequence()), b = from_seq(q.sequence_conj());
            if (a.ops == b.ops && ((a.sign - b.sign) & 1)) exact_hermitian = false;
        }
        if (m.Hermitian()) c.check(herm, what + ": said to be Hermitian, but is not: " + dump(m));
        else if (exact_hermitian) c.check(!herm, what + ": Hermitian, but not said to be: " + dump(m));
        auto ids = symbols_in(m);
        c.check(ids == m.IncludedSymbols(), what + ": included symbols");
        std::set<Moment::symbol_name_t> re, im;
        for (auto id : ids) {
            c.check(id >= 0 && static_cast<size_t>(id) < st.size(), what + ": unknown symbol");
            auto [r, k] = st[static_cast<size_t>(id)].basis_key();
            if (r >= 0) re.insert(static_cast<Moment::symbol_name_t>(r));
            if (k >= 0) im.insert(static_cast<Moment::symbol_name_t>(k));
            c.check(m.BasisKey().count(id) && m.BasisKey().at(id) == std::pair<ptrdiff_t, ptrdiff_t>(r, k), what + ": basis key");
        }
        c.check(m.BasisKey().size() == ids.size(), what + ": basis key has other symbols");
        if (m.is_monomial()) c.check(re == m.RealBasisIndices() && im == m.ImaginaryBasisIndices(), what + ": basis indices");
        else {
            // an element of the basis is used if its coefficient in some entry is not zero
            std::map<Moment::symbol_name_t, double> wre, wim;
            for (auto& p : dynamic_cast<const Moment::PolynomialMatrix&>(m).SymbolMatrix()) {
                std::map<Moment::symbol_name_t, std::pair<cd, cd>> part;
                for (auto& x : p) { auto& [plus, minus] = part[x.id]; plus += x.factor; minus += x.conjugated ? -x.factor : x.factor; }
                for (auto& [id, q] : part) {
                    auto [r, k] = st[static_cast<size_t>(id)].basis_key();
                    if (r >= 0) { auto& z = wre[static_cast<Moment::symbol_name_t>(r)]; z = std::max(z, std::abs(q.first)); }
                    if (k >= 0) { auto& z = wim[static_cast<Moment::symbol_name_t>(k)]; z = std::max(z, std::abs(q.second)); }
                }
            }
            auto exact = [&](const std::set<Moment::symbol_name_t>& got, const std::map<Moment::symbol_name_t, double>& w, const char* kind) {
                for (auto x : got) c.check(w.count(x) && w.at(x) > 1e-16, what + pbt::str(": ", kind, " basis element ", x, " is listed, but is not used"));
                for (auto& [x, size] : w) c.check(size < 1e-9 || got.count(x), what + pbt::str(": ", kind, " basis element ", x, " is used, but not listed"));
            };
            exact(m.RealBasisIndices(), wre, "real");
            exact(m.ImaginaryBasisIndices(), wim, "imaginary");
        }
        c.check(m.HasComplexBasis() == !m.ImaginaryBasisIndices().empty(), what + ": complex basis");
    }
    /** Checks operator matrices (words column-major, in normal form). */
    inline void check_operator_matrix(const pbt::Case& c, const Scene& s, const Moment::SymbolicMatrix& m, const std::vector<Word>& words, const std::string& what) {
        c.check(m.has_unaliased_operator_matrix() && m.has_aliased_operator_matrix(), what + ": no operator matrix");
        auto& un = m.unaliased_operator_matrix();
        auto& al = m.aliased_operator_matrix();
        size_t d = m.Dimension();
        c.check(un.Dimension() == d && al.Dimension() == d, what + ": dimension of the operator matrix");
        bool herm = true;
        for (size_t j = 0; j < d; ++j) for (size_t i = 0; i < d; ++i) {
            auto u = from_seq(un(std::array<size_t, 2>{i, j}));
            auto a = from_seq(al(std::array<size_t, 2>{i, j}));
            auto& w = words[j * d + i];
            c.checkf(u == w, [&] { return what + pbt::str(": operator (", i, ",", j, ") is ", text(u), ", expected ", text(w)); });
            c.checkf(pbt::close(s.value(a), s.value(w)), [&] { return what + pbt::str(": aliased operator (", i, ",", j, ") is ", text(a), ", for ", text(w)); });
            if (!(s.conj(w) == words[i * d + j])) herm = false;
        }
        c.check(un.is_hermitian() == herm, what + ": hermiticity of the operator matrix");
        c.check(un.nonhermitian_index().has_value() == !herm, what + ": index of a non-hermitian element");
        if (!herm) {
            auto ix = *un.nonhermitian_index();
            c.check(ix[0] < d && ix[1] < d && !(s.conj(words[ix[1] * d + ix[0]]) == words[ix[0] * d + ix[1]]), what + ": element named as non-hermitian is not");
        }
    }
}
