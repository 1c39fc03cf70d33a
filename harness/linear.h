// Linear relations between moments: reference solver, generators of rules.
#pragma once
#include "poly_gen.h"
#include "matrix_system/matrix_system.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/rules/moment_rule.h"
#include "symbolic/rules/moment_rulebook.h"
#include "symbolic/symbol_table.h"
namespace model {
    using namespace Moment;

    /** Real linear system over (real parts, imaginary parts); column 0 is the constant (real part of symbol 1). */
    struct Linear {
        size_t nr, ni;
        std::vector<std::vector<double>> rows;
        std::vector<size_t> pivots;
        bool consistent = true, marginal = false;

        explicit Linear(const SymbolTable& st) : nr{st.Basis.RealSymbolCount()}, ni{st.Basis.ImaginarySymbolCount()} { }
        static void part(const SymbolTable& st, size_t nr, const Polynomial& p, std::vector<double>& re, std::vector<double>& im) {
            for (auto& m : p) {
                auto [r, i] = st[static_cast<size_t>(m.id)].basis_key();
                double s = m.conjugated ? -1.0 : 1.0;
                if (m.id == 0) continue;
                if (r >= 0) { re[static_cast<size_t>(r)] += m.factor.real(); im[static_cast<size_t>(r)] += m.factor.imag(); }
                if (i >= 0) { re[nr + static_cast<size_t>(i)] -= s * m.factor.imag(); im[nr + static_cast<size_t>(i)] += s * m.factor.real(); }
            }
        }
        void add(const SymbolTable& st, const Polynomial& p) {
            std::vector<double> re(nr + ni, 0.0), im(nr + ni, 0.0);
            part(st, nr, p, re, im);
            rows.push_back(re);
            rows.push_back(im);
        }
        /** Full reduction; column of the constant is never a pivot. */
        void solve() {
            size_t done = 0;
            std::vector<bool> used(nr + ni, false);
            while (done < rows.size()) {
                double best = 0;
                size_t br = 0, bc = 0;
                for (size_t r = done; r < rows.size(); ++r) {
                    for (size_t k = 1; k < nr + ni; ++k) if (std::abs(rows[r][k]) > best) { best = std::abs(rows[r][k]); br = r; bc = k; }
                }
                if (best < 1e-8) break;
                if (best < 1e-3) marginal = true;
                std::swap(rows[done], rows[br]);
                double f = rows[done][bc];
                for (auto& x : rows[done]) x /= f;
                for (size_t r = 0; r < rows.size(); ++r) if (r != done) {
                    double g = rows[r][bc];
                    if (g != 0) for (size_t k = 0; k < nr + ni; ++k) rows[r][k] -= g * rows[done][k];
                }
                used[bc] = true;
                pivots.push_back(bc);
                ++done;
            }
            for (size_t r = done; r < rows.size(); ++r) {
                double v = std::abs(rows[r][0]);
                if (v > 1e-8) { consistent = false; if (v < 1e-3) marginal = true; }
            }
            rows.resize(done);
        }
        [[nodiscard]] size_t rank() const { return rows.size(); }
        /** A random solution, as values of symbols. */
        std::vector<cd> sample(pbt::Case& c, const SymbolTable& st) const {
            std::vector<double> x(nr + ni, 0.0);
            x[0] = 1.0;
            std::vector<bool> fixed(nr + ni, false);
            for (auto p : pivots) fixed[p] = true;
            for (size_t k = 1; k < nr + ni; ++k) if (!fixed[k]) x[k] = static_cast<double>(c.range(-40000, 40000)) / 8192.0;
            for (size_t r = 0; r < rows.size(); ++r) {
                double v = 0;
                for (size_t k = 0; k < nr + ni; ++k) if (!fixed[k]) v -= rows[r][k] * x[k];
                x[pivots[r]] = v;
            }
            return values(x, st);
        }
        std::vector<cd> values(const std::vector<double>& x, const SymbolTable& st) const {
            std::vector<cd> v;
            for (size_t k = 0; k < st.size(); ++k) {
                auto [r, i] = st[k].basis_key();
                v.emplace_back(r >= 0 && k > 0 ? x[static_cast<size_t>(r)] : 0.0, i >= 0 && k > 0 ? x[nr + static_cast<size_t>(i)] : 0.0);
            }
            return v;
        }
        /** Does every solution make p zero? */
        bool implies(const SymbolTable& st, const Polynomial& p) const {
            Linear two{*this};
            two.rows.clear();
            two.add(st, p);
            for (auto& row : two.rows) {
                for (size_t r = 0; r < rows.size(); ++r) {
                    double g = row[pivots[r]];
                    for (size_t k = 0; k < nr + ni; ++k) row[k] -= g * rows[r][k];
                }
                for (double x : row) if (std::abs(x) > 1e-7) return false;
            }
            return true;
        }
    };

    inline std::string show(const Polynomial& p) {
        std::stringstream ss;
        if (p.empty()) ss << "0";
        bool first = true;
        for (auto& m : p) {
            if (!first) ss << " + ";
            first = false;
            ss << "(" << m.factor.real();
            if (m.factor.imag() != 0) ss << (m.factor.imag() < 0 ? "" : "+") << m.factor.imag() << "i";
            ss << ")#" << m.id << (m.conjugated ? "*" : "");
        }
        return ss.str();
    }
    inline std::string show(const MomentRulebook& rb) {
        std::string s = "{";
        for (auto& [id, r] : rb) s += pbt::str("#", id, r.is_partial() ? " (partly)" : "", " -> ", show(r.RHS()), "; ");
        return s + "}";
    }

    /** Equations: mostly arbitrary, some built to meet special cases (one symbol and its conjugate; repeated; dependent). */
    inline std::vector<Polynomial> gen_rules(pbt::Case& c, const MatrixSystem& system, size_t most, std::shared_ptr<std::vector<cd>> hidden = nullptr) {
        const auto& f = system.polynomial_factory();
        const auto& st = system.Symbols();
        std::vector<Polynomial> out;
        auto n = 1 + c.below(most);
        bool solvable = c.chance(85);
        if (!hidden) hidden = std::make_shared<std::vector<cd>>(arbitrary_values(c, st));
        for (uint64_t k = 0; k < n; ++k) {
            Polynomial p;
            auto kind = c.below(10);
            if (kind < 4) {
                p = f(gen_terms(c, st, 3));
            } else if (kind < 7) {       // a x + b x* + lower
                auto id = static_cast<symbol_name_t>(2 + c.below(st.size() - 2));
                cd a = gen_coef(c), b = c.chance(60) ? a * i_to(static_cast<int>(c.below(4))) : gen_coef(c);
                auto t = gen_terms(c, st, 2);
                t.emplace_back(id, a, false);
                t.emplace_back(id, b, true);
                if (c.chance(40)) t.emplace_back(1, cd{-static_cast<double>(c.below(4)) / 2.0, 0}, false);
                p = f(std::move(t));
            } else if (kind < 8) {       // x = value
                auto id = static_cast<symbol_name_t>(2 + c.below(st.size() - 2));
                p = f({Monomial{id, 1.0, c.coin()}, Monomial{1, gen_coef(c)}});
            } else if (kind < 9 && !out.empty()) {      // combination of earlier ones
                const auto& q = c.pick(out);
                p = f.sum(q * gen_coef(c), q.conjugate(st) * gen_coef(c));
                if (c.coin()) f.append(p, c.pick(out) * gen_coef(c));
            } else {                     // monomial = monomial
                auto a = static_cast<symbol_name_t>(2 + c.below(st.size() - 2)), b = static_cast<symbol_name_t>(1 + c.below(st.size() - 1));
                p = f({Monomial{a, 1.0, c.coin()}, Monomial{b, gen_coef(c), c.coin()}});
            }
            // all rules true of one assignment
            if (solvable) f.append(p, f({Monomial{1, -eval(p, *hidden)}}));
            if (!p.empty()) out.push_back(std::move(p));
        }
        return out;
    }
    inline void note_rules(pbt::Case& c, const std::vector<Polynomial>& rules) {
        std::string s = "rules";
        for (auto& r : rules) s += " [" + show(r) + " = 0]";
        c.note(s);
    }

}
