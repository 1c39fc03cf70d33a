// Random symbol tables and polynomials over them.
#pragma once
#include "scene.h"
#include "symbolic/monomial_comparator_by_hash.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/symbol_table.h"

namespace model {
    /** Also long polynomials. Off where rules are solved: division makes rounding errors, that vanish compared to the largest coefficient only. */
    inline bool wild_coef = true;
    inline cd gen_coef(pbt::Case& c) {
        // Mostly around one; sometimes of a very different (still exactly representable) magnitude.
        double unit = wild_coef && c.chance(6) ? (c.coin() ? 512.0 : 1.0 / (1 << 21)) : 0.5;
        auto h = [&] { return static_cast<double>(c.range(-4, 4)) * unit; };
        switch (c.below(4)) {
            case 0: return cd{h(), h()};
            case 1: return cd{0.0, h()};
            default: return cd{h(), 0.0};
        }
    }
    inline Moment::Polynomial::storage_t gen_terms(pbt::Case& c, const Moment::SymbolTable& st, size_t most = 6, bool real = false, size_t ids = 7) {
        Moment::Polynomial::storage_t out;
        if (most > 1 && wild_coef && c.chance(5)) { most *= 4; ids *= 4; }
        auto n = c.below(most + 1);
        for (uint64_t k = 0; k < n; ++k) {
            auto id = static_cast<Moment::symbol_name_t>(c.chance(3) ? 0 : c.below(std::min<size_t>(st.size() - 1, ids)) + 1);
            cd f = gen_coef(c);
            if (real) f = cd{f.real(), 0.0};
            out.emplace_back(id, f, c.coin());
        }
        return out;
    }
    inline std::unique_ptr<Moment::PolynomialFactory> gen_factory(pbt::Case& c, const Moment::SymbolTable& st) {
        if (c.coin()) { c.note("by id"); return std::make_unique<Moment::ByIDPolynomialFactory>(st); }
        c.note("by hash");
        return std::make_unique<Moment::ByHashPolynomialFactory>(st);
    }
    inline void fill_table(pbt::Case& c, const Scene& s, Moment::SymbolTable& st, size_t most = 5) {
        if (c.chance(5)) most *= 5;
        auto n = c.below(most + 1);
        for (uint64_t k = 0; k < n; ++k) {
            if (c.chance(35)) {
                auto r = c.below(3);
                st.create(1, r != 1, r != 2);
                c.note(r == 0 ? "complex symbol" : r == 1 ? "imaginary symbol" : "real symbol");
            } else {
                auto w = s.word(c, 4);
                if (s.normal(w).zero) continue;
                auto q = to_seq(s.context(), w, 0);
                st.merge_in(Moment::OperatorSequence{q});
                c.note("register " + text(w));
            }
        }
    }
    inline std::vector<cd> arbitrary_values(pbt::Case& c, const Moment::SymbolTable& st) {
        std::vector<cd> v{0.0, 1.0};
        for (size_t k = 2; k < st.size(); ++k) {
            double r = static_cast<double>(c.range(-50, 50)) / 8.0, i = static_cast<double>(c.range(-50, 50)) / 8.0;
            v.push_back(st[k].is_hermitian() ? cd{r, 0} : st[k].is_antihermitian() ? cd{0, i} : cd{r, i});
            if (st[k].is_hermitian() && st[k].is_antihermitian()) v.back() = 0;
        }
        return v;
    }
    inline cd value_of(const Moment::Polynomial::storage_t& s, const std::vector<cd>& v) { cd r = 0; for (auto& m : s) r += eval(m, v); return r; }
    /** Values of real and of imaginary basis elements, from values of symbols. */
    struct BasisValues {
        std::vector<double> re, im;
        BasisValues(const Moment::SymbolTable& st, const std::vector<cd>& v) {
            for (auto id : st.Basis.RealSymbols()) re.push_back(v[static_cast<size_t>(id)].real());
            for (auto id : st.Basis.ImaginarySymbols()) im.push_back(v[static_cast<size_t>(id)].imag());
        }
    };
}
