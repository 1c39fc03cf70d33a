// Ways to ask a matrix system for a matrix.
#pragma once
#include "pbt.h"
#include "scene.h"
#include "matrix_check.h"
#include "dictionary/dictionary.h"
#include "matrix/polynomial_localizing_matrix.h"
#include "matrix_system/matrix_system_errors.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/pauli/matrices/moment_matrix.h"
#include "scenarios/pauli/matrices/monomial_commutator_matrix.h"
#include "scenarios/pauli/matrices/monomial_localizing_matrix.h"
#include "scenarios/pauli/pauli_matrix_system.h"

namespace model {
    using namespace Moment;
    namespace mp = Moment::Pauli;

    using MTP = Multithreading::MultiThreadPolicy;
    using Made = std::pair<ptrdiff_t, const SymbolicMatrix*>;

    /** One way to ask for a matrix. */
    struct Request {
        std::string key;
        std::function<std::string()> name;          ///< what the library calls it
        std::function<Made(MTP)> create;            ///< make it, or find it
        std::function<const SymbolicMatrix*(MTP)> call; ///< likewise, by call operator
        std::function<ptrdiff_t()> find_index;
        std::function<bool()> contains;
        std::function<const SymbolicMatrix*()> fetch;   ///< throws if not yet made
        std::vector<Request> parts;                     ///< what is made along with it
    };
    template<class System, class Indices, class Index>
    inline Request request(System& system, Indices& indices, const Index& index, std::string key) {
        Request r;
        r.key = std::move(key);
        r.create = [&indices, index](MTP policy) { auto [n, m] = indices.create(Index{index}, policy); return Made{static_cast<ptrdiff_t>(n), &m}; };
        r.call = [&indices, index](MTP policy) -> const SymbolicMatrix* { return &indices(index, policy); };
        r.find_index = [&indices, index] { return indices.find_index(index); };
        r.contains = [&indices, index] { return indices.contains(index); };
        if constexpr (requires { index.to_string(system); }) r.name = [&system, index] { return std::string{index.to_string(system)}; };
        if constexpr (!std::is_same_v<Index, Inflation::ExtendedMatrixIndex>) r.fetch = [&system, &indices, index]() -> const SymbolicMatrix* {
            auto lock = system.get_read_lock();
            return &indices.find(lock, index);
        };
        return r;
    }
    inline std::string poly_key(const Polynomial& p) {
        std::vector<std::string> t;
        for (auto& m : p) t.push_back(pbt::str(m.id, m.conjugated ? "*" : "", " x ", m.factor.real() + 0.0, "+i", m.factor.imag() + 0.0));
        std::sort(t.begin(), t.end());
        std::string all; for (auto& x : t) all += x + " "; return all;
    }

    struct Asker {
        Scene scene;
        mp::PauliMatrixSystem* pauli = nullptr;
        Inflation::InflationMatrixSystem* inflation = nullptr;
        size_t top = 2;

        MatrixSystem& system() const { return *scene.system; }
        std::string word_key(size_t level, size_t nn, const OperatorSequence& w) const { return pbt::str("L", level, " ", nn, " ", text(from_seq(w))); }

        /** Any request, of which some are alike. */
        Request random(pbt::Case& c, bool polynomials) const {
            auto& ms = system();
            size_t level = c.below(top + 1), nn = pauli ? c.below(3) : 0;
            if (nn == 2) nn = 0;
            auto polynomial = [&] {
                RawPolynomial raw;
                for (auto k = c.below(3); k > 0; --k) { auto w = scene.word(c, 1); auto sg = static_cast<int>(c.below(4)); raw.emplace_back(to_seq(scene.context(), w, sg), c.pick(std::vector<cd>{1.0, 2.0, -1.0, cd{0, 1}})); }
                auto lock = ms.get_write_lock();
                return ms.polynomial_factory().register_and_construct(ms.Symbols(), raw);
            };
            auto word = [&] { auto w = scene.word(c, 1 + c.below(2)); return to_seq(scene.context(), w, static_cast<int>(c.below(4))); };
            auto with_parts = [&](Request r, const Polynomial& p, char prefix) {
                for (auto& m : p) {
                    auto& q = ms.Symbols()[static_cast<size_t>(m.id)];
                    auto& w = m.conjugated ? q.sequence_conj() : q.sequence();
                    if (prefix == 'C') r.parts.push_back(request(*pauli, pauli->CommutatorMatrices, mp::CommutatorMatrixIndex{level, nn, w}, pbt::str("C", level, " ", nn, " ", text(from_seq(w)))));
                    else if (prefix == 'A') r.parts.push_back(request(*pauli, pauli->AnticommutatorMatrices, mp::AnticommutatorMatrixIndex{level, nn, w}, pbt::str("A", level, " ", nn, " ", text(from_seq(w)))));
                    else if (pauli && prefix == 'N') r.parts.push_back(request(*pauli, pauli->PauliLocalizingMatrices, mp::LocalizingMatrixIndex{level, nn, w}, word_key(level, nn, w)));
                    else r.parts.push_back(request(ms, ms.LocalizingMatrix, LocalizingMatrixIndex{level, w}, word_key(level, 0, w)));
                }
                return r;
            };
            switch (c.below(pauli ? 10 : inflation ? 5 : 4)) {
                case 0: return request(ms, ms.MomentMatrix, MomentMatrixIndex{level}, pbt::str("M", level, " 0"));
                case 1: case 2: { auto w = word(); return request(ms, ms.LocalizingMatrix, LocalizingMatrixIndex{level, w}, word_key(level, 0, w)); }
                case 3: {
                    if (!polynomials) return request(ms, ms.MomentMatrix, MomentMatrixIndex{level}, pbt::str("M", level, " 0"));
                    auto p = polynomial();
                    return with_parts(request(ms, ms.PolynomialLocalizingMatrix, PolynomialLocalizingMatrixIndex{level, p}, pbt::str("PL", level, " 0 ", poly_key(p))), p, 'L');
                }
                case 4: {
                    if (inflation) {
                        if (level == 0) level = 1;
                        std::set<symbol_name_t> by;
                        for (auto k = c.below(3); k > 0; --k) by.insert(static_cast<symbol_name_t>(c.below(std::min<size_t>(6, ms.Symbols().size()))));
                        Inflation::ExtendedMatrixIndex index = c.coin() ? Inflation::ExtendedMatrixIndex{level, by} : Inflation::ExtendedMatrixIndex{level, std::vector<symbol_name_t>{by.begin(), by.end()}};
                        auto r = request(*inflation, inflation->ExtendedMatrices, index, pbt::str("E", level, " ", pbt::join(by)));
                        r.parts.push_back(request(ms, ms.MomentMatrix, MomentMatrixIndex{level}, pbt::str("M", level, " 0")));
                        return r;
                    }
                    return request(*pauli, pauli->PauliMomentMatrices, mp::MomentMatrixIndex{level, nn}, pbt::str("M", level, " ", nn));
                }
                case 5: { auto w = word(); return request(*pauli, pauli->PauliLocalizingMatrices, mp::LocalizingMatrixIndex{level, nn, w}, word_key(level, nn, w)); }
                case 6: { auto w = word(); return request(*pauli, pauli->CommutatorMatrices, mp::CommutatorMatrixIndex{level, nn, w}, pbt::str("C", level, " ", nn, " ", text(from_seq(w)))); }
                case 7: { auto w = word(); return request(*pauli, pauli->AnticommutatorMatrices, mp::AnticommutatorMatrixIndex{level, nn, w}, pbt::str("A", level, " ", nn, " ", text(from_seq(w)))); }
                case 8: {
                    if (!polynomials) return request(*pauli, pauli->PauliMomentMatrices, mp::MomentMatrixIndex{level, nn}, pbt::str("M", level, " ", nn));
                    auto p = polynomial();
                    return with_parts(request(*pauli, pauli->PauliPolynomialLocalizingMatrices, mp::PolynomialLocalizingMatrixIndex{level, nn, p}, pbt::str("PL", level, " ", nn, " ", poly_key(p))), p, 'N');
                }
                default: {
                    if (!polynomials) return request(*pauli, pauli->PauliMomentMatrices, mp::MomentMatrixIndex{level, nn}, pbt::str("M", level, " ", nn));
                    auto p = polynomial();
                    if (c.coin()) return with_parts(request(*pauli, pauli->PolynomialCommutatorMatrices, mp::PolynomialCommutatorMatrixIndex{level, nn, p}, pbt::str("PC", level, " ", nn, " ", poly_key(p))), p, 'C');
                    return with_parts(request(*pauli, pauli->PolynomialAnticommutatorMatrices, mp::PolynomialAnticommutatorMatrixIndex{level, nn, p}, pbt::str("PA", level, " ", nn, " ", poly_key(p))), p, 'A');
                }
            }
        }
    };
    inline Asker gen_asker(pbt::Case& c) {
        Asker a;
        SceneOptions o;
        o.system = true;
        o.tolerance = 1e6;
        a.scene = gen_scene(c, o);
        a.pauli = dynamic_cast<mp::PauliMatrixSystem*>(a.scene.system.get());
        a.inflation = dynamic_cast<Inflation::InflationMatrixSystem*>(a.scene.system.get());
        while (a.top > 0 && (2 * a.top + 3 > a.scene.max_len * 2 || a.scene.system->osg_size(a.top) > 25)) --a.top;
        return a;
    }
    inline MTP policy(pbt::Case& c) { return c.chance(10) ? MTP::Always : c.coin() ? MTP::Never : MTP::Optional; }
}
