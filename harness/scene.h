// A scenario of any kind together with a reference for its words: normal form, conjugate, moment aliases, and a value
// for every word's moment, chosen at random subject only to <1> = 1, <w*> = conj<w>, <-w> = -<w> and <alias> = <w>.
#pragma once
#include "algebra_gen.h"
#include "scenarios/algebraic/algebraic_matrix_system.h"
#include "scenarios/locality/locality_matrix_system.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include "scenarios/pauli/symmetry/moment_simplifier.h"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "dictionary/raw_polynomial.h"

namespace model {
    using cd = std::complex<double>;
    inline cd i_to(int k) { static const cd v[] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; return v[k & 3]; }

    inline double hashed_real(uint64_t seed, const Ops& w, uint64_t salt) {
        uint64_t s = seed * 0x9e3779b97f4a7c15ull + salt;
        for (int o : w) { s ^= static_cast<uint64_t>(o) + 0x1234567; (void) pbt::splitmix(s); s = s * 0xbf58476d1ce4e5b9ull + 77; }
        uint64_t r = pbt::splitmix(s);
        return (static_cast<double>(r >> 11) / 9007199254740992.0) * 2.0 - 1.0;
    }

    struct PauliLattice {
        int rows = 0, cols = 0;         // a chain has one column of given rows
        bool lattice = false, wrap = false, symmetric = false;
        int qubits() const { return rows * cols; }
        Ops shift(const Ops& w, int dr, int dc) const {   // w must stay inside unless wrapping
            Ops r;
            for (int o : w) {
                int q = o / 3, t = o % 3;
                int row = q % rows + dr, col = q / rows + dc;
                if (wrap) { row = ((row % rows) + rows) % rows; col = ((col % cols) + cols) % cols; }
                if (row < 0 || row >= rows || col < 0 || col >= cols) return {-1};
                r.push_back(3 * (col * rows + row) + t);
            }
            std::sort(r.begin(), r.end());
            return r;
        }
        std::set<Ops> orbit(const Ops& w) const {
            std::set<Ops> out{w};
            if (!symmetric) return out;
            for (int dr = -rows + 1; dr < rows; ++dr) for (int dc = -cols + 1; dc < cols; ++dc) {
                auto x = shift(w, dr, dc);
                if (x.empty() || x[0] >= 0) out.insert(x);
            }
            return out;
        }
        std::unique_ptr<Moment::Pauli::PauliContext> make() const {
            using namespace Moment::Pauli;
            auto wr = wrap ? WrapType::Wrap : WrapType::None;
            auto sy = symmetric ? SymmetryType::Translational : SymmetryType::None;
            if (lattice) return std::make_unique<PauliContext>(static_cast<size_t>(rows), static_cast<size_t>(cols), wr, sy);
            return std::make_unique<PauliContext>(static_cast<size_t>(rows), wr, sy);
        }
        std::string text() const {
            return pbt::str("pauli ", rows, "x", cols, lattice ? " lattice" : " chain", wrap ? " wrapped" : "", symmetric ? " symmetric" : "");
        }
    };

    enum SceneKind { FREE = 0, LOC = 1, PAULI = 2, INFL = 3, ALG = 4 };
    inline const char* const kind_name[] = {"free", "locality", "pauli", "inflation", "algebraic"};

    struct Scene {
        int kind = FREE;
        int n = 0;
        uint64_t seed = 0;
        std::string name;
        std::unique_ptr<Moment::Context> owned;
        std::unique_ptr<Moment::MatrixSystem> system;
        const Moment::Context* ctx = nullptr;
        std::shared_ptr<Algebra> ref;
        std::shared_ptr<InflatedNet> net;
        std::shared_ptr<Locality> loc;
        PauliLattice pauli;
        size_t max_len = 0;          // longest words whose rank fits comfortably

        const Moment::Context& context() const { return *ctx; }
        Word normal(const Ops& raw, int sign = 0) const {
            if (ref) return ref->normal(raw, sign);
            return from_seq(to_seq(*ctx, raw, sign));
        }
        Word conj(const Word& w) const {
            if (w.zero) return w;
            if (ref) return ref->conj(w);
            return from_seq(to_seq(*ctx, w.ops, w.sign).conjugate());
        }
        Word mul(const Word& a, const Word& b) const {
            if (a.zero || b.zero) return Zero();
            Ops r = a.ops;
            r.insert(r.end(), b.ops.begin(), b.ops.end());
            return normal(r, (a.sign + b.sign) & 3);
        }
        /** All words with the same moment, up to conjugation. */
        std::set<Ops> orbit(const Ops& w) const {
            std::set<Ops> out;
            if (kind == INFL && net->level > 1) out = net->orbit(w);
            else if (kind == PAULI) out = pauli.orbit(w);
            else out.insert(w);
            return out;
        }
        static bool shortlex_less(const Ops& a, const Ops& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }
        /** Identifies the moment of a (normal) word up to conjugation and sign. */
        Ops key(const Ops& w) const {
            Ops best;
            bool first = true;
            if (kind == INFL) {  // the library's choice of representative; C04 decides whether it is a sound one
                if (!ctx->can_have_aliases()) return w;
                return from_seq(ctx->simplify_as_moment(to_seq(*ctx, w, 0))).ops;
            }
            for (auto& x : orbit(w)) {
                for (auto& y : {x, conj(Word{false, 0, x}).ops}) if (first || shortlex_less(y, best)) { best = y; first = false; }
            }
            return best;
        }
        /** Identifies the moment of a (normal) word up to conjugation, sign, and all symmetries. */
        Ops moment_class(const Ops& w) const {
            if (kind != INFL) return key(w);
            Ops best;
            bool first = true;
            for (auto& x : orbit(w)) if (first || shortlex_less(x, best)) { best = x; first = false; }
            return best;
        }
        cd raw_value(const Ops& w) const { return {hashed_real(seed, w, 1), hashed_real(seed, w, 2)}; }
        cd value(const Word& w) const {      // w in normal form
            if (w.zero) return 0.0;
            if (w.ops.empty()) return i_to(w.sign);
            Ops k = w.ops;
            if (kind == INFL || (kind == PAULI && pauli.symmetric)) k = moment_class(w.ops);
            Word c = conj(Word{false, 0, k});
            return i_to(w.sign) * (raw_value(k) + std::conj(i_to(c.sign) * raw_value(c.ops)));
        }
        cd value(const Moment::OperatorSequence& q) const { return value(from_seq(q)); }
        cd value(const Moment::RawPolynomial& p) const {
            cd v = 0;
            for (auto& t : p) v += t.weight * value(t.sequence);
            return v;
        }
        /** Values of all symbols that have words. */
        std::vector<cd> symbol_values(const Moment::SymbolTable& st) const {
            std::vector<cd> v;
            for (auto& s : st) v.push_back(s.has_sequence() ? value(s.sequence()) : cd{0.0});
            return v;
        }
        Ops word(pbt::Case& c, size_t longest) const { return gen_word(c, n, std::min(longest, max_len)); }
        /** Random normal-form word; not zero. */
        Ops normal_word(pbt::Case& c, size_t longest) const {
            for (int i = 0; i < 20; ++i) { auto w = normal(word(c, longest)); if (!w.zero) return w.ops; }
            return {};
        }
    };

    inline cd eval(const Moment::Monomial& m, const std::vector<cd>& v) {
        cd x = v.at(static_cast<size_t>(m.id));
        return m.factor * (m.conjugated ? std::conj(x) : x);
    }
    inline cd eval(const Moment::Polynomial& p, const std::vector<cd>& v) {
        cd r = 0;
        for (auto& m : p) r += eval(m, v);
        return r;
    }

    struct SceneOptions {
        std::vector<int> kinds{FREE, LOC, PAULI, INFL, ALG};
        bool system = false;         // make a matrix system
        int max_ops = 8;
        size_t max_raw = 4;
        bool symmetric_pauli = true;
        bool lattices = true;
        int max_level = 2;
        bool empty_ok = false;
        double tolerance = 1.0;
    };

    /** Families of algebraic scenarios with signs and phases. */
    inline AlgebraSetting gen_signed_family(pbt::Case& c, int max_n) {
        AlgebraSetting s;
        s.raw = s.n = static_cast<int>(c.range(1, max_n));
        s.mode = AlgebraSetting::Mode::SelfAdjoint;
        for (int i = 0; i < s.n; ++i) {
            int t = static_cast<int>(c.below(3));
            if (t == 1) s.rules.push_back({{i, i}, 0, false, {}});
            if (t == 2) s.rules.push_back({{i, i}, 0, false, {i}});
            bool proj = t == 2;
            for (int j = 0; j < i; ++j) {
                int u = static_cast<int>(c.below(4));
                bool jproj = std::any_of(s.rules.begin(), s.rules.end(), [&](auto& r) { return r.lhs == Ops{j, j} && r.rhs == Ops{j}; });
                if (u == 1) s.rules.push_back({{i, j}, 0, false, {j, i}});
                if (u == 2 && !proj && !jproj) s.rules.push_back({{i, j}, 2, false, {j, i}});
            }
        }
        return s;
    }

    inline Scene gen_scene(pbt::Case& c, const SceneOptions& o) {
        Scene s;
        s.kind = o.kinds[c.below(o.kinds.size())];
        s.seed = c.below(1u << 20);
        std::unique_ptr<Moment::Context> ctx;
        switch (s.kind) {
            case FREE: {
                int n = static_cast<int>(c.range(o.empty_ok ? 0 : 1, std::min(4, o.max_ops)));
                s.ref = std::make_shared<Free>(n);
                s.name = pbt::str("free ", n);
                s.n = n;
                if (o.system) ctx = std::make_unique<Moment::Algebraic::AlgebraicContext>(static_cast<Moment::oper_name_t>(n));
                else ctx = std::make_unique<Moment::Context>(static_cast<size_t>(n));
                break;
            }
            case LOC: {
                s.loc = std::make_shared<Locality>(gen_locality(c, 3, 3, 4, 2, 1, o.max_ops));
                s.ref = s.loc;
                s.name = s.loc->text();
                s.n = s.loc->n;
                ctx = s.loc->make();
                break;
            }
            case PAULI: {
                auto& p = s.pauli;
                p.lattice = o.lattices && c.chance(35);
                int most = std::max(1, o.max_ops / 3 + 1);
                p.rows = static_cast<int>(c.range(1, p.lattice ? 3 : most));
                p.cols = p.lattice ? static_cast<int>(c.range(1, 3)) : 1;
                while (p.rows * p.cols > most && p.cols > 1) --p.cols;
                while (p.rows * p.cols > most && p.rows > 1) --p.rows;
                p.wrap = c.coin();
                p.symmetric = o.symmetric_pauli && c.coin();
                s.ref = std::make_shared<Pauli>(p.qubits());
                s.name = p.text();
                s.n = 3 * p.qubits();
                ctx = p.make();
                break;
            }
            case INFL: {
                s.net = std::make_shared<InflatedNet>(gen_inflation(c, 3, 3, o.max_level, std::max(4, o.max_ops), 3));
                s.ref = s.net;
                s.name = s.net->text();
                s.n = s.net->n;
                if (s.n == 0 && !o.empty_ok) throw pbt::Discard{};
                ctx = s.net->make();
                break;
            }
            default: {
                auto a = c.chance(60) ? gen_signed_family(c, std::min(4, o.max_ops)) : gen_algebra(c, static_cast<int>(o.max_raw), 4, 3);
                s.name = a.text();
                s.n = a.n;
                auto ac = std::make_unique<Moment::Algebraic::AlgebraicContext>(a.precontext(), a.commutative, true, a.lib_rules());
                Logger log{a.n};
                if (!ac->attempt_completion(16, &log)) throw pbt::Discard{};
                if (to_seq(*ac, {}).zero()) throw pbt::Discard{};
                if (from_seq(to_seq(*ac, {})).sign != 0) throw pbt::Discard{};
                ctx = std::move(ac);
                break;
            }
        }
        s.max_len = max_hashable(s.n) / 2;
        s.ctx = ctx.get();
        if (!o.system) { s.owned = std::move(ctx); return s; }
        using namespace Moment;
        switch (s.kind) {
            case FREE: case ALG: s.system = std::make_unique<Algebraic::AlgebraicMatrixSystem>(std::move(ctx), o.tolerance); break;
            case LOC: s.system = std::make_unique<Moment::Locality::LocalityMatrixSystem>(std::move(ctx), o.tolerance); break;
            case PAULI: s.system = std::make_unique<Moment::Pauli::PauliMatrixSystem>(
                std::unique_ptr<Moment::Pauli::PauliContext>(static_cast<Moment::Pauli::PauliContext*>(ctx.release())), o.tolerance); break;
            default: s.system = std::make_unique<Inflation::InflationMatrixSystem>(std::move(ctx), o.tolerance); break;
        }
        s.ctx = &s.system->Context();
        return s;
    }
}
