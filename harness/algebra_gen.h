// Random *-representations by generalised partial permutation matrices (exact), and rule sets that hold in them.
#pragma once
#include "models.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_precontext.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "scenarios/algebraic/operator_rule.h"

namespace model {
    /** d x d matrix with at most one entry i^ph per column: column c has its entry in row to[c] (-1: none). */
    struct PMat {
        std::vector<int> to, ph;
        static PMat id(int d) {
            PMat m;
            for (int i = 0; i < d; ++i) { m.to.push_back(i); m.ph.push_back(0); }
            return m;
        }
        bool operator==(const PMat& o) const { return to == o.to && ph == o.ph; }
        bool operator<(const PMat& o) const { return std::tie(to, ph) < std::tie(o.to, o.ph); }
        PMat operator*(const PMat& r) const {   // (this * r) e_c = this (r e_c)
            PMat m;
            for (size_t c = 0; c < to.size(); ++c) {
                int mid = r.to[c];
                if (mid < 0 || to[static_cast<size_t>(mid)] < 0) { m.to.push_back(-1); m.ph.push_back(0); continue; }
                m.to.push_back(to[static_cast<size_t>(mid)]);
                m.ph.push_back((r.ph[c] + ph[static_cast<size_t>(mid)]) & 3);
            }
            return m;
        }
        PMat adjoint() const {
            PMat m;
            m.to.assign(to.size(), -1);
            m.ph.assign(to.size(), 0);
            for (size_t c = 0; c < to.size(); ++c) if (to[c] >= 0) {
                m.to[static_cast<size_t>(to[c])] = static_cast<int>(c);
                m.ph[static_cast<size_t>(to[c])] = (4 - ph[c]) & 3;
            }
            return m;
        }
        PMat phased(int k) const {
            PMat m = *this;
            for (size_t c = 0; c < to.size(); ++c) if (to[c] >= 0) m.ph[c] = (m.ph[c] + k) & 3;
            return m;
        }
        bool zero() const { return std::all_of(to.begin(), to.end(), [](int x) { return x < 0; }); }
        /** The phase-normalised matrix, and the phase taken out. */
        std::pair<PMat, int> normal() const {
            for (size_t c = 0; c < to.size(); ++c) if (to[c] >= 0) return {phased((4 - ph[c]) & 3), ph[c]};
            return {*this, 0};
        }
    };

    struct Relation { Ops lhs; int sign; bool zero; Ops rhs; int both = 0; };   // lhs = i^sign rhs, or lhs = 0; supplied with i^both before each side

    struct AlgebraSetting {
        int raw = 1;
        Moment::Algebraic::AlgebraicPrecontext::ConjugateMode mode{};
        int n = 1;
        bool commutative = false, normal = true;
        int d = 1;
        std::vector<PMat> rep;
        std::vector<Relation> rules;
        using Mode = Moment::Algebraic::AlgebraicPrecontext::ConjugateMode;

        int conj_op(int o) const {
            switch (mode) {
                case Mode::SelfAdjoint: return o;
                case Mode::Bunched: return (o + raw) % n;
                default: return o ^ 1;
            }
        }
        Ops conj(const Ops& w) const {
            Ops r;
            for (size_t i = w.size(); i-- > 0;) r.push_back(conj_op(w[i]));
            return r;
        }
        PMat value(const Ops& w) const {
            PMat m = PMat::id(d);
            for (int o : w) m = m * rep[static_cast<size_t>(o)];
            return m;
        }
        PMat value(const Word& w) const {
            if (w.zero) { PMat z; z.to.assign(static_cast<size_t>(d), -1); z.ph.assign(static_cast<size_t>(d), 0); return z; }
            return value(w.ops).phased(w.sign);
        }
        Moment::Algebraic::AlgebraicPrecontext precontext() const {
            return Moment::Algebraic::AlgebraicPrecontext{static_cast<Moment::oper_name_t>(raw), mode};
        }
        Moment::HashedSequence hashed(const Ops& w, int sign = 0) const {
            auto pc = precontext();
            return Moment::HashedSequence{store(w), pc.hasher, static_cast<Moment::SequenceSignType>(sign)};
        }
        std::vector<Moment::Algebraic::OperatorRule> lib_rules() const {
            std::vector<Moment::Algebraic::OperatorRule> r;
            for (auto& x : rules) r.emplace_back(hashed(x.lhs, x.both), x.zero ? Moment::HashedSequence{true} : hashed(x.rhs, (x.sign + x.both) & 3));
            return r;
        }
        std::string text() const {
            std::string s = pbt::str(raw, mode == Mode::SelfAdjoint ? " self-adjoint" : mode == Mode::Bunched ? " bunched" : " interleaved", " operators",
                                     commutative ? " commuting" : "", " rules{");
            static const char* sg[] = {"", "i", "-", "-i"};
            for (auto& r : rules) s += sg[r.both] + model::text(r.lhs) + "=" + sg[r.both] + (r.zero ? "0" : sg[r.sign] + model::text(r.rhs)) + " ";
            return s + "}";
        }
    };

    inline PMat gen_pmat(pbt::Case& c, int d, bool self_adjoint, bool diagonal) {
        PMat m;
        m.to.assign(static_cast<size_t>(d), -1);
        m.ph.assign(static_cast<size_t>(d), 0);
        int style = static_cast<int>(c.below(4));   // 0: projector-like, 1: full support, 2: partial, 3: phases
        std::vector<int> support;
        for (int i = 0; i < d; ++i) if (style == 1 || c.chance(75)) support.push_back(i);
        auto set = [&](int col, int row, int ph) { m.to[static_cast<size_t>(col)] = row; m.ph[static_cast<size_t>(col)] = ph & 3; };
        if (style == 0) { for (int i : support) set(i, i, 0); return m; }
        bool phases = style == 3;
        if (diagonal) {
            for (int i : support) set(i, i, phases ? (self_adjoint ? 2 * static_cast<int>(c.below(2)) : static_cast<int>(c.below(4))) : 0);
            return m;
        }
        std::vector<int> perm = support;
        c.shuffle(perm);
        if (self_adjoint) {
            size_t i = 0;
            while (i < perm.size()) {
                if (i + 1 < perm.size() && c.chance(70)) {
                    int p = phases ? static_cast<int>(c.below(4)) : 0;
                    set(perm[i], perm[i + 1], p);
                    set(perm[i + 1], perm[i], 4 - p);
                    i += 2;
                } else {
                    set(perm[i], perm[i], phases ? 2 * static_cast<int>(c.below(2)) : 0);
                    ++i;
                }
            }
        } else {
            for (size_t i = 0; i < perm.size(); ++i) set(support[i], perm[i], phases ? static_cast<int>(c.below(4)) : 0);
        }
        return m;
    }

    inline AlgebraSetting gen_algebra(pbt::Case& c, int max_raw, size_t max_rules, size_t rule_len, int max_d = 4) {
        AlgebraSetting s;
        using Mode = AlgebraSetting::Mode;
        int md = static_cast<int>(c.below(4));
        s.mode = md < 2 ? Mode::SelfAdjoint : md == 2 ? Mode::Bunched : Mode::Interleaved;
        s.raw = static_cast<int>(c.range(1, md < 2 ? max_raw : std::max(1, max_raw / 2)));
        s.n = md < 2 ? s.raw : 2 * s.raw;
        s.commutative = c.chance(20);
        s.normal = true;
        s.d = static_cast<int>(c.range(1, max_d));
        s.rep.assign(static_cast<size_t>(s.n), PMat{});
        for (int o = 0; o < s.raw; ++o) {
            auto m = gen_pmat(c, s.d, md < 2, s.commutative);
            if (s.mode == Mode::SelfAdjoint) { s.rep[static_cast<size_t>(o)] = m; continue; }
            int a = s.mode == Mode::Bunched ? o : 2 * o;
            s.rep[static_cast<size_t>(a)] = m;
            s.rep[static_cast<size_t>(s.conj_op(a))] = m.adjoint();
        }
        // all words up to rule_len, by value
        std::map<PMat, std::vector<std::pair<Ops, int>>> classes;
        std::vector<std::pair<Ops, PMat>> layer{{Ops{}, PMat::id(s.d)}};
        std::vector<std::pair<Ops, PMat>> all = layer;
        for (size_t l = 1; l <= rule_len && all.size() < 600; ++l) {
            std::vector<std::pair<Ops, PMat>> next;
            for (auto& [w, v] : layer) for (int o = 0; o < s.n; ++o) {
                Ops x = w;
                x.push_back(o);
                next.emplace_back(x, v * s.rep[static_cast<size_t>(o)]);
            }
            all.insert(all.end(), next.begin(), next.end());
            layer = std::move(next);
        }
        for (auto& [w, v] : all) { auto [k, p] = v.normal(); classes[k].emplace_back(w, p); }
        std::vector<std::vector<std::pair<Ops, int>>*> usable;
        std::vector<bool> zero;
        for (auto& [k, v] : classes) {
            if (k.zero()) { usable.push_back(&v); zero.push_back(true); }
            else if (v.size() > 1) { usable.push_back(&v); zero.push_back(false); }
        }
        if (usable.empty()) return s;
        size_t nr = static_cast<size_t>(c.range(1, static_cast<int64_t>(max_rules)));
        for (size_t i = 0; i < nr; ++i) {
            size_t k = c.below(usable.size());
            auto& cls = *usable[k];
            Relation r;
            if (zero[k]) {
                size_t lim = c.chance(50) ? std::min<size_t>(cls.size(), 6) : cls.size();
                r = Relation{cls[c.below(lim)].first, 0, true, {}};
                if (r.lhs.empty()) continue;
                if (c.chance(35)) {
                    // words that vanish may be said to be equal with any sign, which makes them vanish only once there are two such rules
                    auto a = c.below(lim), b = c.below(lim);
                    if (a < b) std::swap(a, b);
                    r = Relation{cls[a].first, static_cast<int>(a == b ? 1 + c.below(3) : c.below(4)), false, cls[b].first};
                    if (!s.rules.empty() && c.coin()) for (auto& q : s.rules) if (!q.zero && s.value(q.lhs).zero()) { r = q; r.sign = (q.sign + static_cast<int>(c.below(4))) & 3; break; }
                }
            } else {
                // words are in shortlex order within a class: the later one is the left-hand side
                size_t lim = c.chance(50) ? std::min<size_t>(cls.size(), 6) : cls.size();
                size_t hi = 1 + c.below(lim - 1);
                size_t lo = c.chance(50) ? 0 : c.below(hi);
                r = Relation{cls[hi].first, (cls[hi].second - cls[lo].second + 4) & 3, false, cls[lo].first};
            }
            if (c.chance(15)) r.both = static_cast<int>(c.below(4));
            s.rules.push_back(r);
        }
        return s;
    }

    struct Logger : Moment::Algebraic::RuleLogger {
        size_t longest = 0, seen = 0, limit;
        explicit Logger(int n) : limit{max_hashable(n)} { }
        // Completion need not end; nor do ranks beyond 64 bits mean anything.
        void see(const Moment::Algebraic::OperatorRule& r) { longest = std::max(longest, r.LHS().size()); if (longest * 2 > limit || ++seen > 400) throw pbt::Discard{}; }
        void rule_reduced(const Moment::Algebraic::OperatorRule&, const Moment::Algebraic::OperatorRule& n) override { see(n); }
        void rule_removed(const Moment::Algebraic::OperatorRule&) override { }
        void rule_introduced(const Moment::Algebraic::OperatorRule&, const Moment::Algebraic::OperatorRule&, const Moment::Algebraic::OperatorRule& n) override { see(n); }
        void rule_introduced(const Moment::Algebraic::OperatorRule& n) override { see(n); }
        void rule_introduced_conjugate(const Moment::Algebraic::OperatorRule&, const Moment::Algebraic::OperatorRule& n) override { see(n); }
        void success(const Moment::Algebraic::OperatorRulebook&, size_t) override { }
        void failure(const Moment::Algebraic::OperatorRulebook&, size_t) override { }
    };
}
