// Independent reference models of the operator algebras, used as oracles. Nothing here calls lib_moment's algebra.
#pragma once
#include "pbt.h"
#include "dictionary/operator_sequence.h"
#include "scenarios/context.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/locality/party.h"
#include "scenarios/inflation/inflation_context.h"
#include "scenarios/inflation/causal_network.h"
#include <functional>
#include <memory>

namespace model {
    using Ops = std::vector<int>;

    /** i^sign times a word (or zero). */
    struct Word {
        bool zero = false;
        int sign = 0;
        Ops ops{};
        bool operator==(const Word& o) const { return zero == o.zero && (zero || (sign == o.sign && ops == o.ops)); }
        bool operator<(const Word& o) const {
            if (zero != o.zero) return zero;
            if (zero) return false;
            if (ops.size() != o.ops.size()) return ops.size() < o.ops.size();
            if (ops != o.ops) return ops < o.ops;
            return sign < o.sign;
        }
    };
    inline Word Zero() { Word w; w.zero = true; return w; }

    /** Shortlex rank with the conventional offset: 0 is zero, 1 is identity. Bijective base-n numeral. */
    inline uint64_t shortlex(const Ops& ops, uint64_t n) {
        uint64_t h = 0;
        for (int o : ops) { h = h * n + static_cast<uint64_t>(o) + 1; }
        return h + 1;
    }

    struct Algebra {
        int n = 0;
        virtual ~Algebra() = default;
        virtual Word normal(const Ops& raw, int sign = 0) const = 0;
        virtual Word conj(const Word& w) const {
            if (w.zero) return w;
            Ops r(w.ops.rbegin(), w.ops.rend());
            return normal(r, (4 - w.sign) % 4);
        }
        Word mul(const Word& a, const Word& b) const {
            if (a.zero || b.zero) return Zero();
            Ops r = a.ops;
            r.insert(r.end(), b.ops.begin(), b.ops.end());
            return normal(r, (a.sign + b.sign) % 4);
        }
        /** All distinct non-zero normal forms (ignoring sign) of length at most len */
        std::set<Ops> all_words(size_t len) const {
            std::set<Ops> out;
            std::vector<Ops> layer{{}};
            out.insert(Ops{});
            for (size_t l = 1; l <= len; ++l) {
                std::vector<Ops> next;
                for (auto& w : layer) {
                    for (int o = 0; o < n; ++o) {
                        Ops x = w;
                        x.push_back(o);
                        next.push_back(x);
                        auto nf = normal(x);
                        if (!nf.zero && nf.ops.size() <= len) out.insert(nf.ops);
                    }
                }
                layer = std::move(next);
            }
            return out;
        }
    };

    /** No relations at all. */
    struct Free : Algebra {
        explicit Free(int count) { n = count; }
        Word normal(const Ops& raw, int sign) const override { return Word{false, sign, raw}; }
    };

    /** outcomes[party][mmt] = number of outcomes; the last outcome of each measurement is implicit. */
    struct Locality : Algebra {
        std::vector<std::vector<int>> outcomes;
        std::vector<int> party_of, mmt_of, outcome_of;   // by operator; mmt is global
        std::vector<std::vector<std::vector<int>>> op_at; // [party][mmt][outcome]
        int total_mmts = 0;
        explicit Locality(std::vector<std::vector<int>> o) : outcomes{std::move(o)} {
            for (size_t p = 0; p < outcomes.size(); ++p) {
                op_at.emplace_back();
                for (int k : outcomes[p]) {
                    op_at.back().emplace_back();
                    for (int x = 0; x + 1 < k; ++x) {
                        party_of.push_back(static_cast<int>(p));
                        mmt_of.push_back(total_mmts);
                        outcome_of.push_back(x);
                        op_at.back().back().push_back(n);
                        ++n;
                    }
                    ++total_mmts;
                }
            }
        }
        Word normal(const Ops& raw, int sign = 0) const override {
            // Per party, in order: drop immediate repeats; two different outcomes of one measurement in a row annihilate.
            Word w;
            w.sign = sign;
            for (size_t p = 0; p < outcomes.size(); ++p) {
                int last = -1;
                for (int o : raw) {
                    if (party_of[static_cast<size_t>(o)] != static_cast<int>(p)) continue;
                    if (o == last) continue;
                    if (last >= 0 && mmt_of[static_cast<size_t>(o)] == mmt_of[static_cast<size_t>(last)]) return Zero();
                    w.ops.push_back(o);
                    last = o;
                }
            }
            return w;
        }
        std::unique_ptr<Moment::Locality::LocalityContext> make() const {
            using namespace Moment;
            std::vector<Moment::Locality::Party> parties;
            for (size_t p = 0; p < outcomes.size(); ++p) {
                std::vector<Moment::Locality::Measurement> mm;
                for (size_t m = 0; m < outcomes[p].size(); ++m) {
                    mm.emplace_back(std::string(1, static_cast<char>('a' + m)), static_cast<oper_name_t>(outcomes[p][m]));
                }
                parties.emplace_back(static_cast<party_name_t>(p), std::string(1, static_cast<char>('A' + p)), std::move(mm));
            }
            return std::make_unique<Moment::Locality::LocalityContext>(std::move(parties));
        }
        std::string text() const {
            std::string s = "locality[";
            for (auto& p : outcomes) s += "(" + pbt::join(p) + ")";
            return s + "]";
        }
    };

    /** Random scenario: up to max_parties parties, each with up to max_mmts measurements of min_out..max_out outcomes. */
    inline Locality gen_locality(pbt::Case& c, int max_parties, int max_mmts, int max_out, int min_out = 2, int min_parties = 1, int max_ops = 1000, bool empty_party_ok = false) {
        std::vector<std::vector<int>> o;
        int np = static_cast<int>(c.range(min_parties, max_parties));
        int ops = 0;
        for (int p = 0; p < np; ++p) {
            std::vector<int> mm;
            int nm = static_cast<int>(c.range(empty_party_ok ? 0 : 1, max_mmts));
            for (int m = 0; m < nm; ++m) {
                int k = static_cast<int>(c.range(min_out, max_out));
                if (ops + k - 1 > max_ops) k = std::max(min_out, std::min(k, max_ops - ops + 1));
                if (ops + k - 1 > max_ops && !mm.empty()) break;
                ops += k - 1;
                mm.push_back(k);
            }
            o.push_back(mm);
        }
        return Locality{o};
    }

    inline Ops gen_word(pbt::Case& c, int n, size_t max_len) {
        if (n <= 0) return {};
        size_t len = static_cast<size_t>(c.sized(0, static_cast<int64_t>(max_len)));
        Ops w;
        for (size_t i = 0; i < len; ++i) w.push_back(static_cast<int>(c.below(static_cast<uint64_t>(n))));
        return w;
    }
    /** Longest length for which the shortlex rank certainly fits 64 bits. */
    inline size_t max_hashable(int n) {
        if (n <= 1) return 40;
        size_t len = 0;
        unsigned __int128 v = 1;
        while (true) {
            v = v * static_cast<unsigned>(n) + static_cast<unsigned>(n);
            if (v + 2 > static_cast<unsigned __int128>(UINT64_MAX)) return len;
            ++len;
        }
    }

    inline Moment::sequence_storage_t store(const Ops& o) {
        Moment::sequence_storage_t s;
        for (int x : o) s.push_back(static_cast<Moment::oper_name_t>(x));
        return s;
    }
    inline Moment::OperatorSequence to_seq(const Moment::Context& ctx, const Ops& o, int sign = 0) {
        return Moment::OperatorSequence{store(o), ctx, static_cast<Moment::SequenceSignType>(sign)};
    }
    inline Word from_seq(const Moment::OperatorSequence& s) {
        Word w;
        w.zero = s.zero();
        if (w.zero) return w;
        w.sign = static_cast<int>(s.get_sign());
        for (auto x : s) w.ops.push_back(x);
        return w;
    }
    inline Ops ops_of(const Moment::HashedSequence& s) {
        Ops o;
        for (auto x : s) o.push_back(x);
        return o;
    }
    inline std::string text(const Ops& o) { return "[" + pbt::join(o) + "]"; }
    inline std::string text(const Word& w) {
        if (w.zero) return "0";
        static const char* sg[] = {"", "i", "-", "-i"};
        return sg[w.sign & 3] + text(w.ops);
    }
    /** The library's value must be the model's value, with a hash that is the shortlex rank. */
    inline void same(const pbt::Case& c, const Moment::OperatorSequence& got, const Word& want, uint64_t radix, const std::string& what) {
        Word g = from_seq(got);
        c.checkf(g == want, [&] { return what + ": got " + text(g) + ", expected " + text(want); });
        if (want.zero) {
            c.check(got.hash() == 0, what + ": zero has hash " + std::to_string(got.hash()));
            c.check(got.size() == 0, what + ": zero keeps operators");
        } else if (want.ops.size() <= max_hashable(static_cast<int>(radix))) {
            c.checkf(got.hash() == shortlex(want.ops, radix), [&] {
                return what + ": hash of " + text(want) + " is " + std::to_string(got.hash()) + ", its shortlex rank is " + std::to_string(shortlex(want.ops, radix)); });
        }
    }

    /** Operators 3q, 3q+1, 3q+2 are X, Y, Z of qubit q. Words are kept as i^k prod X^x Z^z. */
    struct Pauli : Algebra {
        int qubits;
        explicit Pauli(int q) : qubits{q} { n = 3 * q; }
        Word normal(const Ops& raw, int sign = 0) const override {
            std::map<int, std::pair<int, int>> xz;
            int k = sign;
            for (int o : raw) {
                int q = o / 3, t = o % 3;
                int x = t != 2, z = t != 0;
                if (t == 1) k += 1;                       // Y = i X Z
                auto& [px, pz] = xz[q];
                if (pz && x) k += 2;                      // Z X = - X Z
                px ^= x;
                pz ^= z;
            }
            Word w;
            for (auto& [q, b] : xz) {
                auto [x, z] = b;
                if (x && z) { k += 3; w.ops.push_back(3 * q + 1); }   // X Z = -i Y
                else if (x) w.ops.push_back(3 * q);
                else if (z) w.ops.push_back(3 * q + 2);
            }
            w.sign = k & 3;
            return w;
        }
    };

    /** Commuting observables in an inflated causal network. sources[o]: explicit sources of observable o (none: singleton). */
    struct InflatedNet : Algebra {
        std::vector<int> outcomes;
        std::vector<std::vector<int>> sources;        // by observable, increasing
        int num_sources = 0, level = 1;
        struct Info { int obs, variant, outcome; std::vector<int> copies; };
        std::vector<Info> ops;
        std::vector<std::vector<int>> first_op;        // [obs][variant] -> first operator
        InflatedNet(std::vector<int> out, std::vector<std::vector<int>> src, int ns, int lev)
            : outcomes{std::move(out)}, sources{std::move(src)}, num_sources{ns}, level{lev} {
            for (size_t o = 0; o < outcomes.size(); ++o) {
                int copies = 1;
                for (size_t k = 0; k < sources[o].size(); ++k) copies *= level;
                first_op.emplace_back();
                for (int v = 0; v < copies; ++v) {
                    std::vector<int> idx;
                    int rest = v;
                    for (size_t k = 0; k < sources[o].size(); ++k) { idx.push_back(rest % level); rest /= level; }
                    first_op.back().push_back(static_cast<int>(ops.size()));
                    int count = outcomes[o] == 0 ? 1 : outcomes[o] - 1;
                    for (int x = 0; x < count; ++x) ops.push_back({static_cast<int>(o), v, x, idx});
                }
            }
            n = static_cast<int>(ops.size());
        }
        const Info& op(int o) const { return ops[static_cast<size_t>(o)]; }
        Word normal(const Ops& raw, int sign = 0) const override {
            Ops r = raw;
            std::sort(r.begin(), r.end());
            Word w;
            w.sign = sign;
            for (int o : r) {
                if (!w.ops.empty()) {
                    auto& p = op(w.ops.back());
                    auto& q = op(o);
                    if (w.ops.back() == o && outcomes[static_cast<size_t>(q.obs)] != 0) continue;
                    if (w.ops.back() != o && p.obs == q.obs && p.variant == q.variant) return Zero();
                }
                w.ops.push_back(o);
            }
            return w;
        }
        /** Explicit source copies (source * level + copy), or a private number for a singleton. */
        std::set<int> touches(int o) const {
            auto& i = op(o);
            auto& src = sources[static_cast<size_t>(i.obs)];
            if (src.empty()) return {1000000 + i.obs};
            std::set<int> s;
            for (size_t k = 0; k < src.size(); ++k) s.insert(src[k] * level + i.copies[k]);
            return s;
        }
        Ops permute(const Ops& w, const std::vector<std::vector<int>>& perm) const {
            Ops r;
            for (int o : w) {
                auto& i = op(o);
                auto& src = sources[static_cast<size_t>(i.obs)];
                int v = 0, base = 1;
                for (size_t k = 0; k < src.size(); ++k) { v += base * perm[static_cast<size_t>(src[k])][static_cast<size_t>(i.copies[k])]; base *= level; }
                r.push_back(first_op[static_cast<size_t>(i.obs)][static_cast<size_t>(v)] + i.outcome);
            }
            std::sort(r.begin(), r.end());
            return r;
        }
        /** Every word that relabelling the copies of each source can make of w (w in normal form). */
        std::set<Ops> orbit(const Ops& w) const {
            std::set<Ops> out;
            std::vector<std::vector<int>> perm(static_cast<size_t>(num_sources));
            std::function<void(size_t)> go = [&](size_t s) {
                if (s == perm.size()) { out.insert(permute(w, perm)); return; }
                std::vector<int> p;
                for (int k = 0; k < level; ++k) p.push_back(k);
                do { perm[s] = p; go(s + 1); } while (std::next_permutation(p.begin(), p.end()));
            };
            go(0);
            return out;
        }
        /** Connected components of a word (in normal form), as sorted words. */
        std::multiset<Ops> components(const Ops& w) const {
            std::vector<std::pair<std::set<int>, Ops>> parts;
            for (int o : w) {
                auto t = touches(o);
                Ops mine{o};
                for (size_t i = 0; i < parts.size();) {
                    bool meet = std::any_of(t.begin(), t.end(), [&](int x) { return parts[i].first.count(x) > 0; });
                    if (meet) {
                        t.insert(parts[i].first.begin(), parts[i].first.end());
                        mine.insert(mine.end(), parts[i].second.begin(), parts[i].second.end());
                        parts.erase(parts.begin() + static_cast<long>(i));
                    } else ++i;
                }
                parts.emplace_back(t, mine);
            }
            std::multiset<Ops> out;
            for (auto& [t, p] : parts) { std::sort(p.begin(), p.end()); out.insert(p); }
            return out;
        }
        Moment::Inflation::CausalNetwork network() const {
            std::vector<size_t> ob;
            for (int o : outcomes) ob.push_back(static_cast<size_t>(o));
            std::vector<std::set<Moment::oper_name_t>> src(static_cast<size_t>(num_sources));
            for (size_t o = 0; o < sources.size(); ++o) for (int s : sources[o]) src[static_cast<size_t>(s)].insert(static_cast<Moment::oper_name_t>(o));
            return Moment::Inflation::CausalNetwork{ob, std::move(src)};
        }
        std::unique_ptr<Moment::Inflation::InflationContext> make() const {
            return std::make_unique<Moment::Inflation::InflationContext>(network(), static_cast<size_t>(level));
        }
        std::string text() const {
            std::string s = pbt::str("inflation level ", level, " [");
            for (size_t o = 0; o < outcomes.size(); ++o) s += pbt::str("(", outcomes[o], ":", pbt::join(sources[o]), ")");
            return s + "]";
        }
    };
    inline InflatedNet gen_inflation(pbt::Case& c, int max_obs, int max_src, int max_level, int max_ops, int max_out = 3, bool unusual = true) {
        int no = static_cast<int>(c.range(1, max_obs)), ns = static_cast<int>(c.range(0, max_src)), lev = static_cast<int>(c.range(1, max_level));
        std::vector<int> out;
        std::vector<std::vector<int>> src;
        int total = 0;
        for (int o = 0; o < no; ++o) {
            int k = unusual && c.chance(12) ? static_cast<int>(c.below(2)) : static_cast<int>(c.range(2, max_out));
            std::vector<int> s;
            for (int i = 0; i < ns; ++i) if (c.chance(50)) s.push_back(i);
            auto size = [&] { int copies = 1; for (size_t i = 0; i < s.size(); ++i) copies *= lev; return copies * (k == 0 ? 1 : k - 1); };
            while (!s.empty() && total + size() > max_ops) s.pop_back();
            if (total + size() > max_ops) { if (o > 0) break; k = 2; }
            total += size();
            out.push_back(k);
            src.push_back(s);
        }
        return InflatedNet{out, src, ns, lev};
    }
}
