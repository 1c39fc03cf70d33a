// C19: Pauli chains and lattices: translation symmetry, site hashes and nearest-neighbour lists.
#include "scene.h"
#include "scenarios/pauli/pauli_osg.h"
#include "scenarios/pauli/symmetry/lattice_duplicator.h"
#include "scenarios/pauli/symmetry/moment_simplifier_wrapping.h"
#include "scenarios/pauli/symmetry/moment_simplifier_no_wrapping.h"
#include "matrix/symbolic_matrix.h"
#include "matrix/monomial_matrix.h"
using namespace Moment;
using namespace model;
namespace mp = Moment::Pauli;

namespace {
    using Span = std::span<const oper_name_t>;
    Span span_of(const sequence_storage_t& s) { return Span{s.begin(), s.end()}; }
    Ops ops_of_raw(const sequence_storage_t& s) { Ops o; for (auto x : s) o.push_back(static_cast<int>(x)); return o; }

    /** Any chain or lattice with at most this many qubits; numbers around multiples of 32 are preferred. */
    PauliLattice geometry(pbt::Case& c, int most, int wrap = -1, int symmetric = 1) {
        PauliLattice p;
        p.lattice = c.coin();
        p.wrap = wrap < 0 ? !c.chance(35) : wrap;
        p.symmetric = symmetric < 0 ? c.coin() : symmetric;
        int target = static_cast<int>(c.range(1, most));
        if (most > 40) {
            switch (c.below(4)) {
                case 0: target = static_cast<int>(c.range(1, 12)); break;
                case 1: target = static_cast<int>(std::min<int64_t>(most, std::max<int64_t>(1, 32 * c.range(1, 8) + c.range(-2, 2)))); break;
                default: break;
            }
        }
        if (!p.lattice) { p.rows = target; p.cols = 1; }
        else {
            switch (c.below(3)) {
                case 0: p.rows = static_cast<int>(c.range(1, std::min(target, 12))); p.cols = std::max(1, target / p.rows); break;
                case 1: p.cols = static_cast<int>(c.range(1, std::min(target, 6))); p.rows = std::max(1, target / p.cols); break;
                default: p.rows = std::max(1, static_cast<int>(std::sqrt(target))); p.cols = std::max(1, target / p.rows); break;
            }
        }
        c.note(p.text());
        c.label(p.lattice ? (p.wrap ? "wrapped lattice" : "lattice") : (p.wrap ? "wrapped chain" : "chain"));
        c.label(pbt::str((p.qubits() + 31) / 32, " slides"));
        if (p.lattice && p.rows > 32) c.label("tall columns");
        return p;
    }
    Ops random_word(pbt::Case& c, const PauliLattice& p, int max_len) {
        int n = static_cast<int>(c.range(1, std::min(max_len, p.qubits())));
        std::set<int> sites;
        switch (c.below(4)) {
            case 0:   // periodic
            {
                int step = static_cast<int>(c.range(1, p.qubits())), at = static_cast<int>(c.below(static_cast<uint64_t>(p.qubits())));
                for (int i = 0; i < n; ++i) sites.insert((at + i * step) % p.qubits());
                break;
            }
            case 1:   // clustered
            {
                int at = static_cast<int>(c.below(static_cast<uint64_t>(p.qubits())));
                for (int i = 0; i < n; ++i) sites.insert((at + static_cast<int>(c.below(static_cast<uint64_t>(2 * n)))) % p.qubits());
                break;
            }
            case 2:   // translates of one another in 2D
            {
                int dr = static_cast<int>(c.below(static_cast<uint64_t>(p.rows))), dc = static_cast<int>(c.below(static_cast<uint64_t>(p.cols)));
                int q = static_cast<int>(c.below(static_cast<uint64_t>(p.qubits())));
                for (int i = 0; i < n; ++i) {
                    sites.insert(q);
                    q = ((q / p.rows + dc) % p.cols) * p.rows + (q % p.rows + dr) % p.rows;
                }
                break;
            }
            default:
                for (int i = 0; i < n; ++i) sites.insert(static_cast<int>(c.below(static_cast<uint64_t>(p.qubits()))));
        }
        Ops w;
        bool uniform = c.coin();
        int op = static_cast<int>(c.below(3));
        for (int s : sites) w.push_back(3 * s + (uniform ? op : static_cast<int>(c.below(3))));
        return w;
    }
    std::string list(const Ops& w) { return text(w); }
    Ops shift_linear(const PauliLattice& p, const Ops& w, int by) {
        Ops r;
        for (int o : w) {
            int q = o / 3 + by, n = p.qubits();
            if (p.wrap) q = ((q % n) + n) % n;
            if (q < 0 || q >= n) return {-1};
            r.push_back(3 * q + o % 3);
        }
        std::sort(r.begin(), r.end());
        return r;
    }

    // --- the hasher itself
    struct BitHash {
        std::vector<uint64_t> v;
        bool operator==(const BitHash&) const = default;
    };
    template<size_t N> std::vector<uint64_t> datum(const typename mp::SiteHasher<N>::Datum& d) {
        if constexpr (N == 1) return {d}; else return std::vector<uint64_t>(d.begin(), d.end());
    }
    std::vector<uint64_t> hash_model(const Ops& w, size_t slides) {
        std::vector<uint64_t> r(slides, 0);
        for (int o : w) r[static_cast<size_t>(o / 3) / 32] |= (static_cast<uint64_t>(o % 3) + 1) << (2 * ((o / 3) % 32));
        return r;
    }
    template<size_t N> void check_hasher(pbt::Case& c, const PauliLattice& p) {
        mp::SiteHasher<N> h{static_cast<size_t>(p.rows), static_cast<size_t>(p.cols)};
        PauliLattice lat = p;
        lat.wrap = true;
        auto expect = [&](const typename mp::SiteHasher<N>::Datum& got, const Ops& want, const std::string& what) {
            auto g = datum<N>(got), w = hash_model(want, N);
            c.checkf(g == w, [&] {
                return pbt::str(what, " gives hash ", pbt::join(g), " of word ", list(ops_of_raw(h.unhash(got))), " instead of that of ", list(want));
            });
        };
        expect(h.empty_hash(), {}, "empty hash");
        Ops w = random_word(c, p, 12);
        c.note(list(w));
        auto raw = store(w);
        auto d = h(span_of(raw));
        expect(d, w, "hash");
        c.check(ops_of_raw(h.unhash(d)) == w, pbt::str("unhash(hash) of ", list(w), " is ", list(ops_of_raw(h.unhash(d)))));
        for (int t = 0; t < 4; ++t) {
            int by = static_cast<int>(c.below(static_cast<uint64_t>(2 * p.qubits() + 1)));
            expect(h.cyclic_shift(d, static_cast<size_t>(by)), shift_linear(lat, w, by), pbt::str("cyclic shift by ", by, " of ", list(w)));
            int dr = static_cast<int>(c.below(static_cast<uint64_t>(2 * p.rows))), dc = static_cast<int>(c.below(static_cast<uint64_t>(2 * p.cols)));
            expect(h.row_cyclic_shift(d, static_cast<size_t>(dr)), lat.shift(w, dr, 0), pbt::str("shift by ", dr, " rows of ", list(w)));
            expect(h.col_shift(d, static_cast<size_t>(dc)), lat.shift(w, 0, dc), pbt::str("shift by ", dc, " columns of ", list(w)));
            expect(h.lattice_shift(d, static_cast<size_t>(dr), static_cast<size_t>(dc)), lat.shift(w, dr, dc), pbt::str("shift by ", dr, ", ", dc, " of ", list(w)));
        }
        if (p.rows <= 32) {
            for (int col = 0; col < p.cols; ++col) {
                uint64_t want = 0;
                for (int o : w) if (o / 3 / p.rows == col) want |= (static_cast<uint64_t>(o % 3) + 1) << (2 * ((o / 3) % p.rows));
                auto got = h.extract_column(d, static_cast<size_t>(col));
                c.check(got == want, pbt::str("column ", col, " of ", list(w), " is ", got, " instead of ", want));
            }
        }
        size_t alias = static_cast<size_t>(p.qubits());
        for (int s = 1; s < p.qubits(); ++s) if (shift_linear(lat, w, s) == w) { alias = static_cast<size_t>(s); break; }
        c.check(h.first_chain_alias(d) == alias, pbt::str("first chain alias of ", list(w), " is ", h.first_chain_alias(d), " instead of ", alias));
        if (alias < static_cast<size_t>(p.qubits())) c.label("periodic word");
        // Comparison of hashes is that of the numbers they stand for.
        Ops w2 = c.coin() ? random_word(c, p, 12) : lat.shift(w, static_cast<int>(c.below(static_cast<uint64_t>(p.rows))), static_cast<int>(c.below(static_cast<uint64_t>(p.cols))));
        auto raw2 = store(w2);
        auto v1 = hash_model(w, N), v2 = hash_model(w2, N);
        std::reverse(v1.begin(), v1.end());
        std::reverse(v2.begin(), v2.end());
        c.check(h.less(d, h(span_of(raw2))) == (v1 < v2), "less() of hashes is wrong");
        auto [canon, actual] = h.canonical_hash(span_of(raw));
        expect(actual, w, "actual hash");
        auto [canon2, actual2] = h.canonical_hash(span_of(raw2));
        bool same_orbit = lat.orbit(w).contains(w2);
        PauliLattice sym = lat;
        sym.symmetric = true;
        same_orbit = sym.orbit(w).contains(w2);
        c.check((datum<N>(canon) == datum<N>(canon2)) == same_orbit, pbt::str("canonical hashes of ", list(w), " and ", list(w2), same_orbit ? " differ" : " agree"));
        c.check(sym.orbit(w).contains(ops_of_raw(h.unhash(canon))), "canonical hash is not that of a translate");
    }

    // --- sets of words
    std::string difference(const std::vector<Ops>& got, const std::vector<Ops>& want) {
        std::map<Ops, long> n;
        for (auto& w : got) n[w]++;
        for (auto& w : want) n[w]--;
        for (auto& [w, k] : n) {
            if (k > 0) return pbt::str(list(w), " is in the list ", k, " time(s) too many (", got.size(), " words instead of ", want.size(), ")");
            if (k < 0) return pbt::str(list(w), " is missing (", got.size(), " words instead of ", want.size(), ")");
        }
        return "";
    }
    void words_on(const std::set<int>& sites, std::vector<Ops>& out) {
        std::vector<Ops> part{{}};
        for (int s : sites) {
            std::vector<Ops> next;
            for (auto& w : part) for (int t = 0; t < 3; ++t) { auto v = w; v.push_back(3 * s + t); next.push_back(v); }
            part = next;
        }
        out.insert(out.end(), part.begin(), part.end());
    }
    std::vector<Ops> collect(const std::vector<OperatorSequence>& s, size_t from, size_t to, pbt::Case& c, uint64_t radix, size_t hashable_len) {
        std::vector<Ops> out;
        for (size_t i = from; i < to; ++i) {
            auto w = from_seq(s[i]);
            c.check(!w.zero && w.sign == 0, pbt::str("word ", list(w.ops), " in list has a sign"));
            c.check(std::is_sorted(w.ops.begin(), w.ops.end()), pbt::str("word ", list(w.ops), " is not sorted"));
            if (w.ops.size() <= hashable_len) c.check(s[i].hash() == shortlex(w.ops, radix), pbt::str("word ", list(w.ops), " has wrong hash"));
            out.push_back(w.ops);
        }
        return out;
    }
    std::set<int> shift_sites(const PauliLattice& p, const std::set<int>& sites, int dr, int dc) {
        std::set<int> r;
        for (int q : sites) {
            int row = q % p.rows + dr, col = q / p.rows + dc;
            if (p.wrap) { row = ((row % p.rows) + p.rows) % p.rows; col = ((col % p.cols) + p.cols) % p.cols; }
            if (row < 0 || col < 0 || row >= p.rows || col >= p.cols) return {};
            r.insert(col * p.rows + row);
        }
        return r;
    }
    /** All sets of sites which count as neighbours */
    std::set<std::set<int>> neighbourhoods(const PauliLattice& p, int level, int near) {
        std::set<std::set<int>> out;
        int n = p.qubits();
        out.insert(std::set<int>{});
        if (level >= 1) for (int q = 0; q < n; ++q) out.insert({q});
        if (near == 0) {
            std::function<void(std::set<int>, int)> grow = [&](std::set<int> s, int from) {
                out.insert(s);
                if (static_cast<int>(s.size()) == level) return;
                for (int q = from; q < n; ++q) { auto t = s; t.insert(q); grow(t, q + 1); }
            };
            grow({}, 0);
            return out;
        }
        if (!p.lattice) {
            // Sites in order along the chain, each at most `near' after the previous one.
            std::function<void(std::set<int>, int, int)> grow = [&](std::set<int> s, int first, int last) {
                out.insert(s);
                if (static_cast<int>(s.size()) == level) return;
                for (int d = 1; d <= near; ++d) {
                    int q = last + d;
                    if (p.wrap ? (q - first >= n) : (q >= n)) break;
                    auto t = s;
                    t.insert(q % n);
                    grow(t, first, q);
                }
            };
            if (level >= 1) for (int q = 0; q < n; ++q) grow({q}, q, q);
            return out;
        }
        using Shape = std::vector<std::pair<int, int>>;
        std::vector<Shape> shapes;
        if (level >= 2) { shapes.push_back({{0, 0}, {1, 0}}); shapes.push_back({{0, 0}, {0, 1}}); }
        if (level >= 3) {
            shapes.push_back({{0, 0}, {1, 0}, {2, 0}});
            shapes.push_back({{0, 0}, {0, 1}, {0, 2}});
            for (int skip = 0; skip < 4; ++skip) {
                Shape s;
                for (int i = 0; i < 4; ++i) if (i != skip) s.push_back({i % 2, i / 2});
                shapes.push_back(s);
            }
        }
        if (level >= 4) shapes.push_back({{0, 0}, {1, 0}, {0, 1}, {1, 1}});
        for (auto& shape : shapes) for (int r = 0; r < p.rows; ++r) for (int col = 0; col < p.cols; ++col) {
            std::set<int> s;
            bool fits = true;
            for (auto [dr, dc] : shape) {
                int a = r + dr, b = col + dc;
                if (p.wrap) { a %= p.rows; b %= p.cols; }
                if (a >= p.rows || b >= p.cols) { fits = false; break; }
                s.insert(b * p.rows + a);
            }
            if (fits && s.size() == shape.size()) out.insert(s);
        }
        return out;
    }
}

LAW(site_hashes, "more than one qubit and a word of at least two sites", 6000, 120000) {
    auto p = geometry(c, 256, 1);
    c.nontrivial(p.qubits() > 1);
    switch ((p.qubits() + 31) / 32) {
        case 0: case 1: check_hasher<1>(c, p); break;
        case 2: check_hasher<2>(c, p); break;
        case 3: check_hasher<3>(c, p); break;
        case 4: check_hasher<4>(c, p); break;
        case 5: check_hasher<5>(c, p); break;
        case 6: check_hasher<6>(c, p); break;
        case 7: check_hasher<7>(c, p); break;
        default: check_hasher<8>(c, p); break;
    }
}

LAW(representatives, "a word with a translate other than itself", 4000, 80000) {
    auto p = geometry(c, 256);
    auto ctx = p.make();
    const auto& ms = ctx->moment_simplifier();
    for (int t = 0; t < 3; ++t) {
        Ops w = random_word(c, p, 10);
        auto raw = store(w);
        c.note(list(w));
        auto orbit = p.orbit(w);
        c.nontrivial(orbit.size() > 1);
        auto rep = ops_of_raw(ms.canonical_sequence(span_of(raw)));
        c.check(orbit.contains(rep), pbt::str("representative ", list(rep), " of ", list(w), " is not a translate of it"));
        c.check(ms.is_canonical(span_of(raw)) == (rep == w), pbt::str("is_canonical wrong for ", list(w)));
        auto rr = store(rep);
        c.check(ms.is_canonical(span_of(rr)), pbt::str("representative ", list(rep), " is not canonical"));
        c.check(ops_of_raw(ms.canonical_sequence(span_of(rr))) == rep, "representative of representative differs");
        std::vector<Ops> others(orbit.begin(), orbit.end());
        for (int k = 0; k < 4; ++k) {
            const Ops& o = c.pick(others);
            auto ro = store(o);
            auto r2 = ops_of_raw(ms.canonical_sequence(span_of(ro)));
            c.check(r2 == rep, pbt::str("translate ", list(o), " of ", list(w), " has representative ", list(r2), ", not ", list(rep)));
            c.check(ms.is_canonical(span_of(ro)) == (o == rep), pbt::str("is_canonical wrong for ", list(o)));
        }
        // A word of similar shape
        Ops v = c.pick(others);
        switch (c.below(3)) {
            case 0: { auto i = c.below(v.size()); v[i] = 3 * (v[i] / 3) + static_cast<int>(c.below(3)); break; }
            case 1: {
                auto i = c.below(v.size());
                int q = static_cast<int>(c.below(static_cast<uint64_t>(p.qubits())));
                bool free = true;
                for (int o : v) free = free && o / 3 != q;
                if (free) v[i] = 3 * q + v[i] % 3;
                std::sort(v.begin(), v.end());
                break;
            }
            default: v = shift_linear({p.rows, p.cols, p.lattice, true, true}, v, static_cast<int>(c.below(static_cast<uint64_t>(p.qubits()))));
        }
        auto rv = store(v);
        auto r3 = ops_of_raw(ms.canonical_sequence(span_of(rv)));
        c.check((r3 == rep) == orbit.contains(v), pbt::str("words ", list(w), " and ", list(v), r3 == rep ? " share a representative" : " have different representatives"));
    }
    Ops none;
    auto rn = store(none);
    c.check(ms.canonical_sequence(span_of(rn)).empty() && ms.is_canonical(span_of(rn)), "identity");
}

LAW(offsets, "a non-zero offset", 4000, 80000) {
    auto p = geometry(c, 256);
    auto ctx = p.make();
    const auto& ms = ctx->moment_simplifier();
    for (int t = 0; t < 4; ++t) {
        Ops w = random_word(c, p, 8);
        auto raw = store(w);
        c.note(list(w));
        int by = static_cast<int>(c.range(-2 * p.qubits(), 2 * p.qubits()));
        int dr = static_cast<int>(c.range(-2 * p.rows, 2 * p.rows)), dc = static_cast<int>(c.range(-2 * p.cols, 2 * p.cols));
        if (!p.wrap) {
            by = static_cast<int>(c.range(-p.qubits(), p.qubits()));
            dr = static_cast<int>(c.range(-p.rows, p.rows));
            dc = static_cast<int>(c.range(-p.cols, p.cols));
        }
        auto want = shift_linear(p, w, by);
        if (want.empty() || want[0] >= 0) {
            auto got = ops_of_raw(ms.chain_offset(span_of(raw), by));
            c.check(got == want, pbt::str("offset ", by, " of ", list(w), " gives ", list(got), " instead of ", list(want)));
            c.nontrivial(by != 0);
            if (by < 0) c.label("negative");
        }
        if (p.lattice) {
            want = p.shift(w, dr, dc);
            if (want.empty() || want[0] >= 0) {
                auto got = ops_of_raw(ms.lattice_offset(span_of(raw), dr, dc));
                c.check(got == want, pbt::str("offset ", dr, " rows, ", dc, " columns of ", list(w), " gives ", list(got), " instead of ", list(want)));
            }
        }
    }
}

LAW(moments_in_context, "words with signs and at least two qubits", 3000, 60000) {
    auto p = geometry(c, 40);
    auto ctx = p.make();
    c.nontrivial(p.qubits() > 1);
    for (int t = 0; t < 4; ++t) {
        Ops w = random_word(c, p, static_cast<int>(std::min<size_t>(8, max_hashable(3 * p.qubits()))));
        int sign = static_cast<int>(c.below(4));
        auto seq = to_seq(*ctx, w, sign);
        auto orbit = p.orbit(w);
        auto rep = ctx->simplify_as_moment(seq);
        auto r = from_seq(rep);
        c.check(!r.zero && r.sign == sign, pbt::str("sign of moment of ", list(w)));
        c.check(orbit.contains(r.ops), pbt::str("moment ", list(r.ops), " of ", list(w), " is not a translate"));
        c.check(rep.hash() == shortlex(r.ops, static_cast<uint64_t>(ctx->size())), "hash of moment");
        c.check(ctx->can_be_simplified_as_moment(seq) == (r.ops != w), pbt::str("can_be_simplified_as_moment of ", list(w)));
        auto moved = ctx->simplify_as_moment(OperatorSequence{seq});
        c.check(moved == rep, "simplifying an r-value differs");
        for (auto& o : orbit) {
            auto x = from_seq(ctx->simplify_as_moment(to_seq(*ctx, o, 0)));
            c.check(x.ops == r.ops, pbt::str("moment of ", list(o), " differs from that of ", list(w)));
        }
    }
    auto zero = ctx->simplify_as_moment(OperatorSequence::Zero(*ctx));
    c.check(zero.zero(), "zero");
}

LAW(duplicated_words, "a set of at least two sites", 3000, 60000) {
    bool huge = c.chance(10);
    auto p = geometry(c, huge ? 256 : c.chance(30) ? 70 : 20);
    auto ctx = p.make();
    std::set<int> sites;
    {
        Ops w = random_word(c, p, huge ? 2 : 4);
        for (int o : w) sites.insert(o / 3);
    }
    c.nontrivial(sites.size() > 1);
    std::vector<size_t> given(sites.begin(), sites.end());
    c.note(pbt::str("sites ", pbt::join(given)));
    size_t room = max_hashable(3 * p.qubits());
    std::vector<OperatorSequence> out;
    mp::LatticeDuplicator ld{*ctx, out};
    if (c.coin()) ld.one_qubit_fill(0);
    size_t before = out.size();
    std::vector<size_t> mixed = given;
    c.shuffle(mixed);
    auto [a, b] = ld.permutation_fill(mixed);
    c.check(a == before && b == out.size(), "range of permutation_fill");
    std::vector<Ops> want;
    words_on(sites, want);
    auto diff = difference(collect(out, a, b, c, static_cast<uint64_t>(ctx->size()), room), want);
    c.check(diff.empty(), pbt::str("permutation_fill: ", diff));

    bool periodic = false;
    std::set<std::set<int>> places;
    size_t count = 0;
    for (int dr = -p.rows + 1; dr < p.rows; ++dr) for (int dc = -p.cols + 1; dc < p.cols; ++dc) {
        if (p.wrap && (dr < 0 || dc < 0)) continue;
        auto s = shift_sites(p, sites, dr, dc);
        if (s.empty()) continue;
        places.insert(s);
        ++count;
    }
    periodic = count != places.size();
    if (periodic) c.label("aliased");
    before = out.size();
    bool check_aliases = periodic || c.coin();
    if (!p.wrap) {
        // All positions, which for this routine are those at or after the given one
        int r0 = p.rows, c0 = p.cols;
        for (int q : sites) { r0 = std::min(r0, q % p.rows); c0 = std::min(c0, q / p.rows); }
        for (auto& q : given) q -= static_cast<size_t>(c0 * p.rows + r0);
        mixed = given;
    } else if (c.coin()) c.shuffle(mixed);
    else mixed = given;
    auto [f, l] = ld.symmetrical_fill(mixed, check_aliases);
    c.check(f == before && l == out.size(), "range of symmetrical_fill");
    want.clear();
    for (auto& s : places) words_on(s, want);
    diff = difference(collect(out, f, l, c, static_cast<uint64_t>(ctx->size()), room), want);
    c.check(diff.empty(), pbt::str("symmetrical_fill", check_aliases ? " with alias check" : "", ": ", diff));
    before = out.size();
    auto [f0, l0] = ld.symmetrical_fill(std::span<const size_t>{}, true);
    c.check(f0 == before && l0 == before && out.size() == before, "filling without sites");
}

LAW(symmetrized_polynomials, "more than one translate", 2000, 40000) {
    auto p = geometry(c, 30, -1, c.chance(15) ? 0 : 1);
    auto ctx = p.make();
    RawPolynomial in;
    int terms = static_cast<int>(c.range(1, 4));
    size_t room = max_hashable(3 * p.qubits());
    std::vector<std::pair<Ops, cd>> used;
    bool scalar = true;
    for (int i = 0; i < terms; ++i) {
        Ops w = c.chance(20) ? Ops{} : random_word(c, p, static_cast<int>(std::min<size_t>(3, room)));
        cd v{c.nice_nonzero(), c.nice()};
        int sign = c.chance(20) ? 2 : 0;
        in.emplace_back(to_seq(*ctx, w, sign), v);
        used.emplace_back(w, v * i_to(sign));
        scalar = scalar && w.empty();
        c.note(pbt::str(list(w), " * ", v));
    }
    int r0 = p.rows, c0 = p.cols, r1 = 0, c1 = 0;
    for (auto& [w, v] : used) for (int o : w) {
        int q = o / 3;
        r0 = std::min(r0, q % p.rows); r1 = std::max(r1, q % p.rows);
        c0 = std::min(c0, q / p.rows); c1 = std::max(c1, q / p.rows);
    }
    auto got = mp::LatticeDuplicator::symmetrical_copy(*ctx, in);
    std::map<Ops, cd> g, want;
    for (const auto& t : got) {
        auto w = from_seq(t.sequence);
        g[w.ops] += t.weight * i_to(w.sign);
    }
    if (!p.symmetric || scalar) {
        for (auto& [w, v] : used) want[w] += v;
    } else if (p.wrap) {
        for (auto& [w, v] : used) for (int dr = 0; dr < p.rows; ++dr) for (int dc = 0; dc < p.cols; ++dc) want[p.shift(w, dr, dc)] += v / static_cast<double>(p.qubits());
        c.nontrivial(p.qubits() > 1);
    } else {
        // Moving the polynomial as a whole
        if (r0 != 0 || c0 != 0) {
            // Only translates away from the origin are used: the average is one of moments all the same.
            c.label("not at the origin");
            std::map<Ops, cd> have, need;
            for (auto& [w, v] : g) {
                c.check(w.empty() || p.orbit(w).size() > 0, "word");
                have[*p.orbit(w).begin()] += v;
            }
            for (auto& [w, v] : used) need[*p.orbit(w).begin()] += v;
            for (auto& [w, v] : have) c.checkf(pbt::close(v, need[w]), [&] { return pbt::str("total weight of translates of ", list(w), " is ", v, " instead of ", need[w]); });
            for (auto& [w, v] : need) c.checkf(pbt::close(v, have[w]), [&] { return pbt::str("total weight of translates of ", list(w), " is ", have[w], " instead of ", v); });
            return;
        }
        int n = 0;
        for (int dr = -p.rows; dr <= p.rows; ++dr) for (int dc = -p.cols; dc <= p.cols; ++dc)
            if (r0 + dr >= 0 && c0 + dc >= 0 && r1 + dr < p.rows && c1 + dc < p.cols) ++n;
        c.nontrivial(n > 1);
        for (int dr = -p.rows; dr <= p.rows; ++dr) for (int dc = -p.cols; dc <= p.cols; ++dc)
            if (r0 + dr >= 0 && c0 + dc >= 0 && r1 + dr < p.rows && c1 + dc < p.cols)
                for (auto& [w, v] : used) want[p.shift(w, dr, dc)] += v / static_cast<double>(n);
    }
    std::set<Ops> keys;
    for (auto& [k, v] : g) keys.insert(k);
    for (auto& [k, v] : want) keys.insert(k);
    for (auto& k : keys) c.checkf(pbt::close(g[k], want[k]), [&] { return pbt::str("weight of ", list(k), " is ", g[k], " instead of ", want[k]); });
}

LAW(word_lists, "at least two qubits and words of length two", 700, 12000) {
    bool glass = c.chance(25);
    int near = glass ? 0 : 1;
    bool huge = !glass && c.chance(10);
    auto p = geometry(c, glass ? 9 : huge ? 256 : 24, -1, -1);
    if (!p.lattice && !glass) near = static_cast<int>(c.range(1, 4));
    int level = static_cast<int>(c.range(0, huge ? 2 : p.lattice ? 4 : 5));
    if (near > 2) level = std::min(level, 4);
    auto hoods = neighbourhoods(p, level, near);
    size_t total = 0;
    for (auto& s : hoods) { size_t k = 1; for (size_t i = 0; i < s.size(); ++i) k *= 3; total += k; }
    if (total > 20000) throw pbt::Discard{};
    c.note(pbt::str("level ", level, ", neighbours ", near));
    c.label(pbt::str("neighbours ", near));
    c.nontrivial(p.qubits() > 1 && level > 1);
    auto ctx = p.make();
    std::vector<Ops> want;
    for (auto& s : hoods) words_on(s, want);
    auto check = [&](const OperatorSequenceGenerator& osg, const std::string& what) {
        std::vector<OperatorSequence> all(osg.begin(), osg.end());
        auto got = collect(all, 0, all.size(), c, static_cast<uint64_t>(ctx->size()), max_hashable(3 * p.qubits()));
        auto diff = difference(got, want);
        c.check(diff.empty(), pbt::str(what, ": ", diff));
        c.check(osg.size() == want.size(), pbt::str(what, ": size"));
    };
    mp::PauliSequenceGenerator g{*ctx, mp::NearestNeighbourIndex{static_cast<size_t>(level), static_cast<size_t>(near)}};
    check(g, "generator");
    c.check(g.limited() == (near != 0), "limited()");
    check(ctx->operator_sequence_generator(mp::NearestNeighbourIndex{static_cast<size_t>(level), static_cast<size_t>(near)}), "dictionary");
}

LAW(symmetric_moment_matrices, "more than one qubit, level at least one", 250, 4000) {
    auto p = geometry(c, 16);
    int near = p.lattice ? static_cast<int>(c.below(2)) : static_cast<int>(c.below(4));
    int level = static_cast<int>(c.range(0, 3));
    auto hoods = neighbourhoods(p, level, near);
    size_t total = 0;
    for (auto& s : hoods) { size_t k = 1; for (size_t i = 0; i < s.size(); ++i) k *= 3; total += k; }
    if (total > 120) throw pbt::Discard{};
    if (max_hashable(3 * p.qubits()) < static_cast<size_t>(2 * level)) throw pbt::Discard{};
    c.note(pbt::str("level ", level, ", neighbours ", near));
    c.nontrivial(p.qubits() > 1 && level > 0);
    auto owned = p.make();
    mp::PauliMatrixSystem ms{std::move(owned)};
    const auto& ctx = ms.pauliContext;
    auto [idx, m] = ms.PauliMomentMatrices.create(mp::MomentMatrixIndex{static_cast<size_t>(level), static_cast<size_t>(near)});
    c.check(m.Dimension() == total, pbt::str("dimension ", m.Dimension(), " instead of ", total));
    const auto& osg = ctx.operator_sequence_generator(mp::NearestNeighbourIndex{static_cast<size_t>(level), static_cast<size_t>(near)});
    const auto* mono = dynamic_cast<const MonomialMatrix*>(&m);
    c.check(mono != nullptr, "moment matrix is not monomial");
    std::map<Ops, symbol_name_t> symbol_of;       // least word of orbit
    std::map<symbol_name_t, Ops> orbit_of;
    for (size_t i = 0; i < total; ++i) for (size_t j = 0; j < total; ++j) {
        auto prod = osg[i].conjugate() * osg[j];
        auto w = from_seq(prod);
        Ops key = *p.orbit(w.ops).begin();
        const auto& e = mono->SymbolMatrix(i, j);
        auto [it, fresh] = symbol_of.emplace(key, e.id);
        c.check(it->second == e.id, pbt::str("moment of ", list(w.ops), " is symbol ", e.id, " but that of its translate was ", it->second));
        auto [it2, fresh2] = orbit_of.emplace(e.id, key);
        c.check(it2->second == key, pbt::str("symbol ", e.id, " stands for ", list(key), " and ", list(it2->second)));
        Word stands = from_seq(ms.Symbols()[e.id].sequence());
        c.check(pbt::close(e.factor * i_to(stands.sign), i_to(w.sign)), pbt::str("symbol stands for ", text(stands), "; ","factor of ", text(w), " at ", i, ",", j, " is ", e.factor, " for conj ", text(from_seq(osg[i])), " times ", text(from_seq(osg[j])), e.conjugated ? " conjugated" : ""));
    }
}
