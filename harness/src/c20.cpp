// C20: containers, iterators and numeric helpers against the plain sets, vectors, maps and formulae they stand for.
#include "pbt.h"
#include "models.h"
#include "utilities/dynamic_bitset.h"
#include "utilities/small_vector.h"
#include "utilities/index_tree.h"
#include "utilities/persistent_storage.h"
#include "utilities/recursive_index.h"
#include "utilities/linear_map_merge.h"
#include "utilities/first_intersection_index.h"
#include "utilities/shift_sorter.h"
#include "utilities/variable_chunk_range.h"
#include "utilities/iter_tuple.h"
#include "utilities/set_to_vector.h"
#include "utilities/substring_hasher.h"
#include "utilities/ipow.h"
#include "utilities/combinations.h"
#include "utilities/multi_partition.h"
#include "utilities/ordered_permutation.h"
#include "utilities/triangular_index_iterator.h"
#include "utilities/float_utils.h"
#include "utilities/eigen_utils.h"
#include "utilities/kronecker_power.h"
#include "tensor/multi_dimensional_index_iterator.h"
#include "tensor/multi_dimensional_offset_index_iterator.h"
#include "tensor/tensor.h"
#include "tensor/tensor_errors.h"
#include "tensor/auto_storage_tensor.h"
#include "tensor/index_flattener.h"
#include "tensor/square_matrix.h"
#include "matrix_system/index_storage/map_index_storage.h"
#include "matrix_system/index_storage/vector_index_storage.h"
#include "dictionary/multi_operator_iterator.h"
#include "scenarios/context.h"
#include <atomic>
#include <deque>
#include <thread>
using namespace Moment;

namespace {
    template<class A, class B> bool same(const A& a, const B& b) {
        return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b), [](const auto& x, const auto& y) { return x == y; });
    }
    template<class C> std::vector<size_t> as_sizes(const C& c) { std::vector<size_t> o; for (auto x : c) o.push_back(static_cast<size_t>(x)); return o; }
    std::string text(const std::vector<size_t>& v) { return "[" + pbt::join(v) + "]"; }

    // ---------------------------------------------------------------- bit sets
    template<class page_t, class index_t, class storage_t>
    void bitset_history(pbt::Case& c) {
        using BS = DynamicBitset<page_t, index_t, storage_t>;
        constexpr int P = std::numeric_limits<page_t>::digits;
        int size;
        switch (c.below(4)) {
            case 0: size = static_cast<int>(c.range(0, 4)); break;
            case 1: size = static_cast<int>(std::max<int64_t>(0, P * c.range(1, 4) + c.range(-1, 1))); break;
            default: size = static_cast<int>(c.range(0, 4 * P)); break;
        }
        c.note(pbt::str("pages of ", P, " size ", size));
        std::vector<std::unique_ptr<BS>> real;
        std::vector<std::vector<bool>> ref;
        for (int i = 0; i < 3; ++i) {
            const int how = static_cast<int>(c.below(3));
            if (how == 0) { real.push_back(std::make_unique<BS>(static_cast<index_t>(size))); ref.emplace_back(size, false); }
            else { real.push_back(std::make_unique<BS>(static_cast<index_t>(size), how == 2)); ref.emplace_back(size, how == 2); }
        }
        auto compare = [&](const BS& b, const std::vector<bool>& r, const std::string& what) {
            c.check(static_cast<size_t>(b.bit_size) == r.size(), what + ": size");
            std::set<index_t> members; size_t first = r.size();
            for (size_t i = 0; i < r.size(); ++i) {
                if (r[i]) { members.insert(static_cast<index_t>(i)); first = std::min(first, i); }
                if (b.test(static_cast<index_t>(i)) != r[i] || b[static_cast<index_t>(i)] != r[i]) c.fail(pbt::str(what, ": bit ", i, " is ", !r[i]));
            }
            c.check(b.empty() == members.empty(), what + ": empty()");
            c.check(static_cast<size_t>(b.count()) == members.size(), pbt::str(what, ": count is ", +b.count(), " for ", members.size()));
            c.check(static_cast<size_t>(b.first_index()) == first, pbt::str(what, ": first index is ", +b.first_index(), " not ", first));
            c.check(b.template to_set<index_t>() == members, what + ": to_set");
        };
        const int ops = static_cast<int>(c.sized(1, 25));
        for (int o = 0; o < ops; ++o) {
            const size_t a = c.below(3), b = c.below(3);
            const int kind = static_cast<int>(c.below(13));
            std::string what = pbt::str("op ", o, " kind ", kind, " on ", a, ",", b);
            switch (kind) {
                case 0: case 1: case 2: if (size) {
                    const int at = static_cast<int>(c.below(size)); what += pbt::str(" at ", at);
                    if (kind == 0) { real[a]->set(static_cast<index_t>(at)); ref[a][at] = true; }
                    else if (kind == 1) { real[a]->unset(static_cast<index_t>(at)); ref[a][at] = false; }
                    else { const bool v = c.coin(); (*real[a])[static_cast<index_t>(at)] = v; ref[a][at] = v; }
                } break;
                case 3: real[a]->clear(); ref[a].assign(size, false); break;
                case 4: *real[a] &= *real[b]; for (int i = 0; i < size; ++i) ref[a][i] = ref[a][i] && ref[b][i]; break;
                case 5: *real[a] |= *real[b]; for (int i = 0; i < size; ++i) ref[a][i] = ref[a][i] || ref[b][i]; break;
                case 6: { BS r = *real[a] & *real[b]; auto m = ref[a]; for (int i = 0; i < size; ++i) m[i] = m[i] && ref[b][i]; compare(r, m, what); } break;
                case 7: { BS r = *real[a] | *real[b]; auto m = ref[a]; for (int i = 0; i < size; ++i) m[i] = m[i] || ref[b][i]; compare(r, m, what); } break;
                case 8: real[a]->invert_in_place(); ref[a].flip(); break;
                case 9: { BS r = ~*real[a]; auto m = ref[a]; m.flip(); compare(r, m, what); real[b] = std::make_unique<BS>(r); ref[b] = m; } break;
                case 10: if (a != b) { real[a]->swap(*real[b]); std::swap(ref[a], ref[b]); } break;
                case 11: if (size) {
                    const int from = static_cast<int>(c.below(size)), many = static_cast<int>(c.below(size - from + 1));
                    what += pbt::str(" from ", from, " size ", many);
                    compare(real[a]->subset(static_cast<index_t>(from), static_cast<index_t>(many)), std::vector<bool>(ref[a].begin() + from, ref[a].begin() + from + many), what);
                    if (from % P && (from + many) / P != from / P) c.nontrivial();
                } break;
                case 12: if (size) {
                    const int from = static_cast<int>(c.below(size)), many = static_cast<int>(c.below(std::min(P, size - from) + 1));
                    what += pbt::str(" from ", from, " size ", many);
                    page_t expected = 0;
                    for (int i = 0; i < many; ++i) if (ref[a][from + i]) expected |= static_cast<page_t>(static_cast<page_t>(1) << i);
                    const page_t got = real[a]->small_subset(static_cast<index_t>(from), static_cast<index_t>(many));
                    c.check(got == expected, pbt::str(what, ": small subset is ", +got, " not ", +expected));
                } break;
            }
            compare(*real[a], ref[a], what);
            compare(*real[b], ref[b], what);
            c.check((*real[a] == *real[b]) == (ref[a] == ref[b]) && (*real[a] != *real[b]) == (ref[a] != ref[b]), what + ": equality");
        }
        if (size > P) c.nontrivial();
    }
}

LAW(bit_sets, "more bits than one page has, or a subset which crosses pages", 12000, 300000) {
    switch (c.below(5)) {
        case 0: bitset_history<uint8_t, size_t, std::vector<uint8_t>>(c); break;
        case 1: bitset_history<uint64_t, size_t, std::vector<uint64_t>>(c); break;
        case 2: bitset_history<uint64_t, size_t, SmallVector<uint64_t, 2>>(c); break;
        case 3: bitset_history<uint32_t, int, std::vector<uint32_t>>(c); break;
        case 4: bitset_history<uint16_t, uint32_t, SmallVector<uint16_t, 1>>(c); break;
    }
}

// -------------------------------------------------------------------- small vectors
namespace {
    /** An element which counts how many of its kind are alive. */
    struct Tracked {
        static inline long alive = 0;
        std::unique_ptr<int> v;
        Tracked() : v{std::make_unique<int>(-1)} { ++alive; }
        Tracked(int x) : v{std::make_unique<int>(x)} { ++alive; }
        Tracked(const Tracked& r) : v{std::make_unique<int>(r.get())} { ++alive; }
        Tracked(Tracked&& r) noexcept : v{std::move(r.v)} { ++alive; }
        Tracked& operator=(const Tracked& r) { v = std::make_unique<int>(r.get()); return *this; }
        Tracked& operator=(Tracked&& r) noexcept { v = std::move(r.v); return *this; }
        ~Tracked() { --alive; }
        int get() const { return v ? *v : -2; }
        bool operator==(const Tracked& r) const { return get() == r.get(); }
    };
    int value_of(int x) { return x; }
    int value_of(uint64_t x) { return static_cast<int>(x); }
    int value_of(const Tracked& x) { return x.get(); }

    template<class T, size_t N> void small_vector_history(pbt::Case& c) {
        using SV = SmallVector<T, N>;
        constexpr size_t pool = 3;
        std::vector<std::unique_ptr<SV>> real;
        std::vector<std::vector<int>> ref(pool);
        int fresh = 0;
        for (size_t i = 0; i < pool; ++i) {
            const size_t n = c.below(2 * N + 4);
            switch (c.below(4)) {
                case 0: real.push_back(std::make_unique<SV>()); break;
                case 1: ref[i].assign(n, ++fresh); real.push_back(std::make_unique<SV>(n, T(static_cast<int>(fresh)))); break;
                case 2: { std::vector<T> src; for (size_t k = 0; k < n; ++k) { ref[i].push_back(++fresh); src.push_back(T(static_cast<int>(fresh))); }
                          real.push_back(std::make_unique<SV>(src.begin(), src.end())); } break;
                default:
                    if (c.coin()) { ref[i] = {7, 8}; real.push_back(std::make_unique<SV>(std::initializer_list<T>{T(7), T(8)})); }
                    else { ref[i] = {9, 10, 11, 12, 13, 14}; real.push_back(std::make_unique<SV>(std::initializer_list<T>{T(9), T(10), T(11), T(12), T(13), T(14)})); }
                    break;
            }
        }
        auto compare = [&](size_t i, const std::string& what) {
            const SV& s = *real[i]; const auto& r = ref[i];
            c.check(s.size() == r.size() && s.empty() == r.empty(), pbt::str(what, ": size of #", i, " is ", s.size(), " not ", r.size()));
            c.check(s.capacity() >= s.size() && s.capacity() >= N, what + ": capacity");
            c.check(s.on_heap() || s.capacity() == N, what + ": capacity of the storage within");
            std::vector<int> fwd, back, idx, spn, raw;
            for (const auto& x : s) fwd.push_back(value_of(x));
            for (auto it = s.rbegin(); it != s.rend(); ++it) { back.push_back(value_of(*it)); c.check(value_of(*it.operator->()) == back.back(), what); }
            for (size_t k = 0; k < s.size(); ++k) { idx.push_back(value_of(s[k])); raw.push_back(value_of(s.get()[k])); }
            for (const auto& x : std::span<const T>(s)) spn.push_back(value_of(x));
            if (fwd != r) c.fail(pbt::str(what, ": #", i, " holds ", pbt::join(fwd), " not ", pbt::join(r)));
            std::reverse(back.begin(), back.end());
            c.check(back == r, what + ": read backwards"); c.check(idx == r && spn == r && raw == r, what + ": indexing, span or data");
            if (!r.empty()) c.check(value_of(s.front()) == r.front() && value_of(s.back()) == r.back(), what + ": front or back");
        };
        for (size_t i = 0; i < pool; ++i) compare(i, "at the start");
        const int ops = static_cast<int>(c.sized(1, 30));
        bool grew = false, shrank = false;
        for (int o = 0; o < ops; ++o) {
            const size_t a = c.below(pool), b = c.below(pool);
            const int kind = static_cast<int>(c.below(16));
            const std::string what = pbt::str("op ", o, " kind ", kind, " on ", a, ",", b);
            const bool heap_before = real[a]->on_heap();
            SV& s = *real[a]; auto& r = ref[a];
            switch (kind) {
                case 0: case 1: ++fresh; s.push_back(T(fresh)); r.push_back(fresh); break;
                case 2: ++fresh; s.emplace_back(fresh); r.push_back(fresh); break;
                case 3: if (!r.empty()) { s.pop_back(); r.pop_back(); } break;
                case 4: { // insert range
                    const size_t where = c.below(r.size() + 1), n = c.below(N + 3);
                    std::vector<T> src; std::vector<int> m;
                    for (size_t k = 0; k < n; ++k) { m.push_back(++fresh); src.push_back(T(static_cast<int>(fresh))); }
                    s.insert(s.begin() + where, src.begin(), src.end()); r.insert(r.begin() + where, m.begin(), m.end());
                } break;
                case 5: { // erase range
                    const size_t from = c.below(r.size() + 1), to = from + c.below(r.size() - from + 1);
                    auto it = s.erase(s.begin() + from, s.begin() + to); r.erase(r.begin() + from, r.begin() + to);
                    c.check(it == s.begin() + from, what + ": where erase points");
                } break;
                case 6: { const size_t n = c.below(4 * N + 4); s.reserve(n); c.check(s.capacity() >= n, what + ": reserved"); } break;
                case 7: if (c.chance(40)) { s.clear(); r.clear(); } break;
                case 8: *real[a] = *real[b]; ref[a] = ref[b]; break;
                case 9: if (a != b) { *real[a] = std::move(*real[b]); ref[a] = ref[b]; // the other one may hold anything: set it afresh
                          real[b]->clear(); ref[b].clear(); } break;
                case 10: real[a]->swap(*real[b]); std::swap(ref[a], ref[b]); if (a == b) { } break;
                case 11: { auto copy = std::make_unique<SV>(*real[b]); real[a] = std::move(copy); ref[a] = ref[b]; } break;
                case 12: if (a != b) { auto moved = std::make_unique<SV>(std::move(*real[b])); real[a] = std::move(moved); ref[a] = ref[b];
                           if (c.coin()) *real[b] = SV{}; else real[b]->clear();
                           ref[b].clear(); } break;
                case 13: if (!r.empty()) { const size_t at = c.below(r.size()); ++fresh; s[at] = T(static_cast<int>(fresh)); r[at] = fresh; } break;
                case 14: if (!r.empty()) { // an element of its own
                    const size_t at = c.below(r.size()); const int v = r[at];
                    if (c.coin()) s.emplace_back(s[at]); else s.push_back(s[at]);
                    r.push_back(v);
                } break;
                case 15: { for (auto& x : std::span<T>(s)) { ++fresh; x = T(static_cast<int>(fresh)); }
                           int v = fresh - static_cast<int>(r.size()); for (auto& x : r) x = ++v; } break;
            }
            grew |= !heap_before && real[a]->on_heap();
            shrank |= heap_before && !real[a]->on_heap();
            for (size_t i = 0; i < pool; ++i) compare(i, what);
            c.check((*real[a] == *real[b]) == (ref[a] == ref[b]) && (*real[a] != *real[b]) == (ref[a] != ref[b]), what + ": equality");
        }
        c.nontrivial(grew);
        if (shrank) c.label("returns to the stack");
    }
}
LAW(small_vectors, "a vector outgrew the storage within it", 14000, 350000) {
    switch (c.below(4)) {
        case 0: small_vector_history<int, 1>(c); break;
        case 1: small_vector_history<uint64_t, 4>(c); break;
        case 2: small_vector_history<int, 7>(c); break;
        default: {
            const long before = Tracked::alive;
            small_vector_history<Tracked, 3>(c);
            c.check(Tracked::alive == before, pbt::str("objects left alive: ", Tracked::alive - before));
        } break;
    }
}

// -------------------------------------------------------------------- prefix trees
namespace {
    template<class key_t> struct TreeModel {
        std::map<std::vector<key_t>, int> values;
        std::set<std::vector<key_t>> nodes{std::vector<key_t>{}};
        void grow(const std::vector<key_t>& k) { for (size_t n = 0; n <= k.size(); ++n) nodes.insert(std::vector<key_t>(k.begin(), k.begin() + n)); }
    };
    template<class key_t> void tree_history(pbt::Case& c, int alphabet) {
        using Tree = IndexTree<key_t, int>;
        constexpr size_t pool = 2;
        std::vector<std::unique_ptr<Tree>> real; std::vector<TreeModel<key_t>> ref(pool);
        for (size_t i = 0; i < pool; ++i) real.push_back(std::make_unique<Tree>());
        const bool negative = std::is_signed_v<key_t> && (alphabet > 127 || c.coin());
        auto letter = [&]() { int64_t v = c.range(0, alphabet - 1); if (negative) v -= alphabet / 2; return static_cast<key_t>(v); };
        auto word = [&]() {
            std::vector<key_t> w; const size_t n = c.chance(alphabet > 50 ? 70 : 10) ? 1 : c.below(6);
            for (size_t i = 0; i < n; ++i) w.push_back(letter());
            return w;
        };
        auto known = [&](size_t t) {
            if (!c.chance(60)) return word();
            std::vector<std::vector<key_t>> all(ref[t].nodes.begin(), ref[t].nodes.end());
            auto w = all[c.below(all.size())];
            if (c.chance(30)) w.push_back(letter());
            return w;
        };
        auto compare = [&](size_t t, const std::string& what) {
            // iteration visits every node once, prefix first, in lexicographic order
            std::vector<std::vector<key_t>> expected(ref[t].nodes.begin(), ref[t].nodes.end());
            size_t at = 0;
            const Tree& ct = *real[t];
            for (auto it = ct.begin(); it != ct.end(); ++it, ++at) {
                if (at >= expected.size()) c.fail(what + ": too many nodes visited");
                if (it.lookup_index() != expected[at]) c.fail(pbt::str(what, ": node ", at, " is ", pbt::join(it.lookup_index()), " not ", pbt::join(expected[at])));
                c.check(it.current_depth() == expected[at].size(), what + ": depth");
                auto m = ref[t].values.find(expected[at]);
                const auto v = it->value();
                c.check(v.has_value() == (m != ref[t].values.end()) && (!v || *v == m->second), pbt::str(what, ": value at ", pbt::join(expected[at])));
            }
            c.check(at == expected.size(), what + ": too few nodes visited");
            size_t count = 0; for (auto it = real[t]->begin(); it; ++it) ++count;
            c.check(count == at, what + ": mutable iteration");
        };
        const int ops = static_cast<int>(c.sized(1, alphabet > 50 ? 400 : 40));
        int v = 0;
        if (alphabet > 50) { // every letter
            for (int i = 0; i < alphabet; ++i) { const std::vector<key_t> w{static_cast<key_t>(i - (negative ? alphabet / 2 : 0))}; real[0]->add(std::span<const key_t>(w), ++v); ref[0].values[w] = v; ref[0].grow(w); }
        }
        for (int o = 0; o < ops; ++o) {
            const size_t t = c.below(pool);
            const int kind = static_cast<int>(c.below(alphabet > 50 ? 4 : 8));
            const auto w = (kind <= 1) ? word() : known(t);
            const std::string what = pbt::str("op ", o, " kind ", kind, " tree ", t, " word ", pbt::join(w));
            std::span<const key_t> sw(w.begin(), w.end());
            auto m = ref[t].values.find(w);
            switch (kind) {
                case 0: case 2: real[t]->add(sw, ++v); ref[t].values[w] = v; ref[t].grow(w); break;
                case 1: case 3: {
                    auto [val, fresh] = real[t]->add_if_new(sw, ++v);
                    c.check(fresh == (m == ref[t].values.end()), what + ": newness");
                    if (fresh) { ref[t].values[w] = v; ref[t].grow(w); }
                    c.check(val == ref[t].values[w], what + ": value returned");
                } break;
                case 4: {
                    auto got = real[t]->find(sw);
                    c.check(got.has_value() == (m != ref[t].values.end()) && (!got || *got == m->second), what + ": find");
                } break;
                case 5: {
                    const auto* n = std::as_const(*real[t]).find_node(sw);
                    c.check((n != nullptr) == ref[t].nodes.contains(w), what + ": find_node");
                    if (n) c.check(n->value().has_value() == (m != ref[t].values.end()) && (!n->value() || *n->value() == m->second), what + ": value of found node");
                } break;
                case 6: {
                    auto [node, rest] = std::as_const(*real[t]).find_node_or_return_hint(sw);
                    size_t deep = w.size(); while (!ref[t].nodes.contains(std::vector<key_t>(w.begin(), w.begin() + deep))) --deep;
                    c.check(node != nullptr && rest.size() == w.size() - deep && std::equal(rest.begin(), rest.end(), w.begin() + deep), what + ": remaining part");
                    c.check(node == std::as_const(*real[t]).find_node(sw.first(deep)), what + ": hinted node");
                    bool leaf = true; for (const auto& x : ref[t].nodes) if (x.size() == deep + 1 && std::equal(w.begin(), w.begin() + deep, x.begin())) leaf = false;
                    c.check(node->leaf() == leaf, what + ": leaf");
                } break;
                case 7: if (c.chance(40)) {
                    const size_t u = 1 - t;
                    if (ref[t].nodes.size() > 2 && ref[u].nodes.size() > 2) c.label("merged trees");
                    real[t]->merge_in(std::move(*real[u])); real[u] = std::make_unique<Tree>();
                    for (const auto& [k, x] : ref[u].values) ref[t].values[k] = x;
                    ref[t].nodes.insert(ref[u].nodes.begin(), ref[u].nodes.end());
                    ref[u] = TreeModel<key_t>{};
                } break;
            }
            if (alphabet <= 50) compare(t, what);
        }
        for (size_t t = 0; t < pool; ++t) { compare(t, "at the end"); c.nontrivial(ref[t].nodes.size() > 6); }
    }
}
LAW(prefix_trees, "a tree of more than six nodes", 9000, 200000) {
    switch (c.below(5)) {
        case 0: tree_history<uint64_t>(c, 3); break;
        case 1: tree_history<int64_t>(c, 6); break;
        case 2: tree_history<int32_t>(c, 2); break;
        case 3: tree_history<uint16_t>(c, 12); break;
        default: if (c.chance(90)) tree_history<uint8_t>(c, 4); else if (c.coin()) tree_history<uint8_t>(c, 256); else tree_history<int8_t>(c, 240); break;
    }
}

// -------------------------------------------------------------------- storage by key
LAW(persistent_storage, "an item was released and another asked for by its old key", 9000, 200000) {
    const uint32_t sig = c.coin() ? make_signature({'a', 'b', 'c', 'd'}) : static_cast<uint32_t>(c.below(0xFFFFFFFFu));
    PersistentStorage<int> store{sig};
    std::map<uint64_t, std::pair<const int*, int>> live; std::vector<uint64_t> dead, all;
    const int ops = static_cast<int>(c.sized(1, 40));
    int fresh = 0;
    for (int o = 0; o < ops; ++o) {
        const int kind = static_cast<int>(c.below(8));
        const std::string what = pbt::str("op ", o, " kind ", kind);
        switch (kind) {
            case 0: case 1: case 2: {
                const int* ptr; uint64_t key;
                if (c.coin()) { auto p = std::make_unique<int>(++fresh); ptr = p.get(); key = store.store(std::move(p)); }
                else { auto p = std::make_shared<int>(++fresh); ptr = p.get(); key = store.store(p); }
                c.check(store.check_signature(key), what + ": key is not signed");
                c.check(!live.contains(key), what + ": key of a living item reused");
                c.check(std::find(dead.begin(), dead.end(), key) == dead.end(), what + ": key of a released item reused");
                c.check(store.sign_index(PersistentStorage<int>::get_index(key)) == key, what + ": key from its index");
                live[key] = {ptr, fresh}; all.push_back(key);
            } break;
            case 3: if (!all.empty()) {
                const auto key = c.pick(all); const bool lives = live.contains(key);
                bool threw = false;
                try { store.release(key); } catch (const errors::not_found_error& e) { threw = true; c.check(e.key == key, what + ": key in error"); }
                c.check(threw == !lives, pbt::str(what, ": release ", threw ? "refused" : "accepted"));
                if (lives) { live.erase(key); dead.push_back(key); }
            } break;
            case 4: case 5: if (!all.empty()) {
                const auto key = c.pick(all); const bool lives = live.contains(key);
                bool threw = false; std::shared_ptr<int> got;
                try { got = store.get(key); } catch (const errors::not_found_error& e) { threw = true; c.check(e.key == key, what + ": key in error"); }
                c.check(threw == !lives, pbt::str(what, ": get ", threw ? "refused" : "accepted"));
                if (lives) c.check(got.get() == live[key].first && *got == live[key].second, what + ": other item");
                if (!lives) c.nontrivial();
            } break;
            case 6: { // foreign or unknown keys
                uint64_t key; bool foreign = c.coin();
                if (foreign) key = (static_cast<uint64_t>(sig ^ (1u << c.below(32))) << 32) | c.below(4);
                else key = (static_cast<uint64_t>(sig) << 32) | (1000000u + c.below(5));
                c.check(store.check_signature(key) == !foreign && PersistentStorageBase::check_signature(sig, key) == !foreign, what + ": signature");
                try { if (c.coin()) (void) store.get(key); else store.release(key); c.fail(what + ": accepted"); }
                catch (const errors::bad_signature_error&) { c.check(foreign, what + ": wrong error"); }
                catch (const errors::not_found_error&) { c.check(!foreign, what + ": wrong error"); }
            } break;
            case 7: if (c.chance(15)) { store.clear(); live.clear(); dead.clear(); all.clear(); } break;
        }
        c.check(store.size() == live.size() && store.empty() == live.empty(), what + ": size");
        // walk over all items
        std::vector<uint32_t> ids, want;
        for (const auto& [k, v] : live) want.push_back(PersistentStorage<int>::get_index(k));
        auto at = store.first();
        while (at.second) {
            ids.push_back(at.first); c.check(at.second.get() == live[store.sign_index(at.first)].first, what + ": item while walking");
            if (ids.size() > want.size()) break;
            at = store.next(at.first);
        }
        c.check(ids == want, what + ": walking over the items");
        c.check(at.first == 0xFFFFFFFF, what + ": id after the last");
    }
}

namespace { struct Boxed { int v; explicit Boxed(int x) : v{x} { } }; }
RACY_LAW(persistent_storage_threads, "four threads or more", 150, 3000) {
    PersistentStorage<int> store{make_signature({'t', 'h', 'r', 'd'})};
    PersistentStorageMonoid<Boxed> single{make_signature({'m', 'o', 'n', 'o'})};
    const size_t workers = static_cast<size_t>(c.range(2, 6)), each = static_cast<size_t>(c.range(5, 60));
    const uint64_t mix = c.below(1000);
    std::vector<std::vector<uint64_t>> keys(workers); std::vector<std::string> wrong(workers);
    std::vector<std::shared_ptr<Boxed>> made(workers); std::atomic<bool> go{false};
    std::vector<std::thread> threads;
    for (size_t w = 0; w < workers; ++w) {
        threads.emplace_back([&, w]() {
            while (!go.load()) { std::this_thread::yield(); }
            made[w] = single.create_if_empty<Boxed>(static_cast<int>(w));
            uint64_t s = mix + w;
            std::vector<std::pair<uint64_t, int>> mine;
            for (size_t i = 0; i < each; ++i) {
                const int v = static_cast<int>(w * 100000 + i);
                const auto key = store.store(std::make_unique<int>(v));
                keys[w].push_back(key); mine.emplace_back(key, v);
                const auto r = pbt::splitmix(s);
                try {
                    const auto& [k, x] = mine[r % mine.size()];
                    if (*store.get(k) != x) wrong[w] = "another thread's item was returned";
                    if (r % 5 == 0) { store.release(k); mine.erase(mine.begin() + static_cast<ptrdiff_t>(r % mine.size())); }
                    (void) store.size(); auto f = store.first(); if (f.second) (void) store.next(f.first);
                    if (single.empty()) wrong[w] = "single object lost";
                } catch (const std::exception& e) { wrong[w] = e.what(); }
                if (mine.empty()) { continue; }
            }
            keys[w].clear(); for (const auto& [k, v] : mine) keys[w].push_back(k);
        });
    }
    go = true;
    for (auto& t : threads) t.join();
    std::set<uint64_t> unique; size_t total = 0;
    for (size_t w = 0; w < workers; ++w) {
        c.check(wrong[w].empty(), pbt::str("thread ", w, ": ", wrong[w]));
        c.check(made[w] && made[w] == made[0], "two objects were made in one place");
        for (auto k : keys[w]) { unique.insert(k); ++total; c.check(*store.get(k) / 100000 == static_cast<int>(w), "item stored by another thread"); }
    }
    c.check(unique.size() == total, "two items have one key");
    c.check(store.size() == total, pbt::str("size is ", store.size(), " not ", total));
    c.nontrivial(workers >= 4);
}

LAW(index_storage, "an index was inserted a second time, and there is a gap below the highest", 9000, 200000) {
    VectorIndexStorage<int> vec; VectorIndexStorage<size_t> vecs; MapIndexStorage<std::pair<int, int>> map;
    std::map<size_t, ptrdiff_t> ref; bool twice = false;
    const int ops = static_cast<int>(c.sized(1, 30)); const int most = static_cast<int>(c.sized(1, 40));
    for (int o = 0; o < ops; ++o) {
        const size_t i = c.below(most);
        const ptrdiff_t v = static_cast<ptrdiff_t>(c.below(1000));
        const std::pair<int, int> pi{static_cast<int>(i % 5), static_cast<int>(i / 5)};
        if (c.chance(60)) {
            const auto [it, fresh] = ref.emplace(i, v);
            twice |= !fresh;
            const auto a = vec.insert(static_cast<int>(i), v); const auto b = vecs.insert(i, v); const auto d = map.insert(pi, v);
            c.check(a.first == it->second && a.second == fresh, pbt::str("insert ", i, " into vector"));
            c.check(b.first == it->second && b.second == fresh, pbt::str("insert ", i, " into unsigned vector"));
            c.check(d.first == it->second && d.second == fresh, pbt::str("insert ", i, " into map"));
        }
        for (size_t k = 0; k < static_cast<size_t>(most) + 2; ++k) {
            const auto m = ref.find(k); const ptrdiff_t want = m == ref.end() ? -1 : m->second;
            c.check(vec.find(static_cast<int>(k)) == want && vecs.find(k) == want && vec.contains(static_cast<int>(k)) == (want != -1) && vecs.contains(k) == (want != -1), pbt::str("find ", k, " in vector"));
            const std::pair<int, int> pk{static_cast<int>(k % 5), static_cast<int>(k / 5)};
            c.check(map.find(pk) == want && map.contains(pk) == (want != -1), pbt::str("find ", k, " in map"));
        }
        c.check(vec.find(-1) == -1 && !vec.contains(-1), "negative index found");
        c.check(vec.highest() == (ref.empty() ? -1 : static_cast<ptrdiff_t>(ref.rbegin()->first)), "highest index");
    }
    c.nontrivial(twice && !ref.empty() && ref.size() <= ref.rbegin()->first);
}

namespace {
    struct ByWidth : WidthByDepthRecursiveStorage<int, ByWidth> {
        ByWidth(size_t w, size_t d, int z) : WidthByDepthRecursiveStorage<int, ByWidth>{w, d, z} { }
    };
    struct ByChunk : MonotonicChunkRecursiveStorage<int, ByChunk> {
        ByChunk(std::span<const size_t> chunks, size_t depth, int zero, ptrdiff_t offset = 0) : MonotonicChunkRecursiveStorage<int, ByChunk>{chunks, depth, zero, offset} { }
        explicit ByChunk(int zero, ptrdiff_t offset = 0) : MonotonicChunkRecursiveStorage<int, ByChunk>{zero, offset} { }
    };
    template<class S> void recursive_history(pbt::Case& c, S& store, const std::vector<std::vector<size_t>>& places) {
        std::map<std::vector<size_t>, int> ref; for (const auto& p : places) ref[p] = -7;
        auto compare = [&](const std::string& what) {
            std::vector<std::pair<std::vector<size_t>, int>> seen, want(ref.begin(), ref.end());
            auto visitor = [&seen](const int& v, const std::vector<size_t>& where, int extra) { seen.emplace_back(where, v + extra); };
            std::as_const(store).visit(visitor, 0);
            if (seen != want) c.fail(pbt::str(what, ": visited ", seen.size(), " places of ", want.size(), " or others"));
            for (const auto& [p, v] : ref) {
                c.check(std::as_const(store).access(std::span<const size_t>(p)) == v, pbt::str(what, ": access ", text(p)));
                c.check(std::as_const(store).subtree(std::span<const size_t>(p)).access() == v, pbt::str(what, ": subtree ", text(p)));
            }
        };
        compare("at the start");
        const int ops = static_cast<int>(c.sized(1, 12));
        for (int o = 0; o < ops; ++o) {
            const auto& p = c.pick(places); const int v = static_cast<int>(c.below(1000));
            store.set(std::span<const size_t>(p), v); ref[p] = v;
            if (c.chance(10)) { auto add = [](int& x, const std::vector<size_t>& where) { x += static_cast<int>(where.size()); }; store.visit(add); for (auto& [k, x] : ref) x += static_cast<int>(k.size()); }
        }
        compare("at the end");
    }
}
LAW(recursive_storage, "places two levels down or more", 4000, 80000) {
    std::vector<std::vector<size_t>> places; std::vector<size_t> now;
    if (c.coin()) {
        const size_t width = c.below(4), depth = c.below(4);
        std::function<void()> go = [&]() { places.push_back(now); if (now.size() == depth) return; for (size_t i = 0; i < width; ++i) { now.push_back(i); go(); now.pop_back(); } };
        go();
        ByWidth s{width, depth, -7};
        c.check(s.num_children() == (depth ? width : 0), "children");
        recursive_history(c, s, places);
        c.nontrivial(width && depth > 1);
    } else {
        std::vector<size_t> chunks; const size_t n = c.below(5); for (size_t i = 0; i < n; ++i) chunks.push_back(c.range(0, 3));
        const size_t depth = c.below(4);
        std::function<void(size_t)> go = [&](size_t chunk) {
            places.push_back(now); if (now.size() == depth) return;
            size_t first = 0; for (size_t i = 0; i < chunk; ++i) first += chunks[i];
            for (size_t k = chunk; k < chunks.size(); ++k) for (size_t i = 0; i < chunks[k]; ++i) { now.push_back(first++); go(k + 1); now.pop_back(); }
        };
        go(0);
        ByChunk s{std::span<const size_t>(chunks), depth, -7};
        recursive_history(c, s, places);
        c.nontrivial(std::any_of(places.begin(), places.end(), [](const auto& p) { return p.size() > 1; }));
    }
}

// -------------------------------------------------------------------- iterators over choices
namespace {
    /** Every string of this length over 0..n-1 which passes, lexicographically. */
    template<class F> std::vector<std::vector<size_t>> strings(size_t n, size_t k, F&& keep) {
        std::vector<std::vector<size_t>> out; std::vector<size_t> now;
        std::function<void()> go = [&]() {
            if (now.size() == k) { if (keep(now)) out.push_back(now); return; }
            for (size_t i = 0; i < n; ++i) { now.push_back(i); go(); now.pop_back(); }
        };
        go(); return out;
    }
    bool strictly(const std::vector<size_t>& v) { for (size_t i = 1; i < v.size(); ++i) if (v[i-1] >= v[i]) return false; return true; }
    bool weakly(const std::vector<size_t>& v) { for (size_t i = 1; i < v.size(); ++i) if (v[i-1] > v[i]) return false; return true; }
    void same_lists(pbt::Case& c, const std::vector<std::vector<size_t>>& got, const std::vector<std::vector<size_t>>& want, const std::string& what) {
        for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) if (got[i] != want[i]) c.fail(pbt::str(what, ": entry ", i, " is ", text(got[i]), " not ", text(want[i])));
        c.check(got.size() == want.size(), pbt::str(what, ": ", got.size(), " entries, not ", want.size()));
    }
    constexpr size_t enough = 5000;
}
LAW(choices, "ten elements or more", 9000, 150000) {
    const size_t kind = c.below(8);
    std::vector<std::vector<size_t>> got, want; std::string what;
    switch (kind) {
        case 0: { // subsets, ordered by their largest elements
            const size_t n = c.below(8), k = c.below(n + 1); what = pbt::str("combinations ", n, " ", k);
            want = strings(n, k, strictly);
            std::stable_sort(want.begin(), want.end(), [](const auto& a, const auto& b) { return std::lexicographical_compare(a.rbegin(), a.rend(), b.rbegin(), b.rend()); });
            CombinationIndexIterator it{n, k}, end{n, k, true};
            c.check(it.combination_count() == want.size(), what + ": count");
            c.check(combinations<int>(static_cast<int>(n), static_cast<int>(k)) == static_cast<int>(want.size()), what + ": number");
            while (it != end && got.size() < enough) { c.check(!it.done(), what + ": done early"); got.push_back(*it); c.check(it->size() == k, what); if (c.coin()) ++it; else (void) it++; }
            c.check(it.done(), what + ": not done");
        } break;
        case 1: { // commuting words
            const size_t n = c.below(6), k = c.below(6); what = pbt::str("commuting ", n, " ", k);
            want = strings(n, k, weakly);
            CommutingIndexIterator it{n, k}, end{n, k, true};
            c.check(it.combination_count() == want.size(), pbt::str(what, ": count is ", it.combination_count(), " not ", want.size()));
            while (it != end && got.size() < enough) { got.push_back(*it); if (c.coin()) ++it; else (void) it++; }
            c.check(it.done(), what + ": not done");
        } break;
        case 2: { // partitions into a subset and the rest
            const size_t n = c.below(8), k = c.below(n + 1); what = pbt::str("partitions ", n, " ", k);
            want = strings(n, k, strictly);
            std::stable_sort(want.begin(), want.end(), [](const auto& a, const auto& b) { return std::lexicographical_compare(a.rbegin(), a.rend(), b.rbegin(), b.rend()); });
            PartitionIterator it{n, k};
            while (!it.done() && got.size() < enough) {
                std::vector<size_t> prim = it.primary(), comp = it.complement(), rest;
                for (size_t i = 0; i < n; ++i) {
                    const bool in = std::find(prim.begin(), prim.end(), i) != prim.end();
                    if (!in) rest.push_back(i);
                    c.check(it.bits(i) == in && it.bits()[i] == in, pbt::str(what, ": bits at ", text(prim)));
                }
                c.check(comp == rest, pbt::str(what, ": rest of ", text(prim), " is ", text(comp)));
                for (size_t i = 0; i < k; ++i) c.check(it.primary(i) == prim[i], what + ": element of subset");
                for (size_t i = 0; i < n - k; ++i) c.check(it.complement(i) == rest[i], what + ": element of rest");
                const auto pr = *it; c.check(pr.first == prim && pr.second == rest, what + ": pair");
                got.push_back(prim);
                if (c.coin()) ++it; else (void) it++;
            }
        } break;
        case 3: { // non-decreasing strings
            const size_t n = c.range(1, 5), k = c.below(6); what = pbt::str("ordered permutations ", n, " ", k);
            want = strings(n, k, weakly);
            if (c.coin()) {
                OrderedPermutationIterator<size_t> it{n, k}, end{n, k, true};
                while (it != end && got.size() < enough) { got.push_back(*it); for (size_t i = 0; i < k; ++i) c.check(it[i] == (*it)[i], what); if (c.coin()) ++it; else (void) it++; }
                c.check(it.done(), what + ": not done");
            } else {
                OrderedPermutationIterator<size_t, SmallVector<size_t, 3>> it{n, k};
                while (!it.done() && got.size() < enough) { got.push_back(as_sizes(*it)); ++it; }
            }
        } break;
        case 4: case 5: { // triangular
            const size_t n = c.below(6), k = c.range(0, 5); what = pbt::str("triangular ", n, " ", k, kind == 4 ? " unique" : " repeating");
            if (k && n) want = kind == 4 ? strings(n, k, strictly) : strings(n, k, weakly);
            auto run = [&](auto it, const auto& end) {
                while (it != end && got.size() < enough) {
                    c.check(static_cast<bool>(it) && !!it && it.global() == got.size(), what + ": ordinal");
                    got.push_back(as_sizes(*it)); for (size_t i = 0; i < k; ++i) c.check(static_cast<size_t>(it[i]) == got.back()[i], what);
                    if (c.coin()) ++it; else (void) it++;
                }
                c.check(!it, what + ": not done");
            };
            if (kind == 4) {
                if (c.coin()) run(UniqueTriangularIndexIterator<>{n, k}, UniqueTriangularIndexIterator<>{n, k, true});
                else run(TriangularIndexIterator<oper_name_t, sequence_storage_t, false>{static_cast<oper_name_t>(n), k}, TriangularIndexIterator<oper_name_t, sequence_storage_t, false>{static_cast<oper_name_t>(n), k, true});
            } else {
                if (c.coin()) run(DuplicateTriangularIndexIterator<>{n, k}, DuplicateTriangularIndexIterator<>{n, k, true});
                else run(TriangularIndexIterator<oper_name_t, sequence_storage_t, true>{static_cast<oper_name_t>(n), k}, TriangularIndexIterator<oper_name_t, sequence_storage_t, true>{static_cast<oper_name_t>(n), k, true});
            }
        } break;
        case 6: case 7: { // multipartitions
            const size_t parties = c.range(1, 5), sum = c.below(7); what = pbt::str("multipartitions of ", sum, " over ", parties, kind == 7 ? " reversed" : "");
            want = strings(sum + 1, parties, [&](const auto& v) { return std::accumulate(v.begin(), v.end(), size_t{0}) == sum; });
            if (kind == 7) std::reverse(want.begin(), want.end());
            auto run = [&](auto it) {
                while (it && got.size() < enough) { got.push_back(as_sizes(*it)); auto copy = it; c.check(copy == it, what); for (size_t i = 0; i < parties; ++i) c.check(static_cast<size_t>(it[i]) == got.back()[i], what); ++it; c.check(copy != it, what + ": does not move on"); }
            };
            if (kind == 6) { if (c.coin()) run(MultipartitionIterator<int, false>{static_cast<int>(sum), parties}); else run(MultipartitionIterator<size_t, false>{sum, parties}); }
            else { if (c.coin()) run(MultipartitionIterator<int, true>{static_cast<int>(sum), parties}); else run(MultipartitionIterator<size_t, true>{sum, parties}); }
        } break;
    }
    same_lists(c, got, want, what);
    c.nontrivial(want.size() >= 10);
}

LAW(counts, "more than twelve elements to choose from", 4000, 80000) {
    // binomials by Pascal's rule; only numbers the type can hold
    const size_t n = c.below(63), k = c.below(n + 3);
    std::vector<unsigned __int128> row{1};
    for (size_t i = 1; i <= n; ++i) { std::vector<unsigned __int128> next(i + 1, 1); for (size_t j = 1; j < i; ++j) next[j] = row[j-1] + row[j]; row = next; }
    const unsigned __int128 exact = k <= n ? row[k] : 0;
    if (exact <= std::numeric_limits<uint64_t>::max()) c.check(combinations<uint64_t>(n, k) == static_cast<uint64_t>(exact), pbt::str("choose ", k, " of ", n, " is ", combinations<uint64_t>(n, k)));
    if (exact <= static_cast<unsigned>(std::numeric_limits<int>::max())) c.check(combinations<int>(static_cast<int>(n), static_cast<int>(k)) == static_cast<int>(exact), pbt::str("choose ", k, " of ", n, " as int is ", combinations<int>(static_cast<int>(n), static_cast<int>(k))));
    if (exact <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) c.check(combinations<int64_t>(static_cast<int64_t>(n), static_cast<int64_t>(k)) == static_cast<int64_t>(exact), pbt::str("choose ", k, " of ", n, " as int64"));
    // powers
    auto power = [&](auto base, auto exp, __int128 least, __int128 most) {
        using T = decltype(base);
        __int128 p = 1; bool fits = true;
        for (int i = 0; i < static_cast<int>(exp) && fits; ++i) { p *= base; fits = p >= least && p <= most; }
        if (!fits) return;
        c.check(ipow<T>(base, static_cast<T>(exp)) == static_cast<T>(p), pbt::str(+base, " to the ", +exp, " is ", +ipow<T>(base, static_cast<T>(exp))));
    };
    const int e = static_cast<int>(c.below(c.coin() ? 64 : 8));
    const int64_t b = c.coin() ? c.range(-4, 4) : c.range(-3000, 3000);
    power(static_cast<int64_t>(b), e, std::numeric_limits<int64_t>::min() + 1, std::numeric_limits<int64_t>::max());
    power(static_cast<uint64_t>(std::abs(b)), e, 0, std::numeric_limits<uint64_t>::max());
    power(static_cast<int>(b), e, std::numeric_limits<int>::min() + 1, std::numeric_limits<int>::max());
    power(static_cast<int8_t>(std::clamp<int64_t>(b, -100, 100)), e, -127, 127);
    static_assert(ipow<int>(-3, 3) == -27);
    c.nontrivial(n > 12);
}

namespace {
    std::vector<std::vector<size_t>> boxes(const std::vector<size_t>& lo, const std::vector<size_t>& hi, bool first_fastest) {
        std::vector<std::vector<size_t>> out; const size_t n = lo.size();
        if (!n) return out;
        size_t total = 1; for (size_t i = 0; i < n; ++i) total *= hi[i] - lo[i];
        for (size_t o = 0; o < total; ++o) {
            std::vector<size_t> v(n); size_t left = o;
            for (size_t k = 0; k < n; ++k) { const size_t i = first_fastest ? k : n - 1 - k; const size_t w = hi[i] - lo[i]; v[i] = lo[i] + left % w; left /= w; }
            out.push_back(v);
        }
        return out;
    }
    template<bool reversed> void box_walk(pbt::Case& c, const std::vector<size_t>& lo, const std::vector<size_t>& hi) {
        const std::vector<size_t> zero(hi.size(), 0);
        const std::string what = pbt::str(reversed ? "first" : "last", " fastest ", text(lo), "-", text(hi));
        { // from zero
            std::vector<std::vector<size_t>> got; const auto want = boxes(zero, hi, reversed);
            MultiDimensionalIndexIterator<reversed> it{hi}, end{hi, true};
            c.check(end.global() == want.size() || hi.empty(), what + ": ordinal of the end");
            while (it != end && got.size() < enough) {
                c.check(static_cast<bool>(it) && !!it && it.global() == got.size() && it.limits() == hi, what + ": ordinal");
                got.push_back(*it); for (size_t i = 0; i < hi.size(); ++i) c.check(it[i] == got.back()[i], what);
                if (c.coin()) ++it; else (void) it++;
            }
            c.check(!it, what); same_lists(c, got, want, what);
            got.clear();
            for (const auto& x : MultiDimensionalIndexRange<reversed>{std::vector<size_t>(hi)}) { got.push_back(x); if (got.size() > enough) break; }
            same_lists(c, got, want, what + " range");
        }
        { // from another corner
            std::vector<std::vector<size_t>> got; const auto want = boxes(lo, hi, reversed);
            MultiDimensionalOffsetIndexIterator<reversed> it{lo, hi}, end{};
            while (it != end && got.size() < enough) {
                c.check(it.global() == got.size() && it.lower_limits() == lo && it.upper_limits() == hi, what + ": ordinal");
                got.push_back(*it); for (size_t i = 0; i < hi.size(); ++i) c.check(it[i] == got.back()[i], what);
                if (c.coin()) ++it; else (void) it++;
            }
            c.check(!it, what); same_lists(c, got, want, what + " offset");
        }
    }
}
LAW(boxes_of_indices, "two dimensions or more, and eight indices", 9000, 150000) {
    const size_t n = c.below(5); std::vector<size_t> lo, hi; size_t total = 1;
    for (size_t i = 0; i < n; ++i) { const size_t l = c.below(3); lo.push_back(l); hi.push_back(l + (c.chance(6) ? 0 : c.range(1, 4))); total *= hi.back() - l; }
    if (c.coin()) box_walk<false>(c, lo, hi); else box_walk<true>(c, lo, hi);
    c.nontrivial(n > 1 && total >= 8);
    if (c.chance(30)) { // strings of operators
        const size_t ops = c.below(4), len = c.range(1, 4); Context ctx{ops};
        std::vector<std::vector<size_t>> got, want; if (ops) want = strings(ops, len, [](const auto&) { return true; });
        const MultiOperatorRange range{ctx, len}; const auto stop = range.end();
        for (auto it = range.begin(); it != stop && got.size() < enough; ) {
            got.push_back(as_sizes(it.raw())); c.check(static_cast<bool>(it) && !!it, "operator strings: state");
            const auto seq = *it; c.check(as_sizes(seq) == got.back(), "operator strings: word"); if (c.coin()) ++it; else (void) it++;
        }
        same_lists(c, got, want, pbt::str("operator strings ", ops, " ", len));
        if (ops) { // only some of the operators
            const size_t from = c.below(ops), many = c.below(ops - from + 1); got.clear();
            std::vector<std::vector<size_t>> part; if (many) part = strings(many, len, [](const auto&) { return true; });
            for (auto& v : part) for (auto& x : v) x += from;
            MultiOperatorIterator it{ctx, len, static_cast<oper_name_t>(many), static_cast<oper_name_t>(from)};
            const auto end = MultiOperatorIterator::end_of(ctx, len, static_cast<oper_name_t>(many), static_cast<oper_name_t>(from));
            while (it != end && got.size() < enough) { got.push_back(as_sizes(it.raw())); ++it; }
            same_lists(c, got, part, pbt::str("operator strings ", from, "+", many, " ", len));
        }
    }
}

// -------------------------------------------------------------------- tensors
namespace {
    template<class tensor_t, class Idx> void tensor_check(pbt::Case& c, const std::vector<size_t>& dims, bool first_fastest) {
        Idx d{}; if constexpr (requires { d.resize(1); }) d.resize(dims.size());
        using elem_t = typename tensor_t::IndexElement;
        for (size_t i = 0; i < dims.size(); ++i) d[i] = static_cast<elem_t>(dims[i]);
        const tensor_t t{d};
        auto make = [&](const std::vector<long>& v) { Idx o{}; if constexpr (requires { o.resize(1); }) o.resize(v.size()); for (size_t i = 0; i < v.size() && i < std::size(o); ++i) o[i] = static_cast<elem_t>(v[i]); return o; };
        size_t total = dims.empty() ? 0 : 1; for (auto x : dims) total *= x;
        c.check(static_cast<size_t>(t.ElementCount) == total && static_cast<size_t>(t.DimensionCount) == dims.size(), pbt::str("number of elements of ", text(dims)));
        const auto all = boxes(std::vector<size_t>(dims.size(), 0), dims, first_fastest);
        for (size_t o = 0; o < all.size(); ++o) {
            const auto idx = make(std::vector<long>(all[o].begin(), all[o].end()));
            c.check(static_cast<size_t>(t.index_to_offset(idx)) == o && static_cast<size_t>(t.index_to_offset_no_checks(idx)) == o, pbt::str("offset of ", text(all[o]), " in ", text(dims), " is ", t.index_to_offset(idx), " not ", o));
            c.check(as_sizes(t.offset_to_index(static_cast<elem_t>(o))) == all[o], pbt::str("index at offset ", o, " of ", text(dims)));
        }
        // refused: offsets and indices which are outside
        for (long bad : {static_cast<long>(total), static_cast<long>(total) + 3, -1L}) {
            try { (void) t.offset_to_index(static_cast<elem_t>(bad)); c.fail(pbt::str("offset ", bad, " accepted in ", text(dims))); } catch (const errors::bad_tensor_index&) { }
        }
        if (!dims.empty()) {
            std::vector<long> at; for (auto x : dims) at.push_back(x ? static_cast<long>(c.below(x)) : 0);
            const size_t which = c.below(dims.size()); auto out = at; out[which] = c.coin() ? static_cast<long>(dims[which]) : (c.coin() ? -1 : static_cast<long>(dims[which]) + 2);
            try { (void) t.index_to_offset(make(out)); c.fail(pbt::str("index with ", out[which], " at ", which, " accepted in ", text(dims))); } catch (const errors::bad_tensor_index&) { }
            if constexpr (requires(Idx i) { i.resize(1); }) {
                auto shorter = at; if (c.coin()) shorter.pop_back(); else shorter.push_back(0);
                try { (void) t.index_to_offset(make(shorter)); c.fail("index of the wrong length accepted"); } catch (const errors::bad_tensor_index&) { }
            }
            // ranges
            std::vector<long> lo, hi; bool fine = true;
            for (auto x : dims) { lo.push_back(c.range(-1, static_cast<int64_t>(x) + 1)); hi.push_back(c.range(-1, static_cast<int64_t>(x) + 2));
                if (c.chance(80)) { lo.back() = x ? static_cast<long>(c.below(x)) : 0; hi.back() = c.range(lo.back(), static_cast<int64_t>(x)); }
                fine &= lo.back() >= 0 && lo.back() < static_cast<long>(x) && hi.back() >= lo.back() && hi.back() <= static_cast<long>(x); }
            bool threw = false; try { t.validate_range(make(lo), make(hi)); } catch (const errors::bad_tensor_index&) { threw = true; }
            c.check(threw == !fine, pbt::str("range ", pbt::join(lo), " to ", pbt::join(hi), " in ", text(dims), threw ? " refused" : " accepted"));
        }
    }
    size_t element_value(std::span<const size_t> index) { size_t v = 7; for (auto x : index) v = v * 31 + x + 1; return v; }
    template<size_t threshold> struct TestTensor : AutoStorageTensor<size_t, threshold> {
        TestTensor(std::vector<size_t> dims, TensorStorageType how) : AutoStorageTensor<size_t, threshold>{std::move(dims), how} {
            if (this->StorageType == TensorStorageType::Explicit) {
                for (size_t o = 0; o < this->ElementCount; ++o) this->data.push_back(element_value(this->offset_to_index(o)));
            }
        }
        [[nodiscard]] size_t make_element_no_checks(std::span<const size_t> index) const override { return element_value(index); }
    };
}
LAW(tensors, "two dimensions or more, and eight elements", 8000, 150000) {
    const size_t n = c.below(5); std::vector<size_t> dims; size_t total = 1;
    for (size_t i = 0; i < n; ++i) { dims.push_back(c.chance(5) ? 0 : c.range(1, 4)); total *= dims.back(); }
    c.note(text(dims));
    switch (c.below(4)) {
        case 0: tensor_check<Tensor<>, std::vector<size_t>>(c, dims, true); break;
        case 1: tensor_check<Tensor<size_t, std::vector<size_t>, std::span<const size_t>, false>, std::vector<size_t>>(c, dims, false); break;
        case 2: while (dims.size() < 3) dims.push_back(c.range(1, 3)); dims.resize(3);
            tensor_check<Tensor<int, std::array<int, 3>, std::span<const int, 3>, true>, std::array<int, 3>>(c, dims, true); break;
        case 3: while (dims.size() < 3) dims.push_back(c.range(1, 3)); dims.resize(3);
            tensor_check<Tensor<int, std::array<int, 3>, std::span<const int, 3>, false>, std::array<int, 3>>(c, dims, false); break;
    }
    c.nontrivial(n > 1 && total >= 8);
    // a list of indices per dimension
    std::vector<std::vector<size_t>> picks; std::vector<size_t> sizes, whole; bool any_empty = n == 0;
    for (size_t i = 0; i < n; ++i) { whole.push_back(c.range(1, 4)); std::vector<size_t> p; const size_t m = c.chance(8) ? 0 : c.range(1, 3); for (size_t k = 0; k < m; ++k) p.push_back(c.below(whole.back())); picks.push_back(p); sizes.push_back(m); any_empty |= !m; }
    const IndexFlattener flat{whole, picks};
    std::vector<size_t> got, want;
    for (const auto& ii : boxes(std::vector<size_t>(n, 0), sizes, true)) { size_t o = 0, w = 1; for (size_t i = 0; i < n; ++i) { o += w * picks[i][ii[i]]; w *= whole[i]; } want.push_back(o); }
    for (auto it = flat.begin(); it != flat.end() && got.size() < enough; ) {
        got.push_back(*it); size_t o = 0, w = 1; const auto idx = it.index(); for (size_t i = 0; i < n; ++i) { o += w * idx[i]; w *= whole[i]; c.check(idx[i] == picks[i][it.index_index()[i]], "flattened index"); } c.check(o == got.back(), "flattened offset");
        if (c.coin()) ++it; else (void) it++;
    }
    c.check(got == want && flat.size() == want.size() && flat.empty() == any_empty, pbt::str("flattened indices ", text(got), " not ", text(want)));
}
LAW(stored_tensors, "two dimensions or more, and eight elements", 6000, 100000) {
    const size_t n = c.below(4); std::vector<size_t> dims; size_t total = n ? 1 : 0;
    for (size_t i = 0; i < n; ++i) { dims.push_back(c.chance(5) ? 0 : c.range(1, 4)); total *= dims.back(); }
    const auto how = c.pick(std::vector<TensorStorageType>{TensorStorageType::Virtual, TensorStorageType::Explicit, TensorStorageType::Automatic});
    c.note(pbt::str(text(dims), " storage ", static_cast<int>(how)));
    TestTensor<12> t{dims, how};
    const bool expl = how == TensorStorageType::Explicit || (how == TensorStorageType::Automatic && total <= 12);
    c.check((t.StorageType == TensorStorageType::Explicit) == expl && t.StorageType != TensorStorageType::Automatic, "kind of storage");
    const auto all = boxes(std::vector<size_t>(n, 0), dims, true);
    size_t at = 0;
    for (auto it = t.begin(); it != t.end(); ++it, ++at) {
        if (at >= all.size()) c.fail("too many elements");
        c.check(*it == element_value(all[at]) && *it.operator->() == element_value(all[at]), pbt::str("element ", at, " while iterating"));
        c.check(it.index() == all[at] && it.offset() == at && static_cast<bool>(it) && !!it && it.explicit_mode() == expl, pbt::str("index or offset of element ", at));
    }
    c.check(at == all.size(), "too few elements");
    for (size_t o = 0; o < all.size(); ++o) {
        const auto a = t(all[o]), b = t.at(o), d = t.elem_no_checks(all[o]), e = t.elem_no_checks(o);
        const size_t v = element_value(all[o]);
        c.check(static_cast<const size_t&>(a) == v && static_cast<const size_t&>(b) == v && static_cast<const size_t&>(d) == v && static_cast<const size_t&>(e) == v && *a.operator->() == v, pbt::str("element at ", text(all[o])));
    }
    try { (void) t.at(total); c.fail("offset outside accepted"); } catch (const errors::bad_tensor_index&) { }
    if (n) try { (void) t(std::vector<size_t>(dims)); c.fail("index outside accepted"); } catch (const errors::bad_tensor_index&) { }
    try { const auto& d = t.Data(); c.check(expl && d.size() == total, "stored data"); } catch (const errors::bad_tensor&) { c.check(!expl, "no stored data"); }
    if (n && total) { // a block
        std::vector<size_t> lo, hi; for (auto x : dims) { lo.push_back(c.below(x)); hi.push_back(c.range(static_cast<int64_t>(lo.back()), static_cast<int64_t>(x))); }
        auto block = c.coin() ? t.Splice(std::vector<size_t>(lo), std::vector<size_t>(hi)) : t.Splice(std::span<const size_t>(lo), std::span<const size_t>(hi));
        const auto want = boxes(lo, hi, true);
        c.check(block.size() == want.size() && block.Dimensions().size() == n, "size of block");
        for (size_t i = 0; i < n; ++i) c.check(block.Dimensions()[i] == hi[i] - lo[i], "extent of block");
        size_t k = 0;
        for (auto it = block.begin(); it != block.end(); ++it, ++k) {
            if (k >= want.size()) c.fail("too many elements in block");
            c.check(*it == element_value(want[k]) && *it.operator->() == element_value(want[k]) && same(it.index(), want[k]) && it.block_offset() == k && it.offset() == t.index_to_offset(want[k]), pbt::str("element ", k, " of block ", text(lo), "-", text(hi)));
        }
        c.check(k == want.size(), "too few elements in block");
        auto worse = hi; worse[c.below(n)] += dims[0] + 5;
        try { (void) t.Splice(std::span<const size_t>(lo), std::span<const size_t>(worse)); c.fail("block outside accepted"); } catch (const errors::bad_tensor_index&) { }
    }
    c.nontrivial(n > 1 && total >= 8);
}

LAW(square_matrices, "dimension three or more", 8000, 150000) {
    const size_t n = c.below(7); std::vector<int> data; for (size_t i = 0; i < n * n; ++i) data.push_back(static_cast<int>(c.below(1000)));
    const auto model = data; // column by column
    auto at = [&](size_t r, size_t col) { return model[r + col * n]; };
    SquareMatrix<int> first{n, std::vector<int>(data)};
    SquareMatrix<int> m{std::move(first)};
    const auto& cm = m;
    c.check(m.dimension == n && m.ElementCount == n * n, "dimension");
    auto all = [&](const SquareMatrix<int>& x, const std::string& what) {
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            c.check(x(i, j) == at(i, j) && x(std::array<size_t, 2>{i, j}) == at(i, j) && x[i + j * n] == at(i, j) && x.raw()[i + j * n] == at(i, j), pbt::str(what, ": element ", i, ",", j));
            c.check(x.Transpose(std::array<size_t, 2>{i, j}) == at(j, i), pbt::str(what, ": transposed element ", i, ",", j));
        }
        size_t k = 0; for (auto v : x) { c.check(v == model[k], what + ": iteration"); ++k; } c.check(k == n * n, what + ": number of elements");
        k = 0;
        for (auto it = x.Transpose.begin(); it != x.Transpose.end(); ++it, ++k) {
            if (k >= n * n) c.fail(what + ": too many transposed elements");
            c.check(*it == at(k / n, k % n) && *it.operator->() == at(k / n, k % n), pbt::str(what, ": transposed element ", k));
        }
        c.check(k == n * n, what + ": number of transposed elements");
    };
    all(cm, "matrix");
    auto triangle = [&](auto&& view, bool upper, bool inclusive, const std::string& what) {
        std::vector<std::pair<size_t, size_t>> want, got;
        for (size_t col = 0; col < n; ++col) for (size_t r = 0; r < n; ++r) if ((upper ? r < col : r > col) || (inclusive && r == col)) want.emplace_back(r, col);
        auto it = view.begin(); const auto end = view.end();
        for (; it != end; ) {
            if (got.size() >= want.size()) c.fail(what + ": too many elements");
            const auto [r, col] = want[got.size()];
            c.check(it.Row() == r && it.Col() == col && it.Index()[0] == r && it.Index()[1] == col && it.Offset() == r + col * n, pbt::str(what, ": at ", it.Row(), ",", it.Col(), " not ", r, ",", col));
            c.check(*it == at(r, col), what + ": value"); c.check(it.diagonal() == (r == col), what + ": diagonal");
            got.emplace_back(r, col); if (c.coin()) ++it; else (void) it++;
        }
        c.check(got.size() == want.size(), pbt::str(what, ": ", got.size(), " elements not ", want.size()));
    };
    switch (c.below(4)) {
        case 0: triangle(cm.UpperTriangle(), true, true, "upper"); triangle(m.UpperTriangle(), true, true, "mutable upper"); break;
        case 1: triangle(cm.LowerTriangle(), false, true, "lower"); triangle(m.LowerTriangle(), false, true, "mutable lower"); break;
        case 2: triangle(cm.ExclusiveUpperTriangle(), true, false, "strictly upper"); triangle(m.ExclusiveUpperTriangle(), true, false, "mutable strictly upper"); break;
        case 3: triangle(cm.ExclusiveLowerTriangle(), false, false, "strictly lower"); triangle(m.ExclusiveLowerTriangle(), false, false, "mutable strictly lower"); break;
    }
    const size_t pad = c.below(4); const auto padded = cm.pad(pad, -5);
    c.check(padded.dimension == n + pad, "padded dimension");
    for (size_t i = 0; i < n + pad; ++i) for (size_t j = 0; j < n + pad; ++j) c.check(padded(i, j) == ((i < n && j < n) ? at(i, j) : -5), pbt::str("padded element ", i, ",", j));
    c.check(padded.Transpose.begin() == padded.Transpose.end() ? (n + pad == 0) : true, "padded transpose");
    all(cm, "matrix after");
    c.nontrivial(n > 2);
}

// -------------------------------------------------------------------- merges, searches and substrings
LAW(small_helpers, "lists of three elements or more", 9000, 200000) {
    auto sorted_list = [&](int most, int64_t lo, int64_t hi, bool unique) {
        std::vector<int64_t> v; const int n = static_cast<int>(c.sized(0, most)); for (int i = 0; i < n; ++i) v.push_back(c.range(lo, hi));
        std::sort(v.begin(), v.end()); if (unique) v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
    };
    switch (c.below(6)) {
        case 0: { // merging maps: what is there stays
            const auto ka = sorted_list(10, -6, 8, true), kb = sorted_list(10, -6, 8, true);
            auto run = [&](auto key, int64_t shift) {
                using K = decltype(key); std::map<K, std::unique_ptr<int>> a, b; std::map<K, int> ref; int v = 0;
                for (auto k : ka) { a[static_cast<K>(k + shift)] = std::make_unique<int>(++v); ref[static_cast<K>(k + shift)] = v; }
                for (auto k : kb) { b[static_cast<K>(k + shift)] = std::make_unique<int>(++v); ref.emplace(static_cast<K>(k + shift), v); }
                linear_map_merge(a, std::move(b));
                c.check(a.size() == ref.size(), "size of merged map");
                for (const auto& [k, x] : ref) { auto it = a.find(k); c.check(it != a.end() && it->second && *it->second == x, pbt::str("merged value of ", k)); }
            };
            if (c.coin()) run(size_t{}, 10); else run(int64_t{}, 0);
            c.nontrivial(ka.size() > 2 && kb.size() > 2);
        } break;
        case 1: { // first common element of two sorted lists
            const auto a = sorted_list(8, 0, 14, false), b = sorted_list(8, 0, 14, false);
            std::optional<size_t> want; for (size_t i = 0; i < b.size() && !want; ++i) if (std::find(a.begin(), a.end(), b[i]) != a.end()) want = i;
            const auto got = first_intersection_index(a.begin(), a.end(), b.begin(), b.end());
            c.check(got.has_value() == want.has_value() && (!got || b[*got] == b[*want]), "first common element");
            if (got) c.check(*got == *want, pbt::str("first common element at ", *got, " not ", *want));
            auto ra = a, rb = b; std::reverse(ra.begin(), ra.end()); std::reverse(rb.begin(), rb.end());
            want.reset(); for (size_t i = 0; i < rb.size() && !want; ++i) if (std::find(ra.begin(), ra.end(), rb[i]) != ra.end()) want = i;
            c.check(first_intersection_index(ra.begin(), ra.end(), rb.begin(), rb.end(), std::greater<int64_t>{}) == want, "first common element of falling lists");
            c.nontrivial(a.size() > 2 && b.size() > 2);
        } break;
        case 2: { // least rotation
            auto run = [&](auto zero, int most) {
                using T = decltype(zero); std::vector<T> v; const int n = static_cast<int>(c.sized(0, most)); const int letters = static_cast<int>(c.range(1, 3));
                if (c.coin()) for (int i = 0; i < n; ++i) v.push_back(static_cast<T>(c.below(letters)));
                else { const int p = static_cast<int>(c.range(1, 3)); std::vector<T> u; for (int i = 0; i < p; ++i) u.push_back(static_cast<T>(c.below(letters))); for (int i = 0; i < n; ++i) v.push_back(u[i % p]); }
                auto rotate = [&](size_t k) { std::vector<T> o; for (size_t i = 0; i < v.size(); ++i) o.push_back(v[(i + k) % v.size()]); return o; };
                size_t best = 0; for (size_t k = 1; k < v.size(); ++k) if (rotate(k) < rotate(best)) best = k;
                const size_t got = ShiftSorter<T>{}(std::span<const T>(v));
                c.check(v.empty() ? got == 0 : (got == best), pbt::str("least rotation of ", pbt::join(v), " is ", got, " not ", best));
                c.nontrivial(v.size() > 2);
            };
            switch (c.below(4)) { case 0: run(uint64_t{}, 12); break; case 1: run(int{}, 12); break; case 2: run(size_t{}, 40); break; default: run(uint8_t{}, c.chance(20) ? 300 : 10); break; }
        } break;
        case 3: { // chunks
            std::vector<int> data; const size_t n = c.below(12); for (size_t i = 0; i < n; ++i) data.push_back(static_cast<int>(i * i));
            std::vector<size_t> starts; for (auto x : sorted_list(5, 0, static_cast<int64_t>(n), false)) starts.push_back(static_cast<size_t>(x));
            const VariableChunkRange<int> range{data, starts}; size_t k = 0;
            for (auto it = range.begin(); it != range.end(); ++k) {
                if (k >= starts.size()) c.fail("too many chunks");
                const size_t to = k + 1 < starts.size() ? starts[k + 1] : n;
                const auto chunk = *it; c.check(it.chunk_size() == to - starts[k] && chunk.size() == to - starts[k] && std::equal(chunk.begin(), chunk.end(), data.begin() + static_cast<ptrdiff_t>(starts[k])), pbt::str("chunk ", k));
                if (c.coin()) ++it; else (void) it++;
            }
            c.check(k == starts.size(), "too few chunks"); c.nontrivial(starts.size() > 2);
            // side by side
            std::vector<int> other; std::vector<bool> flags; for (size_t i = 0; i < n; ++i) other.push_back(-static_cast<int>(i));
            using VI = std::vector<int>::iterator; IterTuple<VI, VI> pair{data.begin(), other.begin()}; const IterTuple<VI, VI> stop{data.end(), other.end()};
            size_t i = 0; for (; pair != stop; ++pair, ++i) { if (i >= n) c.fail("pairs go on"); auto [x, y] = *pair; c.check(x == data[i] && y == other[i], "pair"); y = 1000 + x; }
            c.check(i == n && pair == stop, "pairs end early"); for (size_t j = 0; j < n; ++j) c.check(other[j] == 1000 + data[j], "written through pair");
        } break;
        case 4: { // hashes of substrings
            sequence_storage_t s; const size_t radix = c.range(1, 6) + 1, n = c.below(6); for (size_t i = 0; i < n; ++i) s.push_back(static_cast<oper_name_t>(c.below(radix - 1)));
            std::vector<std::pair<size_t, uint64_t>> want, got;
            for (size_t end = n; end > 0; --end) { uint64_t h = 1, w = 1; for (size_t i = end; i-- > 0; ) { h += (1 + s[i]) * w; w *= radix; want.emplace_back(i, h); } }
            const Algebraic::SubstringHashRange range{s, radix}; const auto stop = range.end();
            for (auto it = range.begin(); it != stop; ++it) { if (got.size() > want.size()) break; got.emplace_back(it.index(), *it); }
            c.check(got == want, "hashes of substrings"); c.nontrivial(n > 2);
        } break;
        case 5: {
            std::set<int64_t> s; for (auto x : sorted_list(9, -20, 20, true)) s.insert(x);
            c.check(set_to_vector(s) == std::vector<int64_t>(s.begin(), s.end()), "vector from set"); c.nontrivial(s.size() > 2);
        } break;
    }
}

// -------------------------------------------------------------------- numbers within tolerance
LAW(tolerances, "numbers which are close, but differ", 9000, 200000) {
    const double eps = std::numeric_limits<double>::epsilon();
    const double mult = c.pick(std::vector<double>{1.0, 1.0, 10.0, 100.0, 1e6, 4.0, 0.0});
    const double base = c.pick(std::vector<double>{1.0, -1.0, 3.0, 0.5, -1e-3, 1024.0, 1e-9}) * (c.coin() ? 1.0 : 1.5);
    // how many tolerances apart: exact or clearly on one side
    const double k = c.pick(std::vector<double>{0.0, 0.25, 0.5, 4.0, 100.0});
    const double sign = c.coin() ? 1 : -1;
    const double y = base + sign * k * std::max(mult, 4.0) * eps * std::abs(base);
    const double apart = std::abs(y - base), scale = eps * mult;
    c.note(pbt::str(base, " and ", y, " tolerance ", mult));
    auto decided = [&](double diff, double limit) { return diff == 0 || diff > 1.5 * limit || (limit > 0 && diff < limit / 1.5); };
    if (decided(apart, scale * std::abs(base))) {
        const bool eq = apart == 0 || apart < scale * std::abs(base);
        for (auto [a, b] : {std::pair{base, y}, std::pair{y, base}}) {
            c.check(approximately_equal(a, b, mult) == eq, pbt::str("equality of ", a, " and ", b, " within ", mult));
            c.check(essentially_equal(a, b, mult) == eq, "essential equality");
            c.check(definitely_greater_than(a, b, mult) == (!eq && a > b), "greater than"); c.check(definitely_less_than(a, b, mult) == (!eq && a < b), "less than");
            c.check(approximately_compare(a, b, mult) == (eq ? 0 : (a < b ? -1 : 1)), "comparison");
        }
        if (apart > 0) c.nontrivial();
    }
    const double z = k * std::max(mult, 1.0) * eps * sign;
    if (decided(std::abs(z), scale)) {
        const bool zero = z == 0 || std::abs(z) < scale;
        c.check(approximately_zero(z, mult) == zero, pbt::str(z, " is zero within ", mult));
        c.check(approximately_zero(std::complex<double>(z, 0), mult) == zero && approximately_zero(std::complex<double>(0, z), mult) == zero, pbt::str("complex ", z, " is zero within ", mult));
        c.check(approximately_real(std::complex<double>(base, z), mult) == zero && approximately_imaginary(std::complex<double>(z, base), mult) == zero, "real or imaginary");
        const std::complex<double> w{base, -y};
        c.check(approximately_equal(w, w, mult), pbt::str("complex number is not equal to itself within ", mult));
        std::complex<double> v{base, z}; real_or_imaginary_if_close<double>(v, mult);
        if (std::abs(base) > 1.5 * scale) c.check(v == std::complex<double>(base, zero ? 0.0 : z), "made real");
        v = {z, base}; real_or_imaginary_if_close<double>(v, mult);
        if (std::abs(base) > 1.5 * scale) c.check(v == std::complex<double>(zero ? 0.0 : z, base), "made imaginary");
    }
    { // same norm
        const double t = static_cast<double>(c.below(8)) * 0.7; const std::complex<double> a = std::polar(std::abs(base), t);
        c.check(approximately_same_norm(std::complex<double>(base, 0), a, 100.0), "same norm"); c.check(!approximately_same_norm(std::complex<double>(base, 0), a * 1.01, 100.0), "other norm");
    }
}

namespace {
    template<class S> void matrix_predicates(pbt::Case& c) {
        using Dense = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
        const double eps = std::numeric_limits<double>::epsilon();
        const double mult = c.pick(std::vector<double>{1.0, 1.0, 1e6, 100.0});
        const int n = static_cast<int>(c.below(5)), m = c.chance(10) ? n + 1 : n;
        auto number = [&]() { S v{}; if constexpr (std::is_same_v<S, double>) v = c.nice(); else v = S{c.nice(), c.nice()}; return v; };
        auto conj = [](S v) { if constexpr (std::is_same_v<S, double>) return v; else return std::conj(v); };
        Dense d = Dense::Zero(n, m);
        const int kind = static_cast<int>(c.below(4)); // zero, hermitian, antihermitian, any
        for (int i = 0; i < n; ++i) for (int j = i; j < m; ++j) {
            if (c.chance(40)) continue;
            S v = number();
            switch (kind) {
                case 0: break;
                case 1: if (j < n) { if (i == j) d(i, i) = v + conj(v); else { d(i, j) = v; d(j, i) = conj(v); } } break;
                case 2: if (j < n) { if (i == j) d(i, i) = v - conj(v); else { d(i, j) = v; d(j, i) = -conj(v); } } break;
                case 3: d(i, j) = v; if (j < n && c.coin()) d(j, i) = number(); break;
            }
        }
        // perturb: far within, or far outside, the tolerance
        int perturbed = 0;
        std::set<std::pair<int, int>> stored;
        if (n && m && c.chance(60)) {
            const int i = static_cast<int>(c.below(n)), j = static_cast<int>(c.below(m)); perturbed = c.coin() ? 1 : 2;
            S delta{perturbed == 1 ? mult * eps / 8 : mult * eps * 1e4};
            if constexpr (!std::is_same_v<S, double>) if (c.coin()) delta = S{0, delta.real()};
            d(i, j) += delta;
        }
        Eigen::SparseMatrix<S> s(n, m);
        std::vector<Eigen::Triplet<S>> t;
        for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (d(i, j) != S{} || c.chance(10)) t.emplace_back(i, j, d(i, j)); // zeros may be stored
        s.setFromTriplets(t.begin(), t.end());
        // by definition, every entry being either well within or well outside the tolerance
        const double tol = mult * eps;
        auto near_zero = [&](S v) { return std::abs(v) <= tol; };
        bool zero = true, unclear = false, herm = n == m, anti = n == m;
        auto differs = [&](S a, S b) {
            const double diff = std::abs(a - b); double limit = tol;
            if constexpr (std::is_same_v<S, double>) { // relative for real numbers
                limit = tol * std::max(std::abs(a), std::abs(b));
            }
            if (diff > limit / 4 && diff < limit * 4) unclear = true;
            return diff > limit;
        };
        auto differs_absolute = [&](S a, S b) { const double diff = std::abs(a - b); if (diff > tol / 4 && diff < tol * 4) unclear = true; return diff > tol; };
        for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
            zero &= near_zero(d(i, j));
            if (n == m) {
                if (i != j) herm &= !differs(conj(d(i, j)), d(j, i)); else if constexpr (!std::is_same_v<S, double>) herm &= !differs_absolute(S{0, d(i, i).imag()}, S{});
                if (i != j) anti &= !differs_absolute(-conj(d(i, j)), d(j, i)); else anti &= !differs_absolute(S{std::real(d(i, i))}, S{});
            }
        }
        if (unclear) throw pbt::Discard{};
        c.note(pbt::str(n, "x", m, " kind ", kind, " perturbed ", perturbed, " tolerance ", mult));
        c.check(is_zero(d, mult) == zero, pbt::str("dense zero: ", is_zero(d, mult)));
        c.check(is_zero(s, mult) == zero, pbt::str("sparse zero: ", is_zero(s, mult)));
        c.check(is_hermitian(d, mult) == herm, pbt::str("dense Hermitian: ", is_hermitian(d, mult)));
        c.check(is_hermitian(s, mult) == herm, pbt::str("sparse Hermitian: ", is_hermitian(s, mult)));
        c.check(is_antihermitian(d, mult) == anti, pbt::str("dense anti-Hermitian: ", is_antihermitian(d, mult)));
        c.check(is_antihermitian(s, mult) == anti, pbt::str("sparse anti-Hermitian: ", is_antihermitian(s, mult)));
        c.nontrivial(n > 1 && perturbed);
    }
}
LAW(matrix_tests, "an entry of a matrix was changed by less, or more, than the tolerance", 9000, 200000) {
    if (c.coin()) matrix_predicates<double>(c); else matrix_predicates<std::complex<double>>(c);
}
LAW(kronecker_powers, "third power or more of a matrix with two rows or more", 2500, 40000) {
    const int rows = static_cast<int>(c.range(1, 3)), cols = c.chance(70) ? rows : static_cast<int>(c.range(1, 3)), power = static_cast<int>(c.range(0, rows > 2 || cols > 2 ? 4 : 6));
    Eigen::MatrixXd base = Eigen::MatrixXd::Zero(rows, cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) base(i, j) = c.nice();
    const Eigen::SparseMatrix<double> sparse = base.sparseView();
    const Eigen::MatrixXd got = kronecker_power(sparse, power);
    Eigen::Index R = 1, C = 1; for (int p = 0; p < power; ++p) { R *= rows; C *= cols; }
    c.check(got.rows() == R && got.cols() == C, pbt::str("power has ", got.rows(), "x", got.cols()));
    for (Eigen::Index i = 0; i < R; ++i) for (Eigen::Index j = 0; j < C; ++j) {
        double v = 1; Eigen::Index ii = i, jj = j; for (int p = 0; p < power; ++p) { v *= base(ii % rows, jj % cols); ii /= rows; jj /= cols; }
        c.check(pbt::close(got(i, j), v), pbt::str("entry ", i, ",", j, " is ", got(i, j), " not ", v));
    }
    c.nontrivial(power > 2 && rows > 1);
}

// copies of an iterator taken along its walk: equal exactly where the walk stands at the same place
namespace {
    template<class it_t> void positions(pbt::Case& c, const it_t& begin, const it_t& end, size_t count, const std::string& what) {
        std::deque<it_t> at;                                    // one copy for each place, end included
        { it_t it{begin}; for (size_t i = 0; i < count; ++i) { at.emplace_back(it); if constexpr (requires { it++; }) { if (c.coin()) { const it_t was{it++}; c.check(was == at.back(), pbt::str(what, ": value of it++ at ", i)); continue; } } ++it; } at.emplace_back(it); }
        c.check(at.back() == end, what + ": walk does not stop at the end");
        it_t again{begin}; const size_t n = std::min<size_t>(count, 40), skip = count > 40 ? c.below(count - 40) : 0;
        for (size_t i = 0; i < skip; ++i) ++again;
        for (size_t i = skip; i < skip + n; ++i, ++again) {
            for (size_t j = skip; j < skip + n; ++j) {
                c.check((again == at[j]) == (i == j), pbt::str(what, ": place ", i, (i == j ? " differs from itself" : " is equal to place "), j));
                c.check((again != at[j]) == (i != j), pbt::str(what, ": != of places ", i, " and ", j));
            }
            c.check(!(again == end) && !(end == again) && again != end && end != again, pbt::str(what, ": place ", i, " is the end"));
        }
        c.check(end == end && at.back() == end && !(at.back() != end), what + ": ends differ");
        c.nontrivial(count >= 5);
    }
}
LAW(iterator_positions, "five places or more", 6000, 100000) {
    switch (c.below(9)) {
        case 0: { const size_t n = c.below(7), k = c.below(n + 1);
            positions(c, CombinationIndexIterator{n, k}, CombinationIndexIterator{n, k, true}, strings(n, k, strictly).size(), pbt::str("combinations ", n, " ", k)); } break;
        case 1: { const size_t n = c.below(6), k = c.below(5); const size_t count = strings(n, k, weakly).size(); if (!count) throw pbt::Discard{};
            positions(c, CommutingIndexIterator{n, k}, CommutingIndexIterator{n, k, true}, count, pbt::str("commuting ", n, " ", k)); } break;
        case 2: { const size_t n = c.range(1, 5), k = c.below(5);
            positions(c, OrderedPermutationIterator<size_t>{n, k}, OrderedPermutationIterator<size_t>{n, k, true}, strings(n, k, weakly).size(), pbt::str("ordered permutations ", n, " ", k)); } break;
        case 3: { const size_t n = c.range(1, 6), k = c.range(1, static_cast<int64_t>(std::min<size_t>(n, 5)));
            if (c.coin()) positions(c, UniqueTriangularIndexIterator<>{n, k}, UniqueTriangularIndexIterator<>{n, k, true}, strings(n, k, strictly).size(), pbt::str("unique triangular ", n, " ", k));
            else positions(c, DuplicateTriangularIndexIterator<>{n, k}, DuplicateTriangularIndexIterator<>{n, k, true}, strings(n, k, weakly).size(), pbt::str("repeating triangular ", n, " ", k)); } break;
        case 4: { const size_t parties = c.range(1, 4), sum = c.below(6);
            const size_t count = strings(sum + 1, parties, [&](const auto& v) { return std::accumulate(v.begin(), v.end(), size_t{0}) == sum; }).size();
            auto run = [&](auto begin) { auto end = begin; while (end) ++end; positions(c, begin, end, count, pbt::str("multipartitions of ", sum, " over ", parties)); };
            if (c.coin()) run(MultipartitionIterator<size_t, false>{sum, parties}); else run(MultipartitionIterator<size_t, true>{sum, parties}); } break;
        case 5: case 6: { const size_t n = c.range(1, 4); std::vector<size_t> lo, hi, zero(n, 0); size_t box = 1, all = 1;
            for (size_t i = 0; i < n; ++i) { lo.push_back(c.below(3)); hi.push_back(lo.back() + c.range(1, 3)); box *= hi.back() - lo.back(); all *= hi.back(); }
            const std::string what = pbt::str("box ", text(lo), "-", text(hi));
            switch (c.below(4)) {
                case 0: positions(c, MultiDimensionalIndexIterator<false>{hi}, MultiDimensionalIndexIterator<false>{hi, true}, all, what); break;
                case 1: positions(c, MultiDimensionalIndexIterator<true>{hi}, MultiDimensionalIndexIterator<true>{hi, true}, all, what); break;
                case 2: positions(c, MultiDimensionalOffsetIndexIterator<false>{lo, hi}, MultiDimensionalOffsetIndexIterator<false>{}, box, what); break;
                default: positions(c, MultiDimensionalOffsetIndexIterator<true>{lo, hi}, MultiDimensionalOffsetIndexIterator<true>{}, box, what); break;
            } } break;
        case 7: { const size_t ops = c.range(1, 4), len = c.range(1, 3); Context ctx{ops};
            const MultiOperatorRange range{ctx, len};
            positions(c, range.begin(), range.end(), strings(ops, len, [](const auto&) { return true; }).size(), pbt::str("operator strings ", ops, " ", len)); } break;
        case 8: { const size_t n = c.range(1, 4); std::vector<size_t> dims; size_t total = 1; for (size_t i = 0; i < n; ++i) { dims.push_back(c.range(1, 3)); total *= dims.back(); }
            const TestTensor<10> t{dims, c.coin() ? TensorStorageType::Explicit : TensorStorageType::Virtual};
            positions(c, t.begin(), t.end(), total, pbt::str("tensor ", text(dims))); } break;
    }
}
