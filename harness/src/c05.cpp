// C05: word lists and ranks.
#include "algebra_gen.h"
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/dictionary.h"
#include "dictionary/multi_operator_iterator.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/indices/nearest_neighbour_index.h"
#include "shortlex_hasher.h"
#include <barrier>
#include <thread>
using namespace Moment;
using namespace model;
using u128 = unsigned __int128;

namespace {
    u128 rank128(const Ops& w, uint64_t radix, uint64_t offset) {
        u128 h = 0;
        for (int o : w) h = h * radix + static_cast<u128>(o) + 1;
        return h + offset;
    }
    /** Largest length L such that every word of length L or less has a rank that fits in 64 bits. */
    size_t longest(uint64_t radix, uint64_t offset) {
        size_t len = 0;
        u128 h = offset;
        u128 power = 1;
        while (true) {
            power *= radix;
            h += power;          // largest rank of a word one longer
            if (h > UINT64_MAX) return len;
            ++len;
        }
    }
    struct Setting {
        std::unique_ptr<Context> ctx;
        std::unique_ptr<Algebra> ref;
        std::function<bool(const Ops&)> canonical;      // used when there is no reference normaliser
        std::function<Ops(const Ops&)> conj_raw;
        std::string name;
        int n = 0;
        size_t max_len = 0;
    };
    size_t len_for(int n, size_t budget, size_t most) {
        size_t len = 0, words = 1, layer = 1;
        while (len < most) {
            layer *= static_cast<size_t>(std::max(1, n));
            words += layer;
            if (words > budget) break;
            ++len;
        }
        return len;
    }
    Setting gen_setting(pbt::Case& c, int kind, size_t budget) {
        Setting s;
        switch (kind) {
            case 0: {
                int n = static_cast<int>(c.below(5));
                s.ctx = std::make_unique<Context>(static_cast<size_t>(n));
                s.ref = std::make_unique<Free>(n);
                s.name = pbt::str("free ", n);
                break;
            }
            case 1: {
                auto m = gen_locality(c, 4, 3, 4, 1, 0, 12, true);
                s.ctx = m.make();
                s.name = m.text();
                s.ref = std::make_unique<model::Locality>(m);
                break;
            }
            case 2: {
                int q = static_cast<int>(c.range(1, 5));
                s.ctx = std::make_unique<Moment::Pauli::PauliContext>(static_cast<size_t>(q));
                s.ref = std::make_unique<model::Pauli>(q);
                s.name = pbt::str("pauli ", q);
                break;
            }
            case 3: {
                auto m = gen_inflation(c, 3, 3, 2, 12, 3);
                s.ctx = m.make();
                s.name = m.text();
                s.ref = std::make_unique<InflatedNet>(m);
                break;
            }
            default: {
                auto a = gen_algebra(c, 4, 4, 3);
                auto ctx = std::make_unique<Moment::Algebraic::AlgebraicContext>(a.precontext(), a.commutative, true, a.lib_rules());
                s.name = a.text();
                Logger log{a.n};
                if (!ctx->attempt_completion(12, &log)) throw pbt::Discard{};
                std::vector<Ops> lhs;
                for (auto& [h, r] : ctx->rulebook().rules()) lhs.push_back(ops_of(r.LHS()));
                s.canonical = [lhs](const Ops& w) {
                    for (auto& l : lhs) if (std::search(w.begin(), w.end(), l.begin(), l.end()) != w.end()) return false;
                    return true;
                };
                s.n = a.n;
                s.ctx = std::move(ctx);
                break;
            }
        }
        if (s.ref) s.n = s.ref->n;
        s.max_len = len_for(s.n, budget, s.n <= 1 ? 5 : 6);
        return s;
    }
    std::set<Ops> reference(const Setting& s, size_t len) {
        if (s.ref) return s.ref->all_words(len);
        std::set<Ops> out;
        std::vector<Ops> layer{{}};
        if (s.canonical({})) out.insert(Ops{});
        for (size_t l = 1; l <= len; ++l) {
            std::vector<Ops> next;
            for (auto& w : layer) for (int o = 0; o < s.n; ++o) {
                Ops x = w;
                x.push_back(o);
                if (s.canonical(x)) { out.insert(x); next.push_back(x); }
            }
            layer = std::move(next);
        }
        return out;
    }
    Ops plain(const OperatorSequence& q) { return ops_of(q); }
    void verify(pbt::Case& c, const Setting& s, const OSGPair& pair, const std::set<Ops>& want, const std::string& what) {
        std::set<Ops> got;
        auto& fwd = pair();
        c.check(fwd.size() >= 1, what + ": empty list");
        c.check(fwd[0].empty() && !fwd[0].zero(), what + ": first word is not the identity");
        for (auto& w : fwd) {
            auto o = plain(w);
            c.checkf(!w.zero(), [&] { return what + ": zero in the list"; });
            c.checkf(got.insert(o).second, [&] { return what + ": " + text(o) + " is in the list twice"; });
            c.checkf(want.count(o) > 0, [&] { return what + ": " + text(o) + " is in the list"; });
            c.checkf(w.get_sign() == SequenceSignType::Positive, [&] { return what + ": " + text(o) + " has a sign"; });
            c.checkf(w.hash() == shortlex(o, static_cast<uint64_t>(s.n)), [&] { return what + ": rank of " + text(o) + pbt::str(" is ", w.hash()); });
            c.checkf(w == to_seq(*s.ctx, o), [&] { return what + ": " + text(o) + " is not the word of its operators"; });
        }
        for (auto& o : want) c.checkf(got.count(o) > 0, [&] { return what + ": " + text(o) + " is missing"; });
        auto& bwd = pair.conjugate();
        c.check(bwd.size() == fwd.size(), what + ": companion list has another size");
        for (size_t i = 0; i < fwd.size(); ++i) {
            c.checkf(bwd[i] == fwd[i].conjugate() && from_seq(bwd[i]) == from_seq(fwd[i].conjugate()),
                     [&] { return what + ": companion of " + text(plain(fwd[i])) + " is " + text(from_seq(bwd[i])); });
            if (s.ref) c.checkf(from_seq(bwd[i]) == s.ref->conj(Word{false, 0, plain(fwd[i])}), [&] { return what + ": conjugate of " + text(plain(fwd[i])); });
        }
    }
}

LAW(ranks, "two or more operators, and words long enough to need more than 32 bits", 300000, 12000000) {
    uint64_t radix = static_cast<uint64_t>(c.chance(20) ? c.range(1, 32767) : c.range(1, 20));
    uint64_t offset = c.chance(30) ? c.below(1000) : 1;
    ShortlexHasher h{radix, offset};
    size_t fit = radix > 1 ? longest(radix, offset) : 64;
    c.note(pbt::str("radix ", radix, " offset ", offset));
    if (radix > 1) c.checkf(h.longest_hashable_string() == fit, [&] { return pbt::str("longest hashable string ", h.longest_hashable_string(), ", words of ", fit, " operators fit"); });
    else c.check(h.longest_hashable_string() >= 1000000, "longest hashable string of one operator");
    size_t most = std::min<size_t>(fit, 64);
    auto draw = [&] {
        Ops w;
        size_t len = c.chance(30) ? most : c.below(most + 1);
        for (size_t i = 0; i < len; ++i) w.push_back(c.chance(40) ? static_cast<int>(radix) - 1 : static_cast<int>(c.below(radix)));
        return w;
    };
    auto a = draw(), b = draw();
    if (c.chance(40)) { b = a; if (!b.empty()) { auto& x = b[c.below(b.size())]; x = static_cast<int>(c.below(radix)); } }
    c.note(text(a) + " " + text(b));
    auto sa = store(a), sb = store(b);
    hash_t ha = h.hash(std::span<const oper_name_t>{sa.begin(), sa.size()}), hb = h.hash(std::span<const oper_name_t>{sb.begin(), sb.size()});
    c.nontrivial(radix > 1 && ha > UINT32_MAX);
    c.check(ha == static_cast<hash_t>(rank128(a, radix, offset)), pbt::str("rank of the first word ", ha));
    c.check(hb == static_cast<hash_t>(rank128(b, radix, offset)), pbt::str("rank of the second word ", hb));
    bool less = a.size() != b.size() ? a.size() < b.size() : a < b;
    c.check((ha < hb) == less && (ha == hb) == (a == b), "order of ranks is not shortlex order");
    c.check(h(std::span<const oper_name_t>{sa.begin(), sa.size()}) == ha, "call operator");
    auto o = static_cast<oper_name_t>(c.below(radix));
    c.check(h.hash(o) == h({o}) && h.hash(o) == offset + static_cast<hash_t>(o) + 1, "rank of one operator");
}

LAW(every_rank, "at least three operators", 300, 6000) {
    // walking through words in shortlex order makes the rank go up by one
    int n = static_cast<int>(c.range(1, 5));
    Context ctx{static_cast<size_t>(n)};
    size_t len = len_for(n, 3000, 8);
    uint64_t expected = 1;
    c.note(pbt::str(n, " operators to length ", len));
    c.nontrivial(n >= 3);
    c.check(ctx.identity().hash() == 1 && ctx.zero().hash() == 0, "identity and zero");
    for (size_t l = 1; l <= len; ++l) {
        Ops w(l, 0);
        bool more = true;
        auto range = MultiOperatorRange{ctx, l};
        auto it = range.begin();
        auto end = range.end();
        while (more) {
            ++expected;
            auto st = store(w);
            c.check(ctx.hash(st) == expected, "rank of " + text(w));
            c.check(ctx.hash(OperatorSequence{store(w), ctx}) == expected, "rank of the sequence " + text(w));
            c.check(it != end && static_cast<bool>(it) && !!it, "words end before " + text(w));
            c.checkf(Ops(it.raw().begin(), it.raw().end()) == w, [&] { return "word " + text(Ops(it.raw().begin(), it.raw().end())) + " in place of " + text(w); });
            c.check((*it).hash() == expected, "word of iterator");
            if (c.chance(1)) it++; else ++it;
            more = false;
            for (size_t d = l; d-- > 0;) { if (++w[d] < n) { more = true; break; } w[d] = 0; }
        }
        c.check(it == end && !it, "words go on past the last");
    }
    // A window of operators
    auto num = static_cast<oper_name_t>(c.below(static_cast<uint64_t>(n) + 1));
    auto off = static_cast<oper_name_t>(c.below(static_cast<uint64_t>(n - num) + 1));
    auto l = static_cast<size_t>(c.range(1, 3));
    size_t count = 0, want = 1;
    for (size_t i = 0; i < l; ++i) want *= static_cast<size_t>(num);
    std::set<Ops> seen;
    for (MultiOperatorIterator it{ctx, l, num, off}; it != MultiOperatorIterator::end_of(ctx, l, num, off); ++it) {
        Ops w(it.raw().begin(), it.raw().end());
        for (int o : w) c.check(o >= off && o < off + num, "operator outside the window");
        c.check(seen.insert(w).second, "word twice");
        ++count;
    }
    c.check(count == want, pbt::str(count, " words in the window, expected ", want));
}

LAW(presorted, "longer than sixteen operators", 30000, 600000) {
    int n = static_cast<int>(c.range(1, 3));
    Context ctx{static_cast<size_t>(n)};
    auto w = gen_word(c, n, max_hashable(n));
    if (c.coin()) { Ops x; size_t len = c.below(max_hashable(n) + 1); for (size_t i = 0; i < len; ++i) x.push_back(static_cast<int>(c.below(static_cast<uint64_t>(n)))); w = x; }
    c.note(text(w));
    c.nontrivial(w.size() > 16);
    int sign = static_cast<int>(c.below(4));
    auto sg = static_cast<SequenceSignType>(sign);
    OperatorSequence a{OperatorSequence::ConstructPresortedFlag{}, store(w), ctx, sg};
    same(c, a, Word{false, sign, w}, static_cast<uint64_t>(n), "presorted");
    OperatorSequence b{store(w), ctx, sg};
    same(c, b, Word{false, sign, w}, static_cast<uint64_t>(n), "sequence");
    c.check(a == b, "constructors disagree");
    OperatorSequence d{OperatorSequence::ConstructRawFlag{}, store(w), ctx.hash(store(w)), ctx, sg};
    c.check(a == d, "raw constructor disagrees");
    HashedSequence hs{store(w), ShortlexHasher{static_cast<hash_t>(n)}, sg};
    c.check(hs.hash() == a.hash() && ops_of(hs) == w && hs.get_sign() == sg, "hashed sequence");
}

LAW(lists, "some word of the longest length is rewritten or annihilated, or operators do not commute", 40000, 1000000) {
    int kind = static_cast<int>(c.below(5));
    auto s = gen_setting(c, kind, 1500);
    auto len = static_cast<size_t>(c.range(0, static_cast<int64_t>(s.max_len)));
    c.note(s.name + pbt::str(" to length ", len));
    static const char* kinds[] = {"free", "locality", "pauli", "inflation", "algebraic"};
    c.label(kinds[kind]);
    c.check(s.ctx->size() == static_cast<size_t>(s.n), "operator count");
    auto want = reference(s, len);
    size_t all = 1, layer = 1;
    for (size_t l = 1; l <= len; ++l) { layer *= static_cast<size_t>(s.n); all += layer; }
    c.nontrivial(len >= 2 && (want.size() < all || (kind == 0 && s.n > 1)));
    if (want.empty()) throw pbt::Discard{};     // the rules make the identity vanish
    auto& dict = s.ctx->dictionary();
    auto& pair = dict.Level(len);
    verify(c, s, pair, want, pbt::str("level ", len));
    c.check(dict.WordCount(len) == want.size(), "word count");
    c.check(&dict.Level(len) == &pair, "asking again gives another list");
    c.check(&s.ctx->operator_sequence_generator(len) == &pair(), "context gives another list");
    c.check(&s.ctx->operator_sequence_generator(len, true) == &pair.conjugate(), "context gives another companion list");
}

LAW(requests, "three or more different lists, some asked for twice", 8000, 200000) {
    int kind = static_cast<int>(c.below(4));
    bool nn = kind == 2;
    std::unique_ptr<Moment::Pauli::PauliContext> pc;
    Setting s;
    if (nn) {
        s.ctx = nullptr;
        int q = static_cast<int>(c.range(3, 5));
        pc = std::make_unique<Moment::Pauli::PauliContext>(static_cast<size_t>(q), c.coin() ? Moment::Pauli::WrapType::Wrap : Moment::Pauli::WrapType::None);
        s.name = pbt::str("pauli chain ", q);
        s.n = 3 * q;
        s.max_len = 2;
    } else s = gen_setting(c, kind, 600);
    c.note(s.name);
    const Context& ctx = nn ? *pc : *s.ctx;
    auto n = static_cast<size_t>(c.range(2, 12));
    std::map<std::pair<size_t, size_t>, const OSGPair*> held;
    std::map<std::pair<size_t, size_t>, std::vector<hash_t>> contents;
    bool twice = false;
    auto hashes = [](const OSGPair& p) { std::vector<hash_t> v; for (auto& w : p()) v.push_back(w.hash()); for (auto& w : p.conjugate()) v.push_back(w.hash()); return v; };
    for (size_t i = 0; i < n; ++i) {
        size_t lev = c.below(s.max_len + 1), nb = nn ? c.below(3) : 0;
        c.note(pbt::str(lev, "/", nb));
        const OSGPair& p = nb ? pc->pauli_dictionary().NearestNeighbour(Moment::Pauli::NearestNeighbourIndex{lev, nb}) : nn && c.coin() ?
            pc->pauli_dictionary().NearestNeighbour(Moment::Pauli::NearestNeighbourIndex{lev, 0}) : ctx.dictionary().Level(lev);
        auto key = std::make_pair(lev, nb);
        if (held.count(key)) { twice = true; c.check(held[key] == &p, "the same request gives another list"); }
        else { held[key] = &p; contents[key] = hashes(p); }
        for (auto& [k, q] : held) c.checkf(hashes(*q) == contents[k], [&] { return pbt::str("list ", k.first, "/", k.second, " has changed"); });
    }
    c.nontrivial(twice && held.size() >= 3);
}

RACY_LAW(threads, "two or more threads ask for the same list", 3000, 60000) {
    int kind = static_cast<int>(c.below(4));
    bool nn = kind == 2;
    std::unique_ptr<Moment::Pauli::PauliContext> pc;
    Setting s;
    if (nn) {
        int q = static_cast<int>(c.range(3, 5));
        pc = std::make_unique<Moment::Pauli::PauliContext>(static_cast<size_t>(q), Moment::Pauli::WrapType::Wrap);
        s.name = pbt::str("pauli chain ", q);
        s.max_len = 2;
    } else s = gen_setting(c, kind, 300);
    const Context& ctx = nn ? *pc : *s.ctx;
    size_t threads = static_cast<size_t>(c.range(2, 4));
    c.note(s.name + pbt::str(" ", threads, " threads"));
    std::vector<std::vector<std::pair<size_t, size_t>>> ask(threads);
    bool all_same = c.coin();
    for (size_t t = 0; t < threads; ++t) {
        if (all_same && t > 0) { ask[t] = ask[0]; continue; }
        size_t k = static_cast<size_t>(c.range(1, 6));
        for (size_t i = 0; i < k; ++i) ask[t].emplace_back(c.below(s.max_len + 1), nn ? c.below(3) : 0);
    }
    c.nontrivial(all_same);
    std::vector<std::vector<const OSGPair*>> got(threads);
    std::vector<std::string> err(threads);
    std::barrier start{static_cast<ptrdiff_t>(threads)};
    std::vector<std::thread> pool;
    for (size_t t = 0; t < threads; ++t) pool.emplace_back([&, t] {
        start.arrive_and_wait();
        try {
            for (auto [lev, nb] : ask[t]) {
                const OSGPair& p = nb ? pc->pauli_dictionary().NearestNeighbour(Moment::Pauli::NearestNeighbourIndex{lev, nb}) : ctx.dictionary().Level(lev);
                if (p()[0].hash() != 1) throw std::runtime_error{"first word is not the identity"};
                got[t].push_back(&p);
            }
        } catch (const std::exception& e) { err[t] = e.what(); }
    });
    for (auto& t : pool) t.join();
    std::map<std::pair<size_t, size_t>, const OSGPair*> one;
    for (size_t t = 0; t < threads; ++t) {
        c.check(err[t].empty(), "a thread failed: " + err[t]);
        for (size_t i = 0; i < ask[t].size(); ++i) {
            auto [at, is_new] = one.emplace(ask[t][i], got[t][i]);
            c.check(at->second == got[t][i], "two threads are given different lists for the same request");
        }
    }
    for (auto& [k, p] : one) {
        if (nn) { Moment::Pauli::PauliContext fresh{pc->qubit_size, pc->wrap};
            auto& q = fresh.pauli_dictionary().NearestNeighbour(Moment::Pauli::NearestNeighbourIndex{k.first, k.second});
            c.check(q().size() == (*p)().size(), "list made by threads has another size");
            for (size_t i = 0; i < q().size(); ++i) c.check(q()[i].hash() == (*p)()[i].hash(), "list made by threads differs");
        } else verify(c, s, *p, reference(s, k.first), "list made by threads");
    }
}
