// C06: symbol tables.
#include "scene.h"
#include <barrier>
#include <thread>
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/dictionary.h"
#include "symbolic/symbol_errors.h"
#include "utilities/dynamic_bitset.h"
using namespace Moment;
using namespace model;

namespace {
    struct Model {
        std::map<Ops, symbol_name_t> id;        // by key
        std::map<symbol_name_t, Ops> key;
        std::set<Ops> asked;                    // words seen (normal form)
    };

    void basis(const pbt::Case& c, const SymbolTable& st) {
        std::vector<bool> re, im;
        size_t nre = 0, nim = 0;
        for (size_t i = 0; i < st.size(); ++i) {
            auto [r, m] = st[i].basis_key();
            auto [r2, m2] = st.Basis(static_cast<symbol_name_t>(i));
            c.check(r == r2 && m == m2, pbt::str("basis key of symbol ", i));
            c.check(st[i].Id() == static_cast<symbol_name_t>(i), pbt::str("symbol ", i, " is numbered ", st[i].Id()));
            if (r >= 0) { ++nre; c.check(static_cast<size_t>(r) < st.Basis.RealSymbolCount() && st.Basis.RealSymbols()[static_cast<size_t>(r)] == i, pbt::str("real basis of symbol ", i)); }
            if (m >= 0) { ++nim; c.check(static_cast<size_t>(m) < st.Basis.ImaginarySymbolCount() && st.Basis.ImaginarySymbols()[static_cast<size_t>(m)] == i, pbt::str("imaginary basis of symbol ", i)); }
            if (r >= 0) c.check(st.Basis.imaginary_from_real(r) == m, pbt::str("imaginary partner of symbol ", i));
            if (m >= 0) c.check(st.Basis.real_from_imaginary(m) == r, pbt::str("real partner of symbol ", i));
            c.check((r >= 0) == !st[i].is_antihermitian(), pbt::str("symbol ", i, ": real part and antihermitian flag"));
            c.check((m >= 0) == !st[i].is_hermitian(), pbt::str("symbol ", i, ": imaginary part and hermitian flag"));
        }
        c.check(nre == st.Basis.RealSymbolCount() && nim == st.Basis.ImaginarySymbolCount(), "basis sizes");
        c.check(st.Basis.imaginary_from_real(-1) == -1 && st.Basis.real_from_imaginary(-1) == -1, "no partner");
    }
    void lookup(const pbt::Case& c, const Scene& s, const SymbolTable& st, const Model& m, const Ops& w, int sign) {
        Word nf = s.normal(w, sign);
        auto seq = to_seq(s.context(), w, sign);
        auto found = st.where(seq);
        if (nf.zero) {
            c.check(found.found() && found->Id() == 0, "zero is symbol " + (found.found() ? std::to_string(found->Id()) : "none"));
            return;
        }
        auto it = m.id.find(s.key(nf.ops));
        auto what = "look-up of " + text(nf);
        if (it == m.id.end()) {
            c.check(!found.found(), what + ": not registered, but found");
            return;
        }
        c.check(found.found(), what + ": registered, but not found");
        c.checkf(found->Id() == it->second, [&] { return what + pbt::str(": symbol ", found->Id(), " in place of ", it->second); });
        c.check(found.symbol == &st[static_cast<size_t>(it->second)], what + ": symbol is not the table's");
        auto& sym = *found;
        // as an operator: seq = phase * (sequence or its conjugate), or one of the aliases
        Word base = from_seq(found.is_conjugated ? sym.sequence_conj() : sym.sequence());
        auto orb = s.orbit(nf.ops);
        c.checkf(orb.count(base.ops) > 0, [&] { return what + (found.is_conjugated ? ": conjugated" : ": not conjugated") + ", which stands for " + text(base); });
        // as a value
        auto v = s.symbol_values(st);
        auto as_moment = s.context().can_have_aliases() ? s.context().simplify_as_moment(OperatorSequence{seq}) : seq;
        auto mono = st.to_symbol(as_moment);
        c.checkf(pbt::close(eval(mono, v), s.value(nf)), [&] { return what + pbt::str(": symbol gives ", eval(mono, v), ", the word is worth ", s.value(nf)); });
        c.check(found.is_aliased || !s.context().can_have_aliases() || orb.size() == 1 || as_moment == seq || s.normal(w).ops == base.ops, what + ": not marked as alias");
    }
    void all(pbt::Case& c, const Scene& s, const SymbolTable& st, const Model& m) {
        basis(c, st);
        c.check(st[0].hash() == 0 && st[0].is_hermitian() && st[0].is_antihermitian(), "symbol zero");
        c.check(st[1].hash() == 1 && st[1].is_hermitian() && !st[1].is_antihermitian(), "symbol one");
        for (auto& [id, key] : m.key) {
            auto& sym = st[static_cast<size_t>(id)];
            c.check(sym.has_sequence(), pbt::str("symbol ", id, " has lost its word"));
            auto fwd = from_seq(sym.sequence()), bwd = from_seq(sym.sequence_conj());
            c.checkf(s.key(fwd.ops) == key, [&] { return pbt::str("symbol ", id, " is now ") + text(fwd) + ", not " + text(key); });
            Word cj = s.conj(fwd);
            c.checkf(bwd == cj || (fwd.ops == cj.ops && bwd == fwd), [&] { return pbt::str("symbol ", id, ": conjugate of ") + text(fwd) + " is kept as " + text(bwd); });
            Word minus = fwd;
            minus.sign = (minus.sign + 2) & 3;
            bool her = cj == fwd, anti = cj == minus;
            if (id > 0) {
                c.checkf(sym.is_hermitian() == her, [&] { return pbt::str("symbol ", id, " = ") + text(fwd) + (her ? " is not" : " is") + " marked hermitian"; });
                c.checkf(sym.is_antihermitian() == anti, [&] { return pbt::str("symbol ", id, " = ") + text(fwd) + (anti ? " is not" : " is") + " marked antihermitian"; });
            }
        }
        for (auto& w : m.asked) { lookup(c, s, st, m, w, static_cast<int>(c.below(4))); }
    }
}

LAW(histories, "some word's conjugate or alias is another word, and some word is registered twice", 30000, 900000) {
    SceneOptions o;
    o.max_ops = 10;
    auto s = gen_scene(c, o);
    c.note(s.name);
    c.label(kind_name[s.kind]);
    auto& ctx = s.context();
    SymbolTable st{ctx};
    Model m;
    m.id[Ops{}] = 1;
    m.key[1] = Ops{};
    m.asked.insert(Ops{});
    size_t expected = 2;
    bool again = false, distinct = false;
    std::set<symbol_name_t> generic;
    auto put = [&](const Ops& nf, symbol_name_t got, const std::string& what) {
        auto k = s.key(nf);
        auto it = m.id.find(k);
        if (it != m.id.end()) {
            again = true;
            c.checkf(it->second == got, [&] { return what + " " + text(nf) + pbt::str(": symbol ", got, ", but it is symbol ", it->second); });
        } else {
            c.checkf(got == static_cast<symbol_name_t>(expected), [&] { return what + " " + text(nf) + pbt::str(": symbol ", got, ", expected a new one, ", expected); });
            m.id[k] = got;
            m.key[got] = k;
            ++expected;
        }
        if (k != nf || s.conj(Word{false, 0, nf}).ops != nf) distinct = true;
        m.asked.insert(nf);
        m.asked.insert(s.conj(Word{false, 0, nf}).ops);
    };
    auto symbol_of = [&](const Ops& nf, int sign) {
        auto seq = to_seq(ctx, nf, sign);
        if (ctx.can_have_aliases()) seq = ctx.simplify_as_moment(std::move(seq));
        auto cj = seq.conjugate();
        if (c.coin() && cj.hash() != seq.hash()) return Symbol{cj, seq};
        return Symbol{seq, cj};
    };
    auto steps = static_cast<size_t>(c.sized(1, 20));
    std::vector<Ops> pool;
    auto draw = [&] {
        if (!pool.empty() && c.chance(35)) {
            auto w = c.pick(pool);
            auto orb = s.orbit(w);
            std::vector<Ops> v(orb.begin(), orb.end());
            w = c.pick(v);
            if (c.coin()) w = s.conj(Word{false, 0, w}).ops;
            return w;
        }
        auto w = s.normal_word(c, 6);
        pool.push_back(w);
        return w;
    };
    for (size_t i = 0; i < steps; ++i) {
        switch (c.below(8)) {
            case 0: case 1: case 2: {
                auto w = draw();
                int sign = static_cast<int>(c.below(4));
                c.note("register " + text(Word{false, sign, w}));
                auto id = st.merge_in(to_seq(ctx, w, sign));
                put(w, id, "registering");
                break;
            }
            case 3: {
                auto w = draw();
                int sign = static_cast<int>(c.below(4));
                c.note("merge " + text(Word{false, sign, w}));
                size_t fresh = 0;
                bool known = m.id.count(s.key(w)) > 0;
                auto id = st.merge_in(symbol_of(w, sign), &fresh);
                c.check(fresh == (known ? 0u : 1u), "count of new symbols");
                put(w, id, "merging");
                break;
            }
            case 4: {
                std::vector<Ops> ws;
                std::vector<Symbol> syms;
                size_t k = c.below(5);
                for (size_t j = 0; j < k; ++j) { ws.push_back(draw()); syms.push_back(symbol_of(ws.back(), 0)); c.note("batch " + text(ws.back())); }
                size_t fresh = 0, before = expected;
                auto ids = st.merge_in(std::move(syms), &fresh);
                std::set<symbol_name_t> want;
                for (auto& w : ws) {
                    auto it = m.id.find(s.key(w));
                    symbol_name_t id = it == m.id.end() ? static_cast<symbol_name_t>(expected) : it->second;
                    want.insert(id);
                    put(w, id, "batch");
                }
                c.check(ids == want, "symbols of a batch");
                c.check(fresh == expected - before, "count of new symbols in a batch");
                break;
            }
            case 5: {
                size_t len = c.below(std::min<size_t>(s.max_len, s.n <= 4 ? 3 : 2) + 1);
                c.note(pbt::str("fill ", len));
                auto [words, fresh] = st.fill_to_word_length(len);
                auto& osg = ctx.operator_sequence_generator(len);
                c.check(words == osg.size(), "words in fill");
                size_t count = 0;
                for (auto& q : osg) {
                    auto w = ops_of(q);
                    auto where = st.where(q);
                    c.checkf(where.found(), [&] { return "after filling, " + text(w) + " is not found"; });
                    auto k = s.key(w);
                    if (!m.id.count(k)) {
                        c.check(where->Id() >= static_cast<symbol_name_t>(expected) && !m.key.count(where->Id()), "fill gave " + text(w) + " a symbol already in use");
                        m.id[k] = where->Id();
                        m.key[where->Id()] = k;
                        ++count;
                    } else c.check(m.id[k] == where->Id(), "fill changed the symbol of " + text(w));
                    m.asked.insert(w);
                    if (k != w) distinct = true;
                }
                expected += count;
                c.check(fresh == count, pbt::str("fill reports ", fresh, " new symbols, there are ", count));
                // the map from positions in the list
                st.OSGIndex.update_if_necessary(len);
                for (size_t j = 0; j < osg.size(); ++j) {
                    auto [id, cj] = st.OSGIndex(j);
                    auto w = ops_of(osg[j]);
                    c.checkf(id == m.id[s.key(w)], [&] { return pbt::str("word number ", j, " ") + text(w) + pbt::str(" is mapped to symbol ", id); });
                    auto& sym = st[static_cast<size_t>(id)];
                    c.checkf(s.orbit(w).count(from_seq(cj ? sym.sequence_conj() : sym.sequence()).ops) > 0, [&] { return pbt::str("word number ", j, " ") + text(w) + pbt::str(": wrong conjugation of symbol ", id); });
                }
                break;
            }
            case 6: {
                bool re = c.coin(), im = c.coin();
                size_t k = static_cast<size_t>(c.range(1, 3));
                c.note(pbt::str("create ", k, re ? " re" : "", im ? " im" : ""));
                auto id = k == 1 && c.coin() ? st.create(re, im) : st.create(k, re, im);
                if (st.size() == expected + 1) k = 1;
                c.check(id == static_cast<symbol_name_t>(expected), "number of a created symbol");
                for (size_t j = 0; j < k; ++j) {
                    auto& sym = st[expected + j];
                    c.check(!sym.has_sequence() && sym.is_hermitian() == !im && sym.is_antihermitian() == !re, "created symbol");
                }
                expected += k;
                break;
            }
            default: {
                auto w = s.word(c, 6);
                int sign = static_cast<int>(c.below(4));
                c.note("look up " + text(w));
                lookup(c, s, st, m, w, sign);
                break;
            }
        }
        c.check(st.size() == expected, pbt::str("table has ", st.size(), " symbols, expected ", expected));
    }
    c.nontrivial(again && distinct);
    all(c, s, st, m);
}

LAW(realness, "some symbol becomes real or imaginary which was complex", 30000, 900000) {
    Context ctx{2};
    SymbolTable st{ctx};
    struct Part { bool re, im; };
    std::vector<Part> want{{false, false}, {true, false}};
    auto steps = static_cast<size_t>(c.range(1, 6));
    for (size_t i = 0; i < steps; ++i) {
        if (c.chance(40)) {
            bool re = c.chance(80), im = c.chance(80);
            if (!re && !im) re = true;
            auto k = static_cast<size_t>(c.range(1, 4));
            st.create(k, re, im);
            for (size_t j = 0; j < k; ++j) want.push_back({re, im});
            c.note(pbt::str("create ", k, re, im));
            continue;
        }
        size_t size = want.size() + c.below(4);
        DynamicBitset<uint64_t> re{size, true}, im{size, true};
        c.note(pbt::str("restrict to size ", size));
        auto next = want;
        next.resize(size, Part{true, true});
        bool changed = false, zero = false;
        for (size_t k = 1; k < size; ++k) {
            int r = static_cast<int>(c.below(8));
            // most restrictions must be possible
            if (r == 1 && (next[k].im || c.chance(2))) { re.unset(k); c.note(pbt::str(k, " imaginary")); if (next[k].re && k < want.size()) changed = true; next[k].re = false; }
            if (r == 2 && (next[k].re || c.chance(2))) { im.unset(k); c.note(pbt::str(k, " real")); if (next[k].im && k < want.size()) changed = true; next[k].im = false; }
            if (!next[k].re && !next[k].im) zero = true;
        }
        bool thrown = false, got = false;
        try { got = st.merge_in(re, im); } catch (const Moment::errors::zero_symbol&) { thrown = true; }
        c.check(thrown == zero, zero ? "a symbol without any part is accepted" : "refused, though every symbol keeps a part");
        if (thrown) { c.label("refused"); return; }
        want = next;
        if (changed) { c.nontrivial(); c.check(got, "change of a symbol is not reported"); }
        c.check(st.size() == want.size(), pbt::str("table has ", st.size(), " symbols, expected ", want.size()));
        for (size_t k = 0; k < want.size(); ++k) {
            auto [r, m] = st[k].basis_key();
            c.checkf((r >= 0) == want[k].re && (m >= 0) == want[k].im, [&] { return pbt::str("symbol ", k, ": real index ", r, ", imaginary index ", m); });
        }
        basis(c, st);
    }
}

RACY_LAW(concurrent_index, "two threads or more extend the index of a list of five words or more", 3000, 60000) {
    SceneOptions o;
    o.max_ops = 4;
    auto s = gen_scene(c, o);
    c.note(s.name);
    SymbolTable st{s.context()};
    size_t most = 1;
    while (most < 5 && most < s.max_len && s.context().operator_sequence_generator(most + 1).size() <= 150) ++most;
    (void) st.fill_to_word_length(most);
    const auto threads = static_cast<size_t>(c.range(2, 4));
    std::vector<std::vector<size_t>> ask(threads);
    for (size_t t = 0; t < threads; ++t) { if (t && c.coin()) ask[t] = ask[0]; else for (size_t k = c.range(1, 3); k > 0; --k) ask[t].push_back(c.below(most + 1)); c.note(pbt::str("thread ", t, ":", pbt::join(ask[t]))); }
    std::vector<std::string> error(threads);
    std::vector<std::vector<std::vector<std::pair<symbol_name_t, bool>>>> seen(threads);
    std::barrier start{static_cast<ptrdiff_t>(threads)};
    {
        std::vector<std::jthread> pool;
        for (size_t t = 0; t < threads; ++t) pool.emplace_back([&, t] {
            start.arrive_and_wait();
            try {
                for (auto len : ask[t]) {
                    (void) st.OSGIndex.update_if_necessary(len);
                    if (st.OSGIndex.max_length() < len) error[t] = "index is shorter than was asked for";
                    auto& osg = s.context().operator_sequence_generator(len);
                    auto& list = seen[t].emplace_back();
                    for (size_t j = 0; j < osg.size(); ++j) list.push_back(st.OSGIndex(j));
                }
            } catch (const std::exception& e) { error[t] = e.what(); }
        });
    }
    for (auto& e : error) c.check(e.empty(), "a thread failed: " + e);
    size_t longest = 0;
    for (size_t t = 0; t < threads; ++t) for (size_t k = 0; k < ask[t].size(); ++k) {
        longest = std::max(longest, ask[t][k]);
        auto& osg = s.context().operator_sequence_generator(ask[t][k]);
        for (size_t j = 0; j < osg.size(); ++j) {
            auto where = st.where(osg[j]);
            c.checkf(where.found() && seen[t][k][j] == std::pair<symbol_name_t, bool>{where->Id(), where.is_conjugated && where->Id() != 0}, [&] { return pbt::str("thread ", t, ": word number ", j, " of length ", ask[t][k], " is symbol ", seen[t][k][j].first, seen[t][k][j].second ? "*" : ""); });
        }
    }
    auto& all_words = s.context().operator_sequence_generator(longest);
    bool beyond = false;
    try { (void) st.OSGIndex(all_words.size()); } catch (const std::range_error&) { beyond = true; }
    c.check(beyond, "index goes beyond the words asked for");
    c.nontrivial(all_words.size() >= 5 && std::count_if(ask.begin(), ask.end(), [](auto& a) { return *std::max_element(a.begin(), a.end()) > 0; }) > 1);
}
