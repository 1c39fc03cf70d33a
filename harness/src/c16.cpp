// C16: extended matrices, the factor table as it grows, suggested extensions, and rulebooks carried over to products.
#include "../pbt.h"
#include "../matrix_check.h"
#include "../linear.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/extended_matrix_indices.h"
#include "scenarios/inflation/extension_suggester.h"
#include "symbolic/rules/moment_rulebook.h"
#include "scenarios/context.h"

using namespace Moment;
using namespace model;
using Moment::Inflation::InflationMatrixSystem;
using Moment::Inflation::ExtendedMatrix;
using Moment::Inflation::ExtendedMatrixIndex;
using Moment::Inflation::FactorTable;

namespace {
    using Factors = std::vector<symbol_name_t>;
    Scene gen(pbt::Case& c, int max_ops, int max_level = 3) {
        SceneOptions o;
        o.kinds = {INFL};
        o.system = true;
        o.max_ops = max_ops;
        o.max_level = max_level;
        o.tolerance = 1e6;
        Scene s = gen_scene(c, o);
        c.note(s.name);
        return s;
    }
    InflationMatrixSystem& sys(Scene& s) { return dynamic_cast<InflationMatrixSystem&>(*s.system); }

    /** A value for every word that is a product over its independent parts. */
    double word_value(const Scene& s, const Word& w) {
        if (w.zero) return 0.0;
        double v = 1.0;
        if (!w.ops.empty()) for (auto& k : s.net->components(w.ops)) v *= s.value(Word{false, 0, k}).real();
        return v;
    }
    std::vector<cd> values(Scene& s) {
        auto& st = sys(s).Symbols();
        auto& ft = sys(s).Factors();
        std::vector<cd> v;
        for (size_t i = 0; i < st.size(); ++i) {
            auto& q = st[static_cast<symbol_name_t>(i)];
            if (q.has_sequence()) { v.emplace_back(word_value(s, from_seq(q.sequence()))); continue; }
            cd x = 1.0;
            for (auto f : ft[i].canonical.symbols) x *= word_value(s, from_seq(st[f].sequence()));
            v.push_back(x);
        }
        return v;
    }
    Factors merged(const FactorTable& ft, symbol_name_t a, symbol_name_t b) {
        if (a == 0 || b == 0) return {0};
        Factors f;
        for (auto s : {a, b}) if (s > 1) { auto& l = ft[static_cast<size_t>(s)].canonical.symbols; f.insert(f.end(), l.begin(), l.end()); }
        std::sort(f.begin(), f.end());
        if (f.empty()) return {1};
        return f;
    }

    /** The table against the words of the symbols; product symbols against `products`, what they were created for. */
    void audit(pbt::Case& c, Scene& s, const std::map<symbol_name_t, Factors>& products, const std::string& when) {
        auto& m = sys(s);
        auto lock = m.get_read_lock();
        auto& st = m.Symbols();
        auto& ft = m.Factors();
        c.check(ft.size() == st.size(), when + pbt::str(": ", ft.size(), " entries for ", st.size(), " symbols"));
        std::vector<size_t> uses(st.size(), 0);
        std::map<Factors, symbol_name_t> nameless;
        for (size_t id = 0; id < st.size(); ++id) {
            auto& e = ft[id];
            auto& q = st[static_cast<symbol_name_t>(id)];
            std::string name = when + pbt::str(": #", id);
            c.check(e.id == static_cast<symbol_name_t>(id) && q.Id() == e.id, name + ": number of entry");
            auto& fs = e.canonical.symbols;
            c.check(std::is_sorted(fs.begin(), fs.end()) && fs.size() == e.canonical.sequences.size(), name + ": factors unsorted, or without sequences");
            if (id <= 1) { c.check(fs == Factors{static_cast<symbol_name_t>(id)}, name + ": factors of a number"); continue; }
            c.check(!fs.empty(), name + ": no factors");
            std::multiset<Ops> words;
            for (size_t k = 0; k < fs.size(); ++k) {
                auto f = fs[k];
                c.check(f > 1 && f < static_cast<symbol_name_t>(st.size()), name + ": bad factor");
                c.check(ft[static_cast<size_t>(f)].canonical.symbols == Factors{f}, name + pbt::str(": factor #", f, " is a product"));
                c.check(st[f].has_sequence(), name + ": factor without a word");
                words.insert(s.moment_class(from_seq(st[f].sequence()).ops));
                if (fs.size() > 1) ++uses[static_cast<size_t>(f)];
            }
            std::multiset<Ops> listed;
            for (auto& x : e.canonical.sequences) listed.insert(s.moment_class(from_seq(x).ops));
            c.check(words == listed, name + ": sequences are not those of the factors");
            c.check(e.fundamental() == (fs.size() == 1), name + ": fundamental");
            if (q.has_sequence()) {
                std::multiset<Ops> want;
                for (auto& k : s.net->components(from_seq(q.sequence()).ops)) want.insert(s.moment_class(k));
                c.check(want == words, name + ": factors are not the parts of its word");
                c.check(!products.count(e.id), name + ": became a word");
            } else {
                c.check(q.is_hermitian() && !q.is_antihermitian(), name + ": product of real moments is not real");
                c.check(nameless.emplace(fs, e.id).second, name + ": another symbol for the same product");
                auto it = products.find(e.id);
                if (it != products.end()) c.check(it->second == fs, name + ": factors changed");
            }
            auto back = ft.find_index_by_factors(fs);
            c.check(back.has_value() && *back >= 0 && static_cast<size_t>(*back) < ft.size(), name + ": not found by its factors");
            c.check(ft[static_cast<size_t>(*back)].canonical.symbols == fs, name + pbt::str(": its factors find #", *back));
        }
        for (size_t id = 2; id < st.size(); ++id) c.check(ft[id].appearances == uses[id], when + pbt::str(": #", id, " appears ", ft[id].appearances, " times, expected ", uses[id]));
    }

    struct History {
        std::map<symbol_name_t, Factors> products;
        std::vector<std::pair<const SymbolicMatrix*, std::vector<cd>>> made;   // matrices and what their entries were worth
        void remember(Scene& s, const SymbolicMatrix& m) {
            auto v = values(s);
            std::vector<cd> w;
            for (size_t j = 0; j < m.Dimension(); ++j) for (size_t i = 0; i < m.Dimension(); ++i) w.push_back(entry(m, i, j, v));
            made.emplace_back(&m, std::move(w));
        }
        void recheck(pbt::Case& c, Scene& s) {
            auto v = values(s);
            for (auto& [m, w] : made) for (size_t j = 0; j < m->Dimension(); ++j) for (size_t i = 0; i < m->Dimension(); ++i)
                c.check(pbt::close(entry(*m, i, j, v), w[j * m->Dimension() + i]), "an earlier matrix changed");
        }
    };

    size_t gen_level(pbt::Case& c, const Scene& s) {
        size_t most = s.n > 8 ? 1 : s.n > 4 ? 2 : 3;
        return static_cast<size_t>(c.range(0, static_cast<int>(most)));
    }
    Factors gen_extensions(pbt::Case& c, Scene& s, size_t most) {
        auto& st = sys(s).Symbols();
        Factors e;
        for (auto k = c.below(most + 1); k > 0; --k) e.push_back(static_cast<symbol_name_t>(c.chance(85) && st.size() > 2 ? 2 + c.below(st.size() - 2) : c.below(st.size())));
        return e;
    }

    const ExtendedMatrix& extend(pbt::Case& c, Scene& s, History& h, size_t level, const Factors& ext) {
        auto& m = sys(s);
        // find the extended matrix again, or make it
        std::vector<cd> before;
        auto policy = c.chance(40) ? Multithreading::MultiThreadPolicy::Always : Multithreading::MultiThreadPolicy::Never;
        size_t how = c.below(3);
        std::string what = pbt::str("level ", level, " extended by ") + pbt::join(ext);
        c.note(what + (policy == Multithreading::MultiThreadPolicy::Always ? " (threads)" : ""));
        bool known = m.ExtendedMatrices.contains(ExtendedMatrixIndex{level, std::span<const symbol_name_t>(ext)});
        size_t size_before = m.size(), symbols_before = m.Symbols().size();
        bool had_mm = m.MomentMatrix.contains(level);
        auto make = [&]() -> std::pair<ptrdiff_t, ExtendedMatrix&> {
            if (how == 0) return m.ExtendedMatrices.create(ExtendedMatrixIndex{level, std::span<const symbol_name_t>(ext)}, policy);
            ExtendedMatrixIndex idx{level, std::vector<symbol_name_t>(ext)};
            if (how == 1) return m.ExtendedMatrices.create(idx, policy);
            ExtendedMatrixIndex copy{idx};
            ExtendedMatrixIndex other{7, std::vector<symbol_name_t>{}};
            other = copy;
            c.check(other.stores_list() && other.extension_list.data() != copy.extension_list.data() + (ext.empty() ? 1 : 0), "copy of an index");
            return m.ExtendedMatrices.create(other, policy);
        };
        auto [where, em] = make();
        c.check(m.size() == size_before + (known ? 0 : 1) + (had_mm ? 0 : 1), what + ": number of matrices");
        if (known) c.check(m.Symbols().size() == symbols_before, what + ": new symbols for a known matrix");
        c.check(&m[where] == &em, what + ": index");
        c.check(m.ExtendedMatrices.find_index(ExtendedMatrixIndex{level, std::span<const symbol_name_t>(ext)}) == where, what + ": not found again");
        auto& mm = m.MomentMatrix(level);
        const size_t d = mm.Dimension(), D = d + ext.size();
        c.check(em.OriginalDimension == d && em.Dimension() == D, what + ": dimensions");
        auto lock = m.get_read_lock();
        auto& st = m.Symbols();
        auto& ft = m.Factors();
        auto& src = dynamic_cast<const MonomialMatrix&>(mm).SymbolMatrix;
        auto& out = em.SymbolMatrix;
        std::vector<symbol_name_t> axis;
        for (size_t i = 0; i < d; ++i) { c.check(src(i, 0).factor == 1.0 && !src(i, 0).conjugated, "first column"); axis.push_back(src(i, 0).id); }
        axis.insert(axis.end(), ext.begin(), ext.end());
        auto v = values(s);
        std::vector<cd> want(D * D);
        for (size_t j = 0; j < D; ++j) for (size_t i = 0; i < D; ++i) {
            if (i < d && j < d) {
                c.check(out(i, j) == src(i, j), what + pbt::str(": entry (", i, ",", j, ") of the moment matrix changed"));
                want[j * D + i] = eval(src(i, j), v);
                continue;
            }
            want[j * D + i] = v[static_cast<size_t>(axis[i])] * v[static_cast<size_t>(axis[j])];
            auto& x = out(i, j);
            c.check(x.factor == 1.0 && !x.conjugated && x.id >= 0 && static_cast<size_t>(x.id) < st.size(), what + pbt::str(": entry (", i, ",", j, ")"));
            auto f = merged(ft, axis[i], axis[j]);
            c.checkf(ft[static_cast<size_t>(x.id)].canonical.symbols == f, [&] { return what + pbt::str(": entry (", i, ",", j, ") is #", x.id, " = ") + pbt::join(ft[static_cast<size_t>(x.id)].canonical.symbols) + " expected " + pbt::join(f); });
            if (!known) c.check(ft.find_index_by_factors(f) == x.id, what + ": a different symbol is found for the same factors");
            auto prod = ft.try_multiply(axis[i], axis[j]);
            c.check(prod >= 0 && ft[static_cast<size_t>(prod)].canonical.symbols == f, what + ": product of row and column");
            if (f.size() > 1) c.nontrivial();
            if (!st[x.id].has_sequence()) h.products.emplace(x.id, f);
        }
        check_matrix(c, em, st, v, want, what);
        c.check(em.Hermitian(), what + ": not Hermitian");
        for (auto e : ext) c.check(em.Description().find(pbt::str("S", e)) != std::string::npos, what + ": " + em.Description());
        c.check(em.Description().find(pbt::str("Level ", level)) != std::string::npos, what + ": " + em.Description());
        return em;
    }
}

LAW(extended, "an entry is a product of several factors", 1000, 30000) {
    Scene s = gen(c, 8);
    auto& m = sys(s);
    History h;
    audit(c, s, h.products, "at first");
    int steps = static_cast<int>(c.range(1, 5));
    for (int k = 0; k < steps; ++k) {
        size_t what = c.below(10);
        if (what < 6) {
            size_t lv = gen_level(c, s);
            auto& em = extend(c, s, h, lv, gen_extensions(c, s, 4));
            h.remember(s, em);
        } else if (what == 6) {
            size_t lv = gen_level(c, s);
            c.note(pbt::str("moment matrix ", lv));
            h.remember(s, m.MomentMatrix(lv));
        } else if (what == 7) {
            auto w = s.normal_word(c, 2);
            c.note("localizing matrix of " + text(Word{false, 0, w}));
            h.remember(s, m.LocalizingMatrix(LocalizingMatrixIndex{c.below(2), to_seq(m.Context(), w)}));
        } else if (what == 8) {
            size_t len = 1 + c.below(s.n > 6 ? 2 : 3);
            c.note(pbt::str("dictionary ", len));
            m.generate_dictionary(len);
        } else {
            auto bad = c.coin() ? static_cast<symbol_name_t>(m.Symbols().size() + 1000 + c.below(9)) : static_cast<symbol_name_t>(-1 - static_cast<int>(c.below(5)));
            Factors ext = gen_extensions(c, s, 2);
            ext.insert(ext.begin() + static_cast<ptrdiff_t>(c.below(ext.size() + 1)), bad);
            size_t lv = gen_level(c, s);
            m.MomentMatrix(lv);
            size_t before = m.Symbols().size(), count = m.size();
            bool refused = false;
            try { (void) m.ExtendedMatrices.create(ExtendedMatrixIndex{lv, std::span<const symbol_name_t>(ext)}, c.coin() ? Multithreading::MultiThreadPolicy::Always : Multithreading::MultiThreadPolicy::Never); }
            catch (const std::logic_error&) { refused = true; }
            c.check(refused, "extension by a symbol which does not exist");
            c.check(m.Symbols().size() == before && m.size() == count && !m.ExtendedMatrices.contains(ExtendedMatrixIndex{lv, std::span<const symbol_name_t>(ext)}), "traces of a refused matrix");
        }
        audit(c, s, h.products, pbt::str("after step ", k));
        h.recheck(c, s);
    }
}

LAW(suggestion, "something is suggested", 800, 25000) {
    Scene s = gen(c, 8);
    auto& m = sys(s);
    History h;
    for (auto k = c.below(3); k > 0; --k) {
        if (c.coin()) extend(c, s, h, gen_level(c, s), gen_extensions(c, s, 3));
        else m.MomentMatrix(gen_level(c, s));
    }
    size_t level = gen_level(c, s);
    auto& mm = dynamic_cast<const MonomialMatrix&>(m.MomentMatrix(level));
    size_t symbols_before = m.Symbols().size();
    auto ext = m.suggest_extensions(mm);
    c.check(m.Symbols().size() == symbols_before, "suggestion changed the symbols");
    auto& ft = m.Factors();
    auto& src = mm.SymbolMatrix;
    std::set<symbol_name_t> factors;
    std::set<symbol_name_t> composite;
    for (auto id : mm.IncludedSymbols()) if (!ft[static_cast<size_t>(id)].fundamental()) {
        composite.insert(id);
        factors.insert(ft[static_cast<size_t>(id)].canonical.symbols.begin(), ft[static_cast<size_t>(id)].canonical.symbols.end());
    }
    auto covers = [&](symbol_name_t e) {
        std::set<symbol_name_t> r;
        for (size_t i = 0; i < mm.Dimension(); ++i) {
            auto f = merged(ft, src(i, 0).id, e);
            for (auto x : composite) if (ft[static_cast<size_t>(x)].canonical.symbols == f) r.insert(x);
        }
        return r;
    };
    std::set<symbol_name_t> reached, reachable;
    for (auto e : ext) {
        c.check(factors.count(e), pbt::str("suggested #", e, " is no factor of an entry"));
        auto r = covers(e);
        c.check(!r.empty(), pbt::str("suggested #", e, " is of no use"));
        reached.insert(r.begin(), r.end());
    }
    if (!ext.empty()) c.nontrivial();
    if (factors.size() <= 100) {
        for (auto e : factors) { auto r = covers(e); reachable.insert(r.begin(), r.end()); }
        c.check(reached == reachable, pbt::str("level ", level, ": suggested ") + pbt::join(std::vector<symbol_name_t>(ext.begin(), ext.end())) + " reach " + pbt::join(std::vector<symbol_name_t>(reached.begin(), reached.end())) + " of " + pbt::join(std::vector<symbol_name_t>(reachable.begin(), reachable.end())));
    }
    if (ext.size() <= 8) {
        std::vector<symbol_name_t> list(ext.begin(), ext.end());
        auto& em = extend(c, s, h, level, list);
        bool same = m.ExtendedMatrices.find_index(ExtendedMatrixIndex{level, ext}) == m.ExtendedMatrices.find_index(ExtendedMatrixIndex{level, std::span<const symbol_name_t>(list)});
        c.check(same, "index by set");
        std::multiset<Factors> found;
        for (size_t i = 0; i < em.OriginalDimension; ++i) for (size_t j = em.OriginalDimension; j < em.Dimension(); ++j)
            found.insert(ft[static_cast<size_t>(em.SymbolMatrix(i, j).id)].canonical.symbols);
        for (auto x : reachable) c.check(factors.size() > 100 || found.count(ft[static_cast<size_t>(x)].canonical.symbols), pbt::str("#", x, " is not in the extended part"));
        audit(c, s, h.products, "after extension");
    }
}

LAW(rules_on_products, "a rule was carried over to a product", 1500, 50000) {
    Scene s = gen(c, 6);
    auto& m = sys(s);
    History h;
    auto grow = [&] {
        if (c.chance(40)) extend(c, s, h, gen_level(c, s), gen_extensions(c, s, 3));
        else { size_t lv = gen_level(c, s); c.note(pbt::str("moment matrix ", lv)); m.MomentMatrix(lv); }
    };
    grow();
    auto& st = m.Symbols();
    auto& ft = m.Factors();
    std::vector<symbol_name_t> fundamental;
    for (size_t i = 2; i < ft.size(); ++i) if (ft[i].fundamental()) fundamental.push_back(static_cast<symbol_name_t>(i));
    if (fundamental.empty()) throw pbt::Discard{};
    // rules which hold for the values of the moments
    auto v = values(s);
    bool updates = c.chance(80);
    auto make_rules = [&](MomentRulebook& rb, size_t most) {
        for (size_t k = 1 + c.below(most); k > 0; --k) {
            auto id = fundamental[c.below(fundamental.size())];
            Polynomial::storage_t p{Monomial{id, 1.0, false}};
            double rest = v[static_cast<size_t>(id)].real();
            if (c.chance(50)) {
                auto o = c.chance(75) ? fundamental[c.below(fundamental.size())] : static_cast<symbol_name_t>(2 + c.below(st.size() - 2));
                double a = c.chance(40) ? v[static_cast<size_t>(id)].real() / v[static_cast<size_t>(o)].real() : static_cast<double>(c.range(1, 3));
                p.emplace_back(o, -a, false);
                rest -= a * v[static_cast<size_t>(o)].real();
            }
            if (std::abs(rest) > 1e-9) p.emplace_back(1, -rest, false);
            Polynomial poly = m.polynomial_factory()(std::move(p));
            if (poly.empty()) continue;
            c.note("rule: " + show(poly));
            rb.add_raw_rule(std::move(poly));
        }
    };
    // what a product must reduce to; nothing if that involves an unrecorded product
    struct Snapshot { std::map<symbol_name_t, Polynomial> to; std::set<symbol_name_t> ruled; };   // what single symbols were reduced to
    auto snap = [&](const MomentRulebook& rb) {
        Snapshot r;
        for (size_t i = 2; i < ft.size(); ++i) { auto id = static_cast<symbol_name_t>(i); r.to[id] = rb.reduce(Monomial{id}); if (rb.find(id) != rb.end()) r.ruled.insert(id); }
        return r;
    };
    auto expect = [&](const Snapshot& rb, const Factors& f) -> std::optional<Polynomial> {
        std::vector<std::pair<Factors, cd>> terms{{{}, 1.0}};
        for (auto x : f) {
            std::vector<std::pair<Factors, cd>> next;
            auto it = rb.to.find(x);
            Polynomial r = it != rb.to.end() ? it->second : Polynomial{Monomial{x}};
            for (auto& t : terms) for (auto& mono : r) {
                auto l = t.first;
                if (mono.conjugated) return std::nullopt;
                if (mono.id > 1) { auto& y = ft[static_cast<size_t>(mono.id)].canonical.symbols; l.insert(l.end(), y.begin(), y.end()); }
                next.emplace_back(std::move(l), t.second * mono.factor);
            }
            terms = std::move(next);
        }
        Polynomial::storage_t out;
        for (auto& [l, k] : terms) {
            std::sort(l.begin(), l.end());
            symbol_name_t id = 1;
            if (!l.empty()) { auto x = ft.find_index_by_factors(l); if (!x) return std::nullopt; id = *x; }
            out.emplace_back(id, k, false);
        }
        return m.polynomial_factory()(std::move(out));
    };
    auto ruled = [](const Snapshot& before, const Factors& f) { return std::any_of(f.begin(), f.end(), [&](auto x) { return before.ruled.count(x) > 0; }); };
    auto inspect = [&](const MomentRulebook& rb, const Snapshot& before, size_t from, const std::string& when, bool complete) {
        auto vals = values(s);
        for (auto& [id, rule] : rb) {
            auto zero = rule.as_polynomial(m.polynomial_factory());
            c.checkf(pbt::close(eval(zero, vals), cd{0.0}), [&] { return when + ": false rule for #" + std::to_string(id) + ": " + show(zero) + " = 0"; });
        }
        if (!complete) return;
        for (size_t id = from; id < ft.size(); ++id) {
            auto& f = ft[id].canonical.symbols;
            if (f.size() < 2 || !ruled(before, f)) continue;
            auto want = expect(before, f);
            if (!want) continue;
            c.nontrivial();
            auto got = rb.reduce(Monomial{static_cast<symbol_name_t>(id)});
            auto a = rb.reduce(*want);
            auto diff = m.polynomial_factory()(Polynomial::storage_t{});
            diff = got;
            m.polynomial_factory().append(diff, a * cd{-1.0});
            bool zero = true;
            for (auto& x : diff) if (std::abs(x.factor) > 1e-7) zero = false;
            c.checkf(zero, [&] { return when + pbt::str(": #", id, " (= ") + pbt::join(f) + ") reduces to " + show(got) + ", expected " + show(a); });
        }
    };
    auto book = std::make_unique<MomentRulebook>(m, updates);
    make_rules(*book, 3);
    book->complete();
    if (book->empty() && c.chance(80)) throw pbt::Discard{};
    Snapshot before = snap(*book);
    auto all_known = [&](const Snapshot& before, size_t from) {
        for (size_t id = from; id < ft.size(); ++id) { auto& f = ft[id].canonical.symbols; if (f.size() > 1 && ruled(before, f) && !expect(before, f)) return false; }
        return true;
    };
    bool known = all_known(before, 2);
    size_t books = m.Rulebook.size();
    size_t rules_before = book->size();
    MomentRulebook* rb = nullptr;
    try { rb = &m.Rulebook.add(std::move(book)).second; }
    catch (const Moment::Inflation::errors::unknown_symbol& e) {
        c.check(updates && !known, std::string("all products are recorded, yet: ") + e.what());
        c.check(m.Rulebook.size() == books, "a refused rulebook is kept");
        return;
    }
    c.check(m.Rulebook.size() == books + 1, "number of rulebooks");
    if (!updates) c.check(rb->size() == rules_before, "rules added to a fixed rulebook");
    inspect(*rb, before, 2, "after adding", updates);
    // once matrices were made with the rules, only the system may add to them
    auto locked = [&] {
        (void) m.SubstitutedMatrix(SubstitutedMatrixIndex{0, m.Rulebook.size() - 1});
        bool refused = false;
        try { rb->add_raw_rule(Polynomial{Monomial{1}, Monomial{fundamental[0], -1.0}}); } catch (const std::logic_error&) { refused = true; }
        c.check(refused, "rules can be added to a rulebook in use");
    };
    bool used = false;
    if (c.chance(20)) { c.note("used"); locked(); used = true; }
    for (auto k = c.below(3); k > 0; --k) {
        size_t from = st.size();
        before = snap(*rb);
        try {
            if (!used && c.chance(25)) {
                MomentRulebook more{m, true}, both{m, true};
                v = values(s);
                make_rules(more, 2);
                c.note("merge");
                more.complete();
                for (auto* b : {rb, &more}) for (auto& [id, rule] : *b) both.add_raw_rule(rule.as_polynomial(m.polynomial_factory()));
                both.complete();
                from = 2;
                before = snap(both);
                m.Rulebook.merge_in(m.Rulebook.size() - 1, std::move(more));
            } else grow();
        } catch (const Moment::Inflation::errors::unknown_symbol& e) {
            std::string list;
            for (size_t id = 2; id < ft.size(); ++id) list += pbt::str(" #", id, "=") + pbt::join(ft[id].canonical.symbols);
            c.check(updates && !all_known(before, from), std::string("all products are recorded, yet: ") + e.what() + pbt::str(" from ", from, " : ") + list);
            locked();
            return;
        }
        audit(c, s, h.products, "after growing");
        inspect(*rb, before, from, "after growing", updates);
    }
}

