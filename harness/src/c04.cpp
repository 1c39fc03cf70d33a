// C04: inflation scenarios.
#include "models.h"
#include "poly_gen.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/inflation_collins_gisin.h"
#include "scenarios/inflation/inflation_probability_tensor.h"
#include "scenarios/inflation/inflation_full_correlator.h"
#include "scenarios/inflation/extension_suggester.h"
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/dictionary.h"
#include "symbolic/symbol_table.h"
using namespace Moment;
using namespace Moment::Inflation;
using namespace model;


LAW(words, "some word is rewritten or annihilated", 60000, 3000000) {
    auto m = gen_inflation(c, 4, 4, 3, 60, 4);
    c.note(m.text());
    auto ctx = m.make();
    c.check(ctx->size() == static_cast<size_t>(m.n), pbt::str("operator count ", ctx->size(), ", expected ", m.n));
    if (m.n == 0) { c.check(to_seq(*ctx, {}) == ctx->identity(), "identity"); return; }
    size_t len = std::min<size_t>(10, max_hashable(m.n) / 2);
    auto a = gen_word(c, m.n, len), b = gen_word(c, m.n, len);
    // repeats and clashes are rare among many operators: borrow from a
    for (auto& o : b) if (!a.empty() && c.chance(40)) o = c.pick(a);
    int sa = c.chance(20) ? 2 : 0, sb = c.chance(20) ? 2 : 0;
    c.note("a=" + text(a) + " b=" + text(b));
    auto A = to_seq(*ctx, a, sa), B = to_seq(*ctx, b, sb);
    auto wa = m.normal(a, sa), wb = m.normal(b, sb);
    auto radix = static_cast<uint64_t>(m.n);
    c.nontrivial(wa.ops != a || m.mul(wa, wb).zero);
    same(c, A, wa, radix, "a");
    same(c, A * B, m.mul(wa, wb), radix, "ab");
    same(c, B * A, m.mul(wa, wb), radix, "ba");
    same(c, A.conjugate(), wa, radix, "a*");
    same(c, -A, wa.zero ? wa : Word{false, (sa + 2) & 3, wa.ops}, radix, "-a");
    auto gic = ctx->get_if_canonical(store(a));
    auto plain = m.normal(a);
    c.check(gic.has_value() == (!plain.zero && plain.ops == a), "get_if_canonical(" + text(a) + ")");
    if (gic) same(c, *gic, plain, radix, "get_if_canonical");
    std::vector<int> sh = a;
    c.shuffle(sh);
    c.check(to_seq(*ctx, sh, sa) == A, "reordered word differs");
}

LAW(numbering, "two or more variants", 20000, 500000) {
    auto m = gen_inflation(c, 4, 4, 4, 120, 5);
    c.note(m.text());
    auto ctx = m.make();
    c.check(ctx->Observables().size() == m.outcomes.size(), "observable count");
    size_t global = 0;
    for (size_t o = 0; o < m.outcomes.size(); ++o) {
        auto& ob = ctx->Observables()[o];
        c.check(ob.variants.size() == m.first_op[o].size(), "variant count");
        c.nontrivial(m.first_op[o].size() > 1);
        c.check(ob.outcomes == static_cast<size_t>(m.outcomes[o]), "outcome count");
        c.check(ob.projective() == (m.outcomes[o] != 0), "projective");
        for (size_t v = 0; v < m.first_op[o].size(); ++v) {
            auto gv = ctx->obs_variant_to_index(static_cast<oper_name_t>(o), static_cast<oper_name_t>(v));
            c.check(gv == static_cast<oper_name_t>(global), "global variant number");
            auto back = ctx->index_to_obs_variant(gv);
            c.check(back.observable == static_cast<oper_name_t>(o) && back.variant == static_cast<oper_name_t>(v), "variant number does not come back");
            ++global;
            int count = m.outcomes[o] == 0 ? 1 : m.outcomes[o] - 1;
            for (int x = 0; x < count; ++x) {
                int op = m.first_op[o][v] + x;
                c.check(ctx->operator_number(static_cast<oper_name_t>(o), static_cast<oper_name_t>(v), static_cast<oper_name_t>(x)) == op, "operator number");
                std::set<int> t = m.touches(op);
                size_t got = 0;
                auto conn = ctx->connected_sources(static_cast<oper_name_t>(op));
                for (size_t s : conn) {
                    ++got;
                    if (s < static_cast<size_t>(m.num_sources * m.level)) c.check(t.count(static_cast<int>(s)) > 0, "source not connected");
                    else c.check(m.sources[o].empty(), "implicit source of an observable which has sources");
                }
                c.check(got == t.size(), "number of connected sources");
            }
            if (!m.sources[o].empty()) {
                auto& variant = ob.variants[v];
                for (size_t k = 0; k < m.sources[o].size(); ++k) c.check(variant.indices[k] == (count ? m.op(m.first_op[o][v]).copies[k] : variant.indices[k]), "copy index");
                c.check(&ob.variant(variant.indices) == &variant, "variant by copy indices");
            }
        }
    }
    c.check(ctx->observable_variant_count() == global, "variants in total");
    // words and the copies of sources they use; a copy relabelled
    auto net = m.network();
    auto level = static_cast<size_t>(m.level);
    size_t explicit_sources = 0;
    for (int k = 0; k < m.num_sources; ++k) explicit_sources += 1;
    c.check(net.explicit_source_count() == explicit_sources, "explicit sources");
    auto total = net.total_source_count(level);
    c.check(total == ctx->source_variant_count(), "copies of sources");
    for (size_t g = 0; g < total; ++g) {
        auto [src, copy] = net.global_source_to_source_variant(level, g);
        c.check(src < net.Sources().size() && copy < level && net.source_variant_to_global_source(level, src, copy) == g, pbt::str("copy ", g, " is said to be ", copy, " of source ", src));
        if (g < explicit_sources * level) c.check(src == g / level && copy == g % level, "number of a copy");
    }
    {
        Ops w;
        for (size_t k = 0, kk = c.below(5); k < kk && m.n > 0; ++k) w.push_back(static_cast<int>(c.below(static_cast<uint64_t>(m.n))));
        auto nw = m.normal(w);
        std::set<size_t> got, want_set;
        if (!nw.zero) {
            for (auto x : ctx->connected_sources(to_seq(*ctx, w))) got.insert(x);
            for (auto o : nw.ops) for (auto x : ctx->connected_sources(static_cast<oper_name_t>(o))) want_set.insert(x);
            c.check(got == want_set, "copies used by " + text(w));
        }
        std::vector<std::vector<int>> perm(static_cast<size_t>(m.num_sources));
        std::vector<oper_name_t> flat(total);
        std::map<oper_name_t, oper_name_t> moves;
        for (size_t g = 0; g < total; ++g) flat[g] = static_cast<oper_name_t>(g);
        for (size_t k = 0; k < perm.size(); ++k) {
            for (int i = 0; i < m.level; ++i) perm[k].push_back(i);
            for (size_t i = perm[k].size(); i > 1; --i) std::swap(perm[k][i - 1], perm[k][c.below(i)]);
            for (size_t i = 0; i < perm[k].size(); ++i) {
                flat[k * level + i] = static_cast<oper_name_t>(k * level + static_cast<size_t>(perm[k][i]));
                if (perm[k][i] != static_cast<int>(i) || c.coin()) moves[static_cast<oper_name_t>(k * level + i)] = flat[k * level + i];
            }
        }
        for (size_t o = 0; o < m.outcomes.size(); ++o) {
            auto& ob = ctx->Observables()[o];
            for (int k = 0; k < m.num_sources; ++k) {
                bool has = std::find(m.sources[o].begin(), m.sources[o].end(), k) != m.sources[o].end();
                c.check(ob.contains_source(static_cast<oper_name_t>(k)) == has, pbt::str("whether observable ", o, " has source ", k));
            }
            if (m.sources[o].empty()) continue;
            for (auto& variant : ob.variants) {
                auto a = net.permute_variant(level, ob.sources, flat, variant.indices), b = net.permute_variant(level, ob.sources, moves, variant.indices);
                c.check(a.size() == m.sources[o].size() && b.size() == a.size(), "size of the copy numbers");
                for (size_t k = 0; k < a.size(); ++k) {
                    auto x = perm[static_cast<size_t>(m.sources[o][k])][static_cast<size_t>(variant.indices[k])];
                    c.check(a[k] == x && b[k] == x, pbt::str("copies relabelled to ", a[k], " and ", b[k], ", expected ", x));
                }
            }
        }
        // names of outcomes of observables: different for different ones
        std::map<std::string, std::string> names;
        std::vector<OVIndex> ovs;
        std::vector<size_t> outs;
        for (size_t o = 0; o < m.outcomes.size(); ++o) for (size_t vv = 0; vv < m.first_op[o].size() && vv < 30; ++vv) {
            ovs.emplace_back(static_cast<oper_name_t>(o), static_cast<oper_name_t>(vv));
            outs.push_back(static_cast<size_t>(m.outcomes[o]));
            for (int x = 0; x < std::max(1, m.outcomes[o]); ++x) {
                auto name = ctx->format_sequence({OVOIndex{OVIndex{static_cast<oper_name_t>(o), static_cast<oper_name_t>(vv)}, static_cast<oper_name_t>(x)}});
                auto what = pbt::str(o, ".", vv, ".", x);
                auto [at, fresh] = names.emplace(name, what);
                c.check(fresh, what + " and " + at->second + " are both called " + name);
            }
        }
        c.check(ctx->outcomes_per_observable(ovs) == outs, "outcomes per observable");
    }
    // outcome numbers
    std::vector<OVIndex> ov;
    size_t want = 1;
    for (int k = 0; k < 3; ++k) {
        auto g = c.below(global);
        auto idx = ctx->index_to_obs_variant(static_cast<oper_name_t>(g));
        if (m.outcomes[static_cast<size_t>(idx.observable)] == 0) continue;
        ov.push_back(idx);
        want *= static_cast<size_t>(m.outcomes[static_cast<size_t>(idx.observable)]);
    }
    if (ov.empty()) return;
    if (c.chance(20)) {
        auto bad = ov;
        bad[c.below(bad.size())].observable = static_cast<oper_name_t>(m.outcomes.size() + c.below(2));
        bool thrown = false;
        try { (void) ctx->unflatten_outcome_index(bad, 0); } catch (const Moment::Inflation::errors::bad_observable&) { thrown = true; }
        c.check(thrown, "an observable out of range is accepted");
        c.label("bad observable");
        auto outs = ctx->unflatten_outcome_index(ov, static_cast<oper_name_t>(c.below(want)));
        size_t at = c.below(outs.size());
        const auto& o = outs[at].observable_variant;
        switch (c.below(3)) {
            case 0: outs[at].outcome = static_cast<oper_name_t>(m.outcomes[static_cast<size_t>(o.observable)] + static_cast<int>(c.below(2))); break;
            case 1: outs[at].observable_variant.observable = static_cast<oper_name_t>(m.outcomes.size() + c.below(2)); break;
            default: outs[at].observable_variant.variant = static_cast<oper_name_t>(ctx->Observables()[static_cast<size_t>(o.observable)].variant_count + static_cast<oper_name_t>(c.below(2))); break;
        }
        bool where = false;
        try { (void) ctx->flatten_outcome_index(outs); } catch (const Moment::Inflation::errors::bad_observable& e) { where = e.index == at; }
        c.check(where, "an outcome, variant or observable out of range is accepted");
    }
    std::set<std::vector<oper_name_t>> seen;
    for (size_t i = 0; i < want; ++i) {
        auto ovo = ctx->unflatten_outcome_index(ov, static_cast<oper_name_t>(i));
        std::vector<oper_name_t> v;
        for (size_t k = 0; k < ovo.size(); ++k) {
            c.check(ovo[k].observable_variant == ov[k], "unflattened observable");
            c.check(ovo[k].outcome >= 0 && ovo[k].outcome < m.outcomes[static_cast<size_t>(ov[k].observable)], "unflattened outcome");
            v.push_back(ovo[k].outcome);
        }
        c.check(seen.insert(v).second, "two outcome numbers unflatten to the same outcomes");
        c.check(ctx->flatten_outcome_index(ovo) == i, "outcome number does not come back");
    }
}

LAW(representative, "the representative is a different word", 30000, 1500000) {
    auto m = gen_inflation(c, 4, 3, 3, 60, 3);
    c.note(m.text());
    auto ctx = m.make();
    c.check(ctx->can_have_aliases() == (m.level > 1 && m.num_sources > 0), "can_have_aliases");
    if (m.n == 0) return;
    auto a = gen_word(c, m.n, std::min<size_t>(7, max_hashable(m.n)));
    auto w = m.normal(a);
    int sg = c.chance(20) ? 2 : 0;
    c.note("word " + text(a) + (sg ? " negated" : ""));
    auto A = to_seq(*ctx, a, sg);
    auto rep = ctx->canonical_moment(A);
    if (!ctx->can_have_aliases()) { c.check(rep == A, "representative without aliases"); return; }
    if (w.zero) { c.check(rep.zero(), "representative of zero"); return; }
    auto got = from_seq(rep);
    c.nontrivial(got.ops != w.ops);
    auto orb = m.orbit(w.ops);
    c.checkf(!got.zero && got.sign == sg && orb.count(got.ops), [&] { return text(w) + " is represented by " + text(got) + ", which no relabelling of sources gives"; });
    same(c, rep, m.normal(got.ops, sg), static_cast<uint64_t>(m.n), "representative");
    c.check(ctx->simplify_as_moment(rep) == rep, "representative of a representative differs");
    c.check(ctx->simplify_as_moment(OperatorSequence{A}) == rep, "move and copy overloads differ");
    if (!ctx->can_be_simplified_as_moment(A)) c.check(rep == A, "a word that cannot be simplified is changed");
    else c.label("can be simplified");
    c.check(!ctx->can_be_simplified_as_moment(rep) || ctx->simplify_as_moment(rep) == rep, "representative can be simplified");
}

LAW(factorisation, "two or more factors", 60000, 2000000) {
    auto m = gen_inflation(c, 5, 4, 3, 80, 3);
    c.note(m.text());
    auto ctx = m.make();
    if (m.n == 0) return;
    auto a = gen_word(c, m.n, std::min<size_t>(8, max_hashable(m.n)));
    auto w = m.normal(a);
    c.note("word " + text(a));
    auto f = ctx->factorize(to_seq(*ctx, a));
    if (w.zero || w.ops.empty()) {
        c.check(f.size() == 1 && from_seq(f[0]) == w, "factors of zero or identity");
        return;
    }
    std::multiset<Ops> got;
    for (auto& x : f) { auto fx = from_seq(x); c.check(!fx.zero && fx.sign == 0, "bad factor"); got.insert(fx.ops); same(c, x, m.normal(fx.ops), static_cast<uint64_t>(m.n), "factor"); }
    auto want = m.components(w.ops);
    c.nontrivial(want.size() > 1);
    c.checkf(got == want, [&] {
        std::string s = text(w) + " factorises as";
        for (auto& x : got) s += " " + text(x);
        s += ", expected";
        for (auto& x : want) s += " " + text(x);
        return s; });
    OperatorSequence prod = ctx->identity();
    for (auto& x : f) prod = prod * x;
    same(c, prod, w, static_cast<uint64_t>(m.n), "product of factors");
}

LAW(factor_table, "the table has an entry with several factors", 2500, 80000) {
    auto m = gen_inflation(c, 4, 3, 3, 14, 3);
    c.note(m.text());
    auto own = m.make();
    auto& ctx = *own;
    if (m.n == 0) throw pbt::Discard{};
    InflationMatrixSystem ims{std::unique_ptr<class Moment::Context>(std::move(own))};
    auto audit = [&](const std::string& when) {
        auto lock = ims.get_read_lock();
        auto& ft = ims.Factors();
        auto& st = ims.Symbols();
        c.check(ft.size() == st.size(), when + pbt::str(": table has ", ft.size(), " entries for ", st.size(), " symbols"));
        std::vector<size_t> uses(st.size(), 0);
        for (size_t id = 0; id < st.size(); ++id) {
            auto& e = ft[id];
            auto& sym = st[static_cast<symbol_name_t>(id)];
            c.check(e.id == static_cast<symbol_name_t>(id), "entry number");
            auto w = from_seq(sym.sequence());
            std::string name = when + pbt::str(": #", id, " ") + text(w);
            if (id > 1) c.check(ctx.canonical_moment(sym.sequence()) == sym.sequence(), name + " is not a representative");
            if (w.zero || w.ops.empty()) { c.check(e.fundamental(), name + " should be fundamental"); continue; }
            auto comp = m.components(w.ops);
            c.check(e.canonical.symbols.size() == comp.size(), name + ": number of factors");
            c.check(e.fundamental() == (comp.size() <= 1), name + ": fundamental");
            c.check(std::is_sorted(e.canonical.symbols.begin(), e.canonical.symbols.end()), name + ": factors not sorted");
            if (comp.size() > 1) c.nontrivial();
            // match factors with components, up to relabelling, one to one
            std::multiset<Ops> want, got;
            for (auto& x : comp) want.insert(*m.orbit(x).begin());
            for (auto s : e.canonical.symbols) {
                c.check(s > 1 && s < static_cast<symbol_name_t>(st.size()), name + ": bad factor symbol");
                if (comp.size() > 1) ++uses[static_cast<size_t>(s)];
                got.insert(*m.orbit(from_seq(st[s].sequence()).ops).begin());
                c.check(ft[static_cast<size_t>(s)].fundamental(), name + ": factor is not fundamental");
            }
            c.check(want == got, name + ": recorded factors are not its components");
            auto back = ft.find_index_by_factors(e.canonical.symbols);
            c.check(back.has_value(), name + ": not found by its factors");
            if (e.fundamental()) c.check(*back == e.id, name + ": another symbol is found by it");
            c.check(ft[static_cast<size_t>(*back)].canonical.symbols == e.canonical.symbols, name + ": a different product found by its factors");
        }
        for (size_t id = 2; id < st.size(); ++id) c.check(ft[id].appearances == uses[id], when + pbt::str(": #", id, " appears ", ft[id].appearances, " times, expected ", uses[id]));
    };
    audit("at first");
    int steps = static_cast<int>(c.range(1, 3));
    for (int k = 0; k < steps; ++k) {
        if (c.chance(30)) {
            // the factors of these words need not be among the words of a moment matrix made before
            OperatorSequence word{ctx.canonical_moment(to_seq(ctx, [&] {
                Ops w;
                for (int64_t i = 0, n = c.range(1, 4); i < n; ++i) w.push_back(static_cast<int>(c.below(static_cast<uint64_t>(m.n))));
                return w;
            }()))};
            if (word.zero()) continue;
            ims.LocalizingMatrix(LocalizingMatrixIndex{c.coin() ? 0u : 1u, word});
            audit("after localizing matrix of " + text(from_seq(word)));
            c.label("localizing matrix");
            continue;
        }
        size_t lv = static_cast<size_t>(c.range(0, m.n > 8 ? 1 : 2));
        ims.MomentMatrix(lv);
        audit(pbt::str("after moment matrix ", lv));
    }
    // products
    auto lock = ims.get_read_lock();
    auto& ft = ims.Factors();
    auto& st = ims.Symbols();
    for (int t = 0; t < 10; ++t) {
        std::vector<symbol_name_t> mult;
        size_t len = static_cast<size_t>(c.range(1, 3));
        for (size_t i = 0; i < len; ++i) mult.push_back(static_cast<symbol_name_t>(c.below(st.size())));
        bool zero = false;
        std::multiset<symbol_name_t> want;
        for (auto s : mult) {
            if (s == 0) zero = true;
            if (s <= 1) continue;
            for (auto f : ft[static_cast<size_t>(s)].canonical.symbols) want.insert(f);
        }
        auto verify = [&](auto&& call, const std::string& what) {
            symbol_name_t r = -1;
            try { r = call(); } catch (const Moment::Inflation::errors::unknown_symbol&) {
                c.check(!zero, what + " with zero throws");
                std::vector<symbol_name_t> key(want.begin(), want.end());
                c.check(want.size() > 1 && !ft.find_index_by_factors(key).has_value(), what + " " + pbt::join(mult) + " throws though the product is known");
                return;
            }
            if (zero) { c.check(r == 0, what + " with zero is not zero"); return; }
            std::multiset<symbol_name_t> got;
            if (r > 1) for (auto f : ft[static_cast<size_t>(r)].canonical.symbols) got.insert(f);
            c.check(r > 0 && got == want, what + " of " + pbt::join(mult) + pbt::str(" is #", r));
        };
        verify([&] { return ft.try_multiply(mult); }, "product");
        if (mult.size() == 2) verify([&] { return ft.try_multiply(mult[0], mult[1]); }, "product of two");
        if (mult.size() >= 2) {
            auto one = [&](symbol_name_t s) { return s == 0 || s == 1 ? std::vector<symbol_name_t>{s} : ft[static_cast<size_t>(s)].canonical.symbols; };
            auto comb = FactorTable::combine_symbolic_factors(one(mult[0]), one(mult[1]));
            std::vector<symbol_name_t> expect;
            for (int k = 0; k < 2; ++k) for (auto s : one(mult[static_cast<size_t>(k)])) if (s != 1) expect.push_back(s);
            std::sort(expect.begin(), expect.end());
            if (expect.empty()) expect = {1};
            if (mult[0] == 0 || mult[1] == 0) expect = {0};
            c.check(comb == expect, "combined factors " + pbt::join(comb) + ", expected " + pbt::join(expect));
        }
    }
    // products of polynomials, by the value they have when factors are independent
    std::vector<cd> v(st.size());
    for (size_t k = 0; k < v.size(); ++k) if (ft[k].fundamental()) v[k] = k == 0 ? 0.0 : k == 1 ? 1.0 : cd(static_cast<double>(c.range(-6, 6)) / 4.0);
    for (size_t k = 2; k < v.size(); ++k) if (!ft[k].fundamental()) { v[k] = 1.0; for (auto f : ft[k].canonical.symbols) v[k] *= v[static_cast<size_t>(f)]; }
    auto& factory = ims.polynomial_factory();
    for (int t = 0; t < 4; ++t) {
        std::vector<Polynomial> ps;
        size_t len = static_cast<size_t>(c.chance(25) ? c.range(4, 5) : c.range(1, 3));
        for (size_t i = 0; i < len; ++i) {
            Polynomial::storage_t terms;
            for (size_t k = 0, kk = c.below(len > 3 ? 3 : 4); k < kk; ++k)
                terms.emplace_back(static_cast<symbol_name_t>(c.chance(30) ? c.below(2) : c.below(st.size())), cd(static_cast<double>(c.range(-4, 4)) / 2.0, c.chance(20) ? 0.5 : 0.0), false);
            ps.push_back(factory(std::move(terms)));
        }
        // every product of terms that would be needed
        bool known = true;
        std::vector<std::vector<symbol_name_t>> need{{}};
        cd want = 1.0;
        for (auto& q : ps) {
            decltype(need) next;
            for (auto& x : need) for (auto& m : q) { next.push_back(x); next.back().push_back(m.id); }
            need = next;
            cd val = 0.0;
            for (auto& m : q) val += m.factor * v[static_cast<size_t>(m.id)];
            want *= val;
        }
        for (auto& x : need) try { (void)ft.try_multiply(x); } catch (const Moment::Inflation::errors::unknown_symbol&) { known = false; }
        auto value = [&](const Polynomial& q) { cd r = 0.0; for (auto& m : q) r += m.factor * v[static_cast<size_t>(m.id)]; return r; };
        auto told = [&](auto&& call, const std::string& what) {
            std::string t = what;
            for (auto& q : ps) { t += " ("; for (auto& m : q) t += pbt::str(" ", m.factor, "#", m.id); t += " )"; }
            Polynomial r;
            try { r = call(); } catch (const Moment::Inflation::errors::unknown_symbol&) { c.check(!known, t + " throws, though every product is known"); return; }
            c.check(known, t + ": an unknown product is found");
            c.check(std::abs(value(r) - want) < 1e-8 * std::max(1.0, std::abs(want)), t + pbt::str(" has value ", value(r), ", expected ", want));
            for (size_t k = 1; k < r.size(); ++k) c.check(r[k - 1].id != r[k].id, t + ": like terms");
        };
        told([&] { return ft.try_multiply(factory, ps); }, "polynomial product");
        if (ps.size() == 2) told([&] { return ft.try_multiply(factory, ps[0], ps[1]); }, "product of two polynomials");
    }
    // text of an entry
    for (auto& e : ft) {
        std::string want;
        for (auto& q : e.canonical.sequences) { std::ostringstream os; os << q; want += "<" + os.str() + ">"; }
        if (e.id < 2) want = std::to_string(e.id);
        c.check(e.sequence_string() == want, pbt::str("entry ", e.id, " reads ", e.sequence_string(), ", expected ", want));
    }
}
