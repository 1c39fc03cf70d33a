// C01: word algebra of locality scenarios.
#include "models.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/locality/party_measurement_index.h"
using namespace Moment;
using namespace model;

namespace {
    model::Locality scenario(pbt::Case& c) {
        // one-outcome measurements (no operator) are allowed by the code ("outcomes >= 1")
        auto m = gen_locality(c, 4, 3, 4, c.chance(15) ? 1 : 2, 1, 1000, true);
        c.note(m.text());
        return m;
    }
    Ops word(pbt::Case& c, const model::Locality& m) {
        // Bias: repeated and same-measurement neighbours matter more than uniform noise.
        Ops w;
        if (m.n == 0) return w;
        size_t len = static_cast<size_t>(c.sized(0, static_cast<int64_t>(std::min<size_t>(max_hashable(m.n), 24))));
        while (w.size() < len) {
            if (!w.empty() && c.chance(15)) { w.push_back(w[c.below(w.size())]); continue; }
            w.push_back(static_cast<int>(c.below(static_cast<uint64_t>(m.n))));
        }
        return w;
    }
    /** A word with no annihilation: avoid different outcomes of one measurement next to each other in a party. */
    Ops live_word(pbt::Case& c, const model::Locality& m, size_t max_len) {
        Ops w;
        if (m.n == 0) return w;
        std::vector<int> last(m.outcomes.size(), -1);
        size_t len = static_cast<size_t>(c.sized(0, static_cast<int64_t>(std::min<size_t>(max_hashable(m.n), max_len))));
        for (size_t i = 0; i < len; ++i) {
            auto o = static_cast<int>(c.below(static_cast<uint64_t>(m.n)));
            auto p = static_cast<size_t>(m.party_of[static_cast<size_t>(o)]);
            if (last[p] >= 0 && last[p] != o && m.mmt_of[static_cast<size_t>(last[p])] == m.mmt_of[static_cast<size_t>(o)]) o = last[p];
            last[p] = o;
            w.push_back(o);
        }
        return w;
    }
    Ops any_word(pbt::Case& c, const model::Locality& m, size_t max_len = 24) { return c.chance(60) ? live_word(c, m, max_len) : word(c, m); }
}

LAW(normal_form, "the word is changed by simplification (reordered, shortened or annihilated)", 400000, 20000000) {
    auto m = scenario(c);
    auto ctx = m.make();
    c.check(ctx->size() == static_cast<size_t>(m.n), "operator count");
    auto w = any_word(c, m);
    int sign = static_cast<int>(c.below(4));
    c.note("word " + text(w) + " sign " + std::to_string(sign));
    auto want = m.normal(w, sign);
    c.label(want.zero ? "zero" : want.ops == w ? "already normal" : want.ops.size() < w.size() ? "shortened" : "reordered");
    c.nontrivial(want.zero || want.ops != w);
    auto got = to_seq(*ctx, w, sign);
    same(c, got, want, static_cast<uint64_t>(m.n), "simplified word");
    // idempotent
    if (!want.zero) {
        auto again = to_seq(*ctx, ops_of(got), static_cast<int>(got.get_sign()));
        c.check(again == got && from_seq(again) == from_seq(got), "simplifying a normal form changes it");
    }
    // canonical iff unchanged
    auto gic = ctx->get_if_canonical(store(w));
    bool canonical = !m.normal(w).zero && m.normal(w).ops == w;
    c.check(gic.has_value() == canonical, "get_if_canonical " + std::string(gic ? "accepts" : "rejects") + " " + text(w));
    if (gic) same(c, *gic, m.normal(w), static_cast<uint64_t>(m.n), "get_if_canonical");
}

LAW(product, "both factors have operators and the product is neither zero nor a plain concatenation", 250000, 12000000) {
    auto m = scenario(c);
    auto ctx = m.make();
    auto a = any_word(c, m, 10), b = any_word(c, m, 10), d = any_word(c, m, 6);
    int sa = static_cast<int>(c.below(4)), sb = static_cast<int>(c.below(4)), sd = static_cast<int>(c.below(4));
    if (a.size() + b.size() + d.size() > max_hashable(m.n)) { a.resize(a.size() / 3); b.resize(b.size() / 3); d.resize(d.size() / 3); }
    c.note("a=" + text(a) + " b=" + text(b) + " d=" + text(d));
    auto radix = static_cast<uint64_t>(m.n);
    auto A = to_seq(*ctx, a, sa), B = to_seq(*ctx, b, sb), D = to_seq(*ctx, d, sd);
    auto wa = m.normal(a, sa), wb = m.normal(b, sb), wd = m.normal(d, sd);
    auto ab = m.mul(wa, wb);
    Ops cat = wa.ops;
    cat.insert(cat.end(), wb.ops.begin(), wb.ops.end());
    c.nontrivial(!wa.ops.empty() && !wb.ops.empty() && !ab.zero && ab.ops != cat);
    c.label(ab.zero ? "zero" : "live");
    auto AB = A * B;
    same(c, AB, ab, radix, "a*b");
    auto A2 = A;
    A2 *= B;
    same(c, A2, ab, radix, "a*=b");
    auto A3 = A;
    if (!wa.zero) {   // append() works on the operators only
        A3.append(B.begin(), B.end());
        auto e = m.normal(cat, wa.sign);
        if (!wb.zero) same(c, A3, e, radix, "append");
    }
    same(c, AB * D, m.mul(ab, wd), radix, "(ab)d");
    same(c, A * (B * D), m.mul(ab, wd), radix, "a(bd)");
    same(c, A * ctx->identity(), wa, radix, "a*1");
    same(c, ctx->identity() * A, wa, radix, "1*a");
    same(c, A * ctx->zero(), Zero(), radix, "a*0");
    same(c, ctx->zero() * A, Zero(), radix, "0*a");
    auto neg = -A;
    auto wneg = wa;
    if (!wneg.zero) wneg.sign = (wneg.sign + 2) % 4;
    same(c, neg, wneg, radix, "-a");
    same(c, -std::move(neg), wa, radix, "-(-a)");
}

LAW(conjugate, "the word is not its own conjugate", 250000, 12000000) {
    auto m = scenario(c);
    auto ctx = m.make();
    auto a = any_word(c, m, 12), b = any_word(c, m, 8);
    if (a.size() + b.size() > max_hashable(m.n)) { a.resize(a.size() / 2); b.resize(b.size() / 2); }
    int sa = static_cast<int>(c.below(4)), sb = static_cast<int>(c.below(4));
    c.note("a=" + text(a) + " b=" + text(b));
    auto radix = static_cast<uint64_t>(m.n);
    auto A = to_seq(*ctx, a, sa), B = to_seq(*ctx, b, sb);
    auto wa = m.normal(a, sa), wb = m.normal(b, sb);
    auto wc = m.conj(wa);
    c.nontrivial(!(wc == wa));
    same(c, A.conjugate(), wc, radix, "a*");
    same(c, A.conjugate().conjugate(), wa, radix, "a**");
    same(c, (A * B).conjugate(), m.mul(m.conj(wb), m.conj(wa)), radix, "(ab)*");
    auto ht = A.hermitian_type();
    Word minus = wa;
    minus.sign = (minus.sign + 2) % 4;
    HermitianType want = wa.zero ? HermitianType::Zero : wc == wa ? HermitianType::Hermitian
                         : wc == minus ? HermitianType::AntiHermitian : HermitianType::NotHermitian;
    c.check(ht == want, "hermitian_type of " + text(wa));
}

LAW(relations, "the rewritten word differs from the first", 250000, 12000000) {
    // Metamorphic: applying a defining relation somewhere inside a word never changes what the word denotes.
    auto m = scenario(c);
    if (m.n == 0) throw pbt::Discard{};
    auto ctx = m.make();
    auto w = any_word(c, m, 14);
    c.note("word " + text(w));
    auto v = w;
    int steps = static_cast<int>(c.range(1, 8));
    for (int i = 0; i < steps; ++i) {
        if (v.empty()) break;
        size_t k = c.below(v.size());
        if (c.coin()) {
            if (v.size() < max_hashable(m.n)) v.insert(v.begin() + static_cast<long>(k), v[k]);             // P P = P
        } else if (k + 1 < v.size() && m.party_of[static_cast<size_t>(v[k])] != m.party_of[static_cast<size_t>(v[k + 1])]) {
            std::swap(v[k], v[k + 1]);                                                                          // [A, B] = 0
        }
    }
    c.note("rewritten " + text(v));
    c.nontrivial(v != w);
    auto x = to_seq(*ctx, w), y = to_seq(*ctx, v);
    c.check(x == y && from_seq(x) == from_seq(y), "equal words differ: " + text(from_seq(x)) + " and " + text(from_seq(y)));
    // Orthogonality: placing a different outcome of the same measurement beside an operator annihilates.
    if (!v.empty()) {
        size_t k = c.below(v.size());
        auto o = static_cast<size_t>(v[k]);
        std::vector<int> others;
        for (int q = 0; q < m.n; ++q) if (q != v[k] && m.mmt_of[static_cast<size_t>(q)] == m.mmt_of[o]) others.push_back(q);
        if (!others.empty() && v.size() < max_hashable(m.n)) {
            v.insert(v.begin() + static_cast<long>(k) + (c.coin() ? 1 : 0), c.pick(others));
            auto z = to_seq(*ctx, v);
            c.check(z.zero() && z.hash() == 0, "orthogonal outcomes do not annihilate in " + text(v));
        }
    }
}

LAW(indexing, "more than one party", 60000, 2000000) {
    auto m = scenario(c);
    auto ctx = m.make();
    c.nontrivial(m.outcomes.size() > 1);
    c.check(ctx->Parties.size() == m.outcomes.size(), "party count");
    c.check(ctx->measurement_count() == static_cast<size_t>(m.total_mmts), "measurement count");
    std::vector<size_t> opm, opp, mpp, operpp;
    size_t gm = 0;
    for (size_t p = 0; p < m.outcomes.size(); ++p) {
        const auto& party = ctx->Parties[p];
        c.check(party.id() == static_cast<party_name_t>(p), "party id");
        size_t out = 0, nop = 0;
        for (size_t q = 0; q < m.outcomes[p].size(); ++q) {
            auto k = static_cast<size_t>(m.outcomes[p][q]);
            opm.push_back(k);
            out += k;
            nop += k - 1;
            auto pm = ctx->global_index_to_PM(gm);
            c.check(pm.party == static_cast<party_name_t>(p) && pm.mmt == static_cast<mmt_name_t>(q), "global_index_to_PM(" + std::to_string(gm) + ")");
            c.check(ctx->get_global_mmt_index(static_cast<party_name_t>(p), static_cast<mmt_name_t>(q)) == gm, "get_global_mmt_index");
            Moment::Locality::PMIndex one{static_cast<party_name_t>(p), static_cast<mmt_name_t>(q)};
            auto back = ctx->PM_to_global_index(std::span<const Moment::Locality::PMIndex>{&one, 1});
            c.check(back.size() == 1 && back[0] == gm, "PM_to_global_index");
            ctx->populate_global_mmt_index(std::span<Moment::Locality::PMIndex>{&one, 1});
            c.check(static_cast<size_t>(one.global_mmt) == gm, "populate_global_mmt_index");
            for (size_t x = 0; x + 1 < k; ++x) {
                int op = m.op_at[p][q][x];
                c.check(party.measurement_outcome(q, x) == op, "measurement_outcome");
                c.check(&ctx->associated_party(static_cast<oper_name_t>(op)) == &party, "associated_party");
                c.check(party.measurement_of(static_cast<oper_name_t>(op)).Index().mmt == static_cast<mmt_name_t>(q), "measurement_of");
            }
            bool threw = false;
            try { (void)party.measurement_outcome(q, k - 1); } catch (const std::range_error&) { threw = true; }
            c.check(threw, "the implicit outcome has an operator");
            ++gm;
        }
        opp.push_back(out);
        mpp.push_back(m.outcomes[p].size());
        operpp.push_back(nop);
        c.check(party.size() == nop, "party operator count");
        for (size_t i = 0; i < nop; ++i) c.check(m.party_of[static_cast<size_t>(party[i])] == static_cast<int>(p), "party operator");
        for (int x = 0; x < m.n; ++x) for (int y = 0; y < m.n; ++y) {
            if (m.party_of[static_cast<size_t>(x)] != static_cast<int>(p) || m.party_of[static_cast<size_t>(y)] != static_cast<int>(p)) continue;
            bool want = x != y && m.mmt_of[static_cast<size_t>(x)] == m.mmt_of[static_cast<size_t>(y)];
            c.check(party.mutually_exclusive(static_cast<oper_name_t>(x), static_cast<oper_name_t>(y)) == want, "mutually_exclusive");
        }
    }
    c.check(ctx->outcomes_per_measurement() == opm, "outcomes_per_measurement");
    c.check(ctx->outcomes_per_party() == opp, "outcomes_per_party");
    c.check(ctx->measurements_per_party() == mpp, "measurements_per_party");
    c.check(ctx->operators_per_party() == operpp, "operators_per_party");
}

LAW(lists, "several parties of different layouts", 40000, 1200000) {
    // scenarios made from lists of counts number and name everything as those made party by party
    using Moment::Locality::Party;
    auto m = scenario(c);
    if (c.chance(25)) {
        int np = static_cast<int>(c.range(1, 5)), nm = static_cast<int>(c.range(0, 3)), no = static_cast<int>(c.range(1, 4));
        m = model::Locality{std::vector<std::vector<int>>(static_cast<size_t>(np), std::vector<int>(static_cast<size_t>(nm), no))};
        c.note("uniform " + m.text());
        c.label("uniform");
    }
    std::set<std::vector<int>> kinds(m.outcomes.begin(), m.outcomes.end());
    c.nontrivial(kinds.size() > 1);
    std::vector<size_t> mpp, opm;
    for (auto& p : m.outcomes) { mpp.push_back(p.size()); for (auto o : p) opm.push_back(static_cast<size_t>(o)); }
    auto list = Party::MakeList(mpp, opm);
    if (kinds.size() == 1) {
        std::set<int> outs(m.outcomes[0].begin(), m.outcomes[0].end());
        if (outs.size() == 1 && c.coin()) list = Party::MakeList(static_cast<party_name_t>(m.outcomes.size()), static_cast<mmt_name_t>(m.outcomes[0].size()), static_cast<oper_name_t>(*outs.begin()));
    }
    auto alone = [&](const Party& p, size_t id) {   // not in a scenario yet: counts from nought
        c.check(p.id() == static_cast<party_name_t>(id) && p.name == std::string(1, static_cast<char>('A' + id)), pbt::str("party ", id, " is ", p.id(), " ", p.name));
        size_t n = 0;
        for (auto o : m.outcomes[id]) n += static_cast<size_t>(o - 1);
        c.check(p.size() == n && p.empty() == (n == 0) && p.Measurements.size() == m.outcomes[id].size(), pbt::str("sizes of party ", id));
        size_t k = 0;
        for (auto op : p) c.check(static_cast<size_t>(op) == k++, pbt::str("operators of party ", id, " on its own"));
        c.check(k == n, pbt::str(k, " of ", n, " operators listed in party ", id));
        for (size_t i = 0; i < n; ++i) c.check(static_cast<size_t>(p[i]) == i, "operator by number");
        bool threw = false;
        try { (void)p[n]; } catch (const std::range_error&) { threw = true; }
        c.check(threw, "an operator beyond the last");
    };
    c.check(list.size() == m.outcomes.size(), "number of parties");
    for (size_t p = 0; p < list.size(); ++p) alone(list[p], p);
    if (c.coin()) {
        std::vector<Party> moved;
        for (auto& p : list) moved.push_back(std::move(p));
        list = std::move(moved);
        for (size_t p = 0; p < list.size(); ++p) alone(list[p], p);
        c.label("moved");
    }
    Moment::Locality::LocalityContext ctx{std::move(list)};
    auto ref = m.make();
    c.check(ctx.size() == ref->size() && ctx.to_string() == ref->to_string(), [&] { return ctx.to_string() + "---\n" + ref->to_string(); }());
    std::vector<Moment::Locality::PMIndex> all, some;
    size_t global = 0;
    for (size_t p = 0; p < m.outcomes.size(); ++p) {
        auto& party = ctx.Parties[p];
        c.check(party.operators().size() == party.size() && std::equal(party.begin(), party.end(), party.operators().begin()), "operators of a party");
        for (size_t q = 0; q < m.outcomes[p].size(); ++q, ++global) {
            Moment::Locality::PMIndex pm{ctx, static_cast<party_name_t>(p), static_cast<mmt_name_t>(q)};
            c.check(pm.party == static_cast<party_name_t>(p) && pm.mmt == static_cast<mmt_name_t>(q) && pm.global_mmt == global, "index made for a scenario");
            Moment::Locality::PMOIndex pmo{ctx, static_cast<party_name_t>(p), static_cast<mmt_name_t>(q), 1};
            c.check(pmo.global_mmt == global && pmo.outcome == 1, "index with an outcome");
            auto& mmt = party.Measurements[q];
            c.check(mmt.Index().party == pm.party && mmt.Index().mmt == pm.mmt && mmt.Index().global_mmt == global, "index of a measurement");
            c.check(mmt.num_outcomes == m.outcomes[p][q] && mmt.num_operators() == m.outcomes[p][q] - 1 && mmt.name == std::string(1, static_cast<char>('a' + q)), "a measurement");
            all.push_back(pm);
        }
    }
    // outcomes of some measurements, in any order
    std::vector<size_t> want, gl;
    for (size_t k = 0; !all.empty() && k < 4; ++k) {
        auto i = c.below(all.size());
        some.push_back(all[i]);
        want.push_back(opm[i]);
        gl.push_back(i);
    }
    c.check(ctx.outcomes_per_measurement(some) == want && ctx.PM_to_global_index(some) == gl, "outcomes of the measurements asked for");
    auto bad = c.below(m.outcomes.size() + 2);
    Moment::Locality::PMIndex out{static_cast<party_name_t>(bad), static_cast<mmt_name_t>(bad < m.outcomes.size() ? m.outcomes[bad].size() + c.below(3) : 0)};
    some.push_back(out);
    int threw = 0;
    try { (void)ctx.outcomes_per_measurement(some); } catch (const std::range_error&) { ++threw; }
    try { (void)ctx.PM_to_global_index(some); } catch (const std::range_error&) { ++threw; }
    c.check(threw == 2, pbt::str("measurement ", out.mmt, " of party ", out.party, " is accepted"));
    auto w = any_word(c, m, 8);
    same(c, to_seq(ctx, w), m.normal(w), static_cast<uint64_t>(m.n), "word " + text(w));
}
