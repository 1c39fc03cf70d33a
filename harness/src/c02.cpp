// C02: rewriting in algebraic scenarios.
#include "algebra_gen.h"
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/dictionary.h"
#include "scenarios/algebraic/name_table.h"
#include "scenarios/algebraic/ostream_rule_logger.h"
#include <sstream>
using namespace Moment;
using namespace Moment::Algebraic;
using namespace model;

namespace {
    Word from_hashed(const HashedSequence& s) {
        Word w;
        w.zero = s.zero();
        if (w.zero) return w;
        w.sign = static_cast<int>(s.get_sign());
        w.ops = ops_of(s);
        return w;
    }
    size_t find_at(const Ops& w, const Ops& pat, size_t from) {
        if (pat.size() > w.size()) return std::string::npos;
        for (size_t i = from; i + pat.size() <= w.size(); ++i) if (std::equal(pat.begin(), pat.end(), w.begin() + static_cast<long>(i))) return i;
        return std::string::npos;
    }
    struct R { Ops lhs; Word rhs; };
    std::vector<R> read(const OperatorRulebook& rb) {
        std::vector<R> r;
        for (auto& [h, rule] : rb.rules()) r.push_back({ops_of(rule.LHS()), from_hashed(rule.RHS())});
        return r;
    }
    std::string show(const std::vector<R>& rules) {
        std::string s;
        for (auto& r : rules) s += text(r.lhs) + "->" + text(r.rhs) + " ";
        return s;
    }
    bool reducible(const std::vector<R>& rules, const Ops& w) {
        for (auto& r : rules) if (find_at(w, r.lhs, 0) != std::string::npos) return true;
        return false;
    }
    /** Rewrites with the rules in an order chosen by the case, until no rule applies. */
    Word rewrite(pbt::Case& c, const std::vector<R>& rules, Word w, int max_steps = 400) {
        for (int step = 0; step < max_steps; ++step) {
            std::vector<std::pair<size_t, size_t>> opts;
            for (size_t k = 0; k < rules.size(); ++k)
                for (size_t p = find_at(w.ops, rules[k].lhs, 0); p != std::string::npos; p = find_at(w.ops, rules[k].lhs, p + 1)) opts.emplace_back(k, p);
            if (opts.empty()) return w;
            auto [k, p] = opts[c.below(opts.size())];
            if (rules[k].rhs.zero) return Zero();
            Ops x(w.ops.begin(), w.ops.begin() + static_cast<long>(p));
            x.insert(x.end(), rules[k].rhs.ops.begin(), rules[k].rhs.ops.end());
            x.insert(x.end(), w.ops.begin() + static_cast<long>(p + rules[k].lhs.size()), w.ops.end());
            w.ops = std::move(x);
            w.sign = (w.sign + rules[k].rhs.sign) & 3;
        }
        c.fail("rewriting does not end");
    }
    Ops rword(pbt::Case& c, const AlgebraSetting& s, size_t max_len) {
        // Words rich in left-hand sides
        Ops w;
        size_t len = static_cast<size_t>(c.sized(0, static_cast<int64_t>(max_len)));
        while (w.size() < len) {
            if (!s.rules.empty() && c.chance(50)) {
                auto& r = c.pick(s.rules);
                const Ops& part = c.chance(80) ? r.lhs : r.rhs;
                w.insert(w.end(), part.begin(), part.end());
            } else w.push_back(static_cast<int>(c.below(static_cast<uint64_t>(s.n))));
        }
        if (w.size() > max_len) w.resize(max_len);
        return w;
    }
    size_t longest_rule(const OperatorRulebook& rb) {
        size_t l = 0;
        for (auto& [h, r] : rb.rules()) l = std::max(l, r.LHS().size());
        return l;
    }
    /** One bidirectional step of the supplied relations (or their conjugates), tracking the phase. */
    bool relate(pbt::Case& c, const AlgebraSetting& s, Word& w, size_t max_len) {
        if (s.rules.empty()) return false;
        auto r = c.pick(s.rules);
        if (c.coin()) { r.lhs = s.conj(r.lhs); r.rhs = s.conj(r.rhs); r.sign = (4 - r.sign) & 3; }
        bool forward = r.zero || c.coin();
        if (r.zero) return false;
        Ops from = forward ? r.lhs : r.rhs, to = forward ? r.rhs : r.lhs;
        int sg = forward ? r.sign : (4 - r.sign) & 3;
        std::vector<size_t> at;
        for (size_t p = find_at(w.ops, from, 0); p != std::string::npos; p = find_at(w.ops, from, p + 1)) at.push_back(p);
        if (at.empty()) return false;
        size_t p = at[c.below(at.size())];
        Ops x(w.ops.begin(), w.ops.begin() + static_cast<long>(p));
        x.insert(x.end(), to.begin(), to.end());
        x.insert(x.end(), w.ops.begin() + static_cast<long>(p + from.size()), w.ops.end());
        if (x.size() > max_len) return false;
        w.ops = x;
        w.sign = (w.sign + sg) & 3;
        return true;
    }
}

LAW(reduction_sound, "at least one rule applies to the word", 60000, 3000000) {
    auto s = gen_algebra(c, 4, 4, 4);
    c.note(s.text());
    OperatorRulebook rb{s.precontext(), s.lib_rules()};
    auto rules = read(rb);
    for (auto& r : rules) {
        c.check(s.value(r.lhs) == s.value(r.rhs), "rule added does not follow from the rules supplied: " + text(r.lhs) + " -> " + text(r.rhs));
        c.check(shortlex(r.lhs, static_cast<uint64_t>(s.n)) > (r.rhs.zero ? 0 : shortlex(r.rhs.ops, static_cast<uint64_t>(s.n))), "rule does not reduce");
    }
    auto w = rword(c, s, 14);
    int sg = static_cast<int>(c.below(4));
    c.note("word " + text(w) + pbt::str(" sign ", sg));
    c.nontrivial(reducible(rules, w));
    auto in = s.hashed(w, sg);
    auto want = s.value(Word{false, sg, w});
    auto look = [&](const Word& got, const std::string& what) {
        c.checkf(s.value(got) == want, [&] { return what + " of " + text(w) + " gives " + text(got) + ", which is a different operator"; });
        if (!got.zero) c.checkf(!reducible(rules, got.ops), [&] { return what + " leaves " + text(got) + ", to which a rule applies; rules " + show(rules); });
    };
    auto r0 = rb.reduce(in);
    look(from_hashed(r0), "reduce");
    if (!r0.zero()) c.check(r0.hash() == s.precontext().hasher(r0.raw()), "hash of reduced word");
    look(from_hashed(rb.reduce_via_iteration(in)), "reduce_via_iteration");
    look(from_hashed(rb.reduce_via_search(in)), "reduce_via_search");
    auto in2 = in;
    rb.reduce_in_place(in2);
    look(from_hashed(in2), "reduce_in_place");
    c.check(in2 == r0, "reduce_in_place differs from reduce");
    c.check(rb.can_reduce(store(w)) == reducible(rules, w), "can_reduce");
}

LAW(completion, "completion succeeds with a rule added, changed or removed", 12000, 500000) {
    auto s = gen_algebra(c, 3, 4, 4);
    c.note(s.text());
    OperatorRulebook rb{s.precontext(), s.lib_rules()};
    auto before = read(rb);
    Logger log{s.n};
    bool ok = rb.complete(static_cast<size_t>(c.range(0, 24)), &log);
    if (std::max(log.longest, longest_rule(rb)) * 2 > max_hashable(s.n)) throw pbt::Discard{};
    auto rules = read(rb);
    c.note((ok ? "completed: " : "not completed: ") + show(rules));
    c.label(ok ? "completed" : "not completed");
    for (auto& r : rules) {
        c.check(s.value(r.lhs) == s.value(r.rhs), "derived rule does not follow: " + text(r.lhs) + " -> " + text(r.rhs));
    }
    c.check(rb.is_complete() == ok, pbt::str("is_complete() is ", !ok, " after complete() returned ", ok));
    if (!ok) return;
    c.nontrivial(rules.size() != before.size() || show(rules) != show(before));
    // every supplied relation, and its conjugate, is a consequence of the completed rules
    for (auto r : s.rules) {
        for (int k = 0; k < 2; ++k) {
            auto l = from_hashed(rb.reduce(s.hashed(r.lhs))), x = r.zero ? Zero() : from_hashed(rb.reduce(s.hashed(r.rhs, r.sign)));
            c.checkf(l == x, [&] { return "supplied relation lost: " + text(r.lhs) + " reduces to " + text(l) + ", its right-hand side to " + text(x); });
            r.lhs = s.conj(r.lhs);
            r.rhs = s.conj(r.rhs);
            r.sign = (4 - r.sign) & 3;
        }
    }
    for (int t = 0; t < 12; ++t) {
        Word w{false, static_cast<int>(c.below(4)), rword(c, s, 10)};
        auto nf = from_hashed(rb.reduce(s.hashed(w.ops, w.sign)));
        auto other = rewrite(c, rules, w);
        c.checkf(nf == other, [&] { return text(w) + " reduces to both " + text(nf) + " and " + text(other); });
        auto m = from_hashed(rb.reduce_via_search(s.hashed(w.ops, w.sign))), it = from_hashed(rb.reduce_via_iteration(s.hashed(w.ops, w.sign)));
        c.check(m == nf && it == nf, "reduction methods disagree on " + text(w));
        Word v = w;
        int moved = 0;
        for (int k = 0; k < 6; ++k) moved += relate(c, s, v, 16);
        auto nv = from_hashed(rb.reduce(s.hashed(v.ops, v.sign)));
        c.checkf(nv == nf, [&] { return text(w) + " and " + text(v) + " are equal, but reduce to " + text(nf) + " and " + text(nv); });
        if (!nf.zero && !v.ops.empty()) c.check(shortlex(nf.ops, static_cast<uint64_t>(s.n)) <= shortlex(v.ops, static_cast<uint64_t>(s.n)), "normal form is not minimal");
    }
}

LAW(steps, "the rules are reduced, conjugated or combined", 12000, 500000) {
    // completion taken one step at a time
    auto s = gen_algebra(c, 3, 4, 4);
    c.note(s.text());
    OperatorRulebook rb{s.precontext(), s.lib_rules()};
    Logger log{s.n};
    auto sound = [&](const std::string& what) {
        for (auto& r : read(rb)) c.checkf(s.value(r.lhs) == s.value(r.rhs), [&] { return what + " makes a rule which does not follow: " + text(r.lhs) + " -> " + text(r.rhs); });
    };
    auto tidy = [&](const std::string& what) {
        auto rules = read(rb);
        for (size_t i = 0; i < rules.size(); ++i) {
            auto others = rules;
            others.erase(others.begin() + static_cast<long>(i));
            c.checkf(!reducible(others, rules[i].lhs) && (rules[i].rhs.zero || !reducible(rules, rules[i].rhs.ops)),
                     [&] { return what + " leaves a rule that the others reduce: " + text(rules[i].lhs) + " -> " + text(rules[i].rhs); });
        }
    };
    auto w = rword(c, s, 10);
    size_t n = rb.reduce_ruleset(&log);
    sound("reduce_ruleset");
    tidy("reduce_ruleset");
    c.check(rb.reduce_ruleset() == 0, "reducing again finds something");
    bool any = n > 0;
    if (c.coin()) {
        any = rb.conjugate_ruleset(&log) > 0 || any;
        sound("conjugate_ruleset");
        for (auto& r : read(rb)) {
            Word l{false, 0, s.conj(r.lhs)}, x = r.rhs.zero ? Zero() : Word{false, (4 - r.rhs.sign) & 3, s.conj(r.rhs.ops)};
            auto nl = from_hashed(rb.reduce(s.hashed(l.ops))), nx = x.zero ? x : from_hashed(rb.reduce(s.hashed(x.ops, x.sign)));
            c.checkf(nl == nx, [&] { return "conjugate of " + text(r.lhs) + " -> " + text(r.rhs) + " is not implied: " + text(nl) + " and " + text(nx); });
        }
    }
    bool more = true;
    for (int i = 0, most = static_cast<int>(c.range(0, 10)); more && i < most; ++i) {
        more = rb.try_new_combination(&log);
        any = any || more;
        if (std::max(log.longest, longest_rule(rb)) * 2 > max_hashable(s.n)) throw pbt::Discard{};
        sound("combination");
        tidy("combination");
        if (!more) c.check(rb.is_complete(false), "nothing left to combine, but not complete");
        auto r = rb.reduce(s.hashed(w));
        c.check(s.value(from_hashed(r)) == s.value(w), "value of a word");
    }
    c.nontrivial(any);
}

LAW(declared_complete, "is_complete() accepts rules with an overlap", 40000, 1500000) {
    // Without asking for completion: if the rules are said to be complete, they must be.
    auto s = gen_algebra(c, 3, 2, 4);
    c.note(s.text());
    OperatorRulebook rb{s.precontext(), s.lib_rules()};
    if (!rb.is_complete()) { c.label("not complete"); return; }
    auto rules = read(rb);
    bool overlap = false;
    for (auto& a : rules) for (auto& b : rules) for (size_t k = 1; k < std::min(a.lhs.size(), b.lhs.size()); ++k)
        overlap = overlap || std::equal(b.lhs.begin(), b.lhs.begin() + static_cast<long>(k), a.lhs.end() - static_cast<long>(k));
    c.nontrivial(overlap);
    for (int t = 0; t < 10; ++t) {
        Word w{false, 0, rword(c, s, 9)};
        auto nf = from_hashed(rb.reduce(s.hashed(w.ops)));
        auto other = rewrite(c, rules, w);
        c.checkf(nf == other, [&] { return "rules said to be complete reduce " + text(w) + " to both " + text(nf) + " and " + text(other); });
        auto cj = from_hashed(rb.reduce(s.hashed(s.conj(w.ops)))), cn = nf.zero ? nf : from_hashed(rb.reduce(s.hashed(s.conj(nf.ops), (4 - nf.sign) & 3)));
        c.checkf(cj == cn, [&] { return "conjugates of " + text(w) + " and of its normal form reduce to " + text(cj) + " and " + text(cn); });
    }
}

LAW(context_words, "a product or conjugate is reduced", 30000, 1500000) {
    auto s = gen_algebra(c, 4, 4, 3);
    c.note(s.text());
    bool normal = c.coin();
    AlgebraicContext ctx{s.precontext(), s.commutative, normal, s.lib_rules()};
    c.check(ctx.size() == static_cast<size_t>(s.n), "operator count");
    Logger log{s.n};
    bool ok = ctx.attempt_completion(static_cast<size_t>(c.range(0, 12)), &log);
    if (std::max(log.longest, longest_rule(ctx.rulebook())) * 2 > max_hashable(s.n)) throw pbt::Discard{};
    c.label(ok ? "complete" : "incomplete");
    auto a = rword(c, s, 8), b = rword(c, s, 6), d = rword(c, s, 4);
    int sa = static_cast<int>(c.below(4)), sb = static_cast<int>(c.below(4)), sd = static_cast<int>(c.below(4));
    c.note("a=" + text(a) + " b=" + text(b) + " d=" + text(d) + pbt::str(" signs ", sa, sb, sd));
    auto A = to_seq(ctx, a, sa), B = to_seq(ctx, b, sb), D = to_seq(ctx, d, sd);
    auto va = s.value(Word{false, sa, a}), vb = s.value(Word{false, sb, b}), vd = s.value(Word{false, sd, d});
    auto look = [&](const OperatorSequence& got, const PMat& want, const std::string& what) {
        c.checkf(s.value(from_seq(got)) == want, [&] { return what + " is " + text(from_seq(got)) + ", a different operator"; });
        c.check(got.zero() == (got.hash() == 0) && (got.zero() || got.hash() == shortlex(ops_of(got), static_cast<uint64_t>(s.n))), what + ": hash");
    };
    c.nontrivial(A.size() + B.size() > (A * B).size() || A.conjugate().size() < A.size());
    look(A, va, "a");
    look(A * B, va * vb, "a*b");
    look(A.conjugate(), va.adjoint(), "a*");
    look((A * B).conjugate(), vb.adjoint() * va.adjoint(), "(ab)*");
    look(A * B * D, va * vb * vd, "abd");
    look(-A, va.phased(2), "-a");
    if (ok) {
        auto same_word = [&](const OperatorSequence& x, const OperatorSequence& y, const std::string& what) {
            c.checkf(x == y && from_seq(x) == from_seq(y), [&] { return what + ": " + text(from_seq(x)) + " and " + text(from_seq(y)); });
        };
        same_word((A * B) * D, A * (B * D), "(ab)d = a(bd)");
        same_word(A.conjugate().conjugate(), A, "a** = a");
        same_word((A * B).conjugate(), B.conjugate() * A.conjugate(), "(ab)* = b*a*");
        same_word(A * ctx.identity(), A, "a1 = a");
        same_word(A * ctx.zero(), ctx.zero(), "a0 = 0");
        auto gic = ctx.get_if_canonical(store(a));
        auto plain = to_seq(ctx, a);
        c.check(gic.has_value() == (!plain.zero() && ops_of(plain) == a && plain.get_sign() == SequenceSignType::Positive), "get_if_canonical " + text(a));
        if (s.commutative) same_word(A * B, B * A, "ab = ba");
        auto cj = A.conjugate();
        auto wa = from_seq(A), wc = from_seq(cj);
        Word minus = wa;
        minus.sign = (wa.sign + 2) & 3;
        auto want = wa.zero ? HermitianType::Zero : wc == wa ? HermitianType::Hermitian : wc == minus ? HermitianType::AntiHermitian : HermitianType::NotHermitian;
        c.check(A.hermitian_type() == want, "hermitian_type of " + text(wa));
    }
}

LAW(one_rule, "the left-hand sides overlap, or one rule is within the other", 30000, 900000) {
    // two rules that hold in a representation, taken by themselves
    auto s = gen_algebra(c, 3, 4, 4);
    if (s.rules.empty()) throw pbt::Discard{};
    auto pc = s.precontext();
    auto rules = s.lib_rules();
    auto &a = c.pick(rules), &b = c.pick(rules);
    Word ra = from_hashed(a.RHS()), rb = from_hashed(b.RHS());
    Ops la = ops_of(a.LHS()), lb = ops_of(b.LHS());
    c.note(text(la) + "->" + text(ra) + "  " + text(lb) + "->" + text(rb));
    c.check(s.value(la) == s.value(ra), "rule differs from the relation it was made of");
    c.check(a.implies_zero() == ra.zero && a.trivial() == (!ra.zero && ra.ops == la && ra.sign == 0), "implies_zero, trivial");
    if (a.trivial() || b.trivial()) return;
    // conjugate
    auto cj = a.conjugate(pc);
    c.check(s.value(ops_of(cj.LHS())) == s.value(from_hashed(cj.RHS())), "conjugate is not a consequence");
    Word cl{false, 0, s.conj(la)}, cr = ra.zero ? Zero() : Word{false, (4 - ra.sign) & 3, s.conj(ra.ops)};
    Word gl{false, 0, ops_of(cj.LHS())}, gr = from_hashed(cj.RHS());
    if (!ra.zero && gl.ops != cl.ops) { std::swap(cl, cr); cr.sign = (cr.sign - cl.sign + 4) & 3; cl.sign = 0; }
    c.checkf(gl == cl && gr == cr, [&] { return "conjugate is " + text(gl.ops) + "->" + text(gr); });
    // overlaps
    size_t overlap = 0;
    for (size_t k = 1; k <= std::min(la.size(), lb.size()); ++k) if (std::equal(lb.begin(), lb.begin() + static_cast<long>(k), la.end() - static_cast<long>(k))) overlap = k;
    c.check(a.LHS().suffix_prefix_overlap(b.LHS()) == static_cast<ptrdiff_t>(overlap), pbt::str("overlap ", a.LHS().suffix_prefix_overlap(b.LHS()), ", expected ", overlap));
    auto longest = la.size() + lb.size();
    if (longest > max_hashable(s.n)) throw pbt::Discard{};
    auto both = a.combine(b, pc);
    c.check(both.has_value() == (overlap > 0), "rules are combined only if they overlap");
    auto follows = [&](const OperatorRule& r, const std::string& what) {
        if (r.LHS().zero()) { c.check(r.RHS().zero(), what + "0 -> " + text(from_hashed(r.RHS()))); return; }
        c.checkf(s.value(ops_of(r.LHS())) == s.value(from_hashed(r.RHS())), [&] { return what + text(ops_of(r.LHS())) + "->" + text(from_hashed(r.RHS())) + " does not follow"; });
    };
    if (both) follows(*both, "combined: ");
    for (size_t k = 0; k < la.size() + 1; ++k) {
        bool meet = k < la.size();
        for (size_t i = 0; meet && k + i < la.size() && i < lb.size(); ++i) meet = la[k + i] == lb[i];
        auto at = a.combine(b, k, pc);
        c.check(at.has_value() == meet, pbt::str("combined at ", k));
        if (at) follows(*at, pbt::str("combined at ", k, ": "));
    }
    // matches
    auto w = rword(c, s, 10);
    auto raw = store(w);
    std::vector<size_t> at, got;
    for (size_t p = find_at(w, la, 0); p != std::string::npos; p = find_at(w, la, p + 1)) at.push_back(p);
    for (auto i = a.matches_anywhere(raw.begin(), raw.end()); i != raw.end(); i = a.matches_anywhere(i + 1, raw.end())) got.push_back(static_cast<size_t>(i - raw.begin()));
    c.check(la.empty() || at == got, "matches of the rule in a word");
    if (!at.empty() && !la.empty()) {
        auto p = c.pick(at);
        Ops want;
        if (!ra.zero) { want.assign(w.begin(), w.begin() + static_cast<long>(p)); want.insert(want.end(), ra.ops.begin(), ra.ops.end()); want.insert(want.end(), w.begin() + static_cast<long>(p + la.size()), w.end()); }
        auto out = a.apply_match_with_hint(raw, raw.begin() + static_cast<ptrdiff_t>(p));
        c.check(Ops(out.begin(), out.end()) == want, pbt::str("applied at ", p));
    }
    // does one imply the other, by what surrounds it?
    auto within = [&](const Ops& l1, const Word& r1, const Ops& l2, const Word& r2) {
        if (r1.zero != r2.zero || r1.sign != r2.sign) return false;
        for (size_t p = find_at(l2, l1, 0); p != std::string::npos; p = find_at(l2, l1, p + 1)) {
            if (r1.zero) return true;
            Ops x(l2.begin(), l2.begin() + static_cast<long>(p));
            x.insert(x.end(), r1.ops.begin(), r1.ops.end());
            x.insert(x.end(), l2.begin() + static_cast<long>(p + l1.size()), l2.end());
            if (x == r2.ops) return true;
        }
        return false;
    };
    c.check(a.implies(b) == within(la, ra, lb, rb), "a implies b");
    // and a rule made by surrounding the first
    Ops u = rword(c, s, 2), v = rword(c, s, 2), l3 = u, r3 = u;
    l3.insert(l3.end(), la.begin(), la.end()); l3.insert(l3.end(), v.begin(), v.end());
    r3.insert(r3.end(), ra.ops.begin(), ra.ops.end()); r3.insert(r3.end(), v.begin(), v.end());
    int off = c.chance(30) ? static_cast<int>(1 + c.below(3)) : 0;
    if (l3.size() <= max_hashable(s.n) && !la.empty()) {
        OperatorRule wide{s.hashed(l3), ra.zero ? HashedSequence{true} : s.hashed(r3, (ra.sign + off) & 3)};
        Word rw = ra.zero ? Zero() : Word{false, (ra.sign + off) & 3, r3};
        c.check(a.implies(wide) == within(la, ra, l3, rw), "rule surrounded by " + text(u) + " and " + text(v) + (off && !ra.zero ? ", with another sign" : ""));
    }
    c.nontrivial(overlap > 0 || find_at(lb, la, 0) != std::string::npos);
}

LAW(one_by_one, "a rule is added that meets another with the same left-hand side", 12000, 400000) {
    // rules added one at a time, some between attempts at completion, say no less and no more than all at once
    auto s = gen_algebra(c, 3, 5, 4);
    c.note(s.text());
    auto rules = s.lib_rules();
    OperatorRulebook rb{s.precontext()};
    Logger log{s.n};
    size_t given = 0;
    for (auto& r : rules) {
        auto before = read(rb);
        bool meets = rb.rules().contains(r.LHS().hash());
        bool logged = c.coin();
        auto n = rb.add_rule(r, logged ? &log : nullptr);
        ++given;
        c.check(n == static_cast<ptrdiff_t>(rb.size()) - static_cast<ptrdiff_t>(before.size()) || meets, pbt::str("said to have added ", n));
        if (r.trivial()) c.check(n == 0 && rb.size() == before.size(), "a trivial rule is added");
        if (meets) c.nontrivial();
        for (auto& q : read(rb)) {
            c.check(s.value(q.lhs) == s.value(q.rhs), "rule does not follow: " + text(q.lhs) + " -> " + text(q.rhs));
            c.check(!(q.rhs.zero && q.rhs.sign != 0), "zero with a sign");
        }
        size_t mag = rb.size() == 0 ? 0 : rb.size() == 1 ? 1 : static_cast<size_t>(std::ceil(std::log2(static_cast<double>(rb.size())) - 1e-9));
        c.check(rb.magnitude() == mag, "magnitude");
        if (c.chance(20)) rb.complete(static_cast<size_t>(c.below(6)), &log);
    }
    bool ok = rb.complete(static_cast<size_t>(c.range(0, 24)), &log);
    if (std::max(log.longest, longest_rule(rb)) * 2 > max_hashable(s.n)) throw pbt::Discard{};
    c.label(ok ? "completed" : "not completed");
    if (!ok) return;
    for (auto r : s.rules) for (int k = 0; k < 2; ++k) {
        auto l = from_hashed(rb.reduce(s.hashed(r.lhs))), x = r.zero ? Zero() : from_hashed(rb.reduce(s.hashed(r.rhs, r.sign)));
        c.checkf(l == x, [&] { return "supplied relation lost: " + text(r.lhs) + " reduces to " + text(l) + ", its right-hand side to " + text(x); });
        r.lhs = s.conj(r.lhs); r.rhs = s.conj(r.rhs); r.sign = (4 - r.sign) & 3;
    }
    OperatorRulebook all{s.precontext(), rules};
    Logger log2{s.n};
    if (!all.complete(24, &log2) || std::max(log2.longest, longest_rule(all)) * 2 > max_hashable(s.n)) return;
    for (int t = 0; t < 8; ++t) {
        Word w{false, static_cast<int>(c.below(4)), rword(c, s, 9)};
        auto x = from_hashed(rb.reduce(s.hashed(w.ops, w.sign))), y = from_hashed(all.reduce(s.hashed(w.ops, w.sign)));
        c.checkf(x == y, [&] { return text(w) + " reduces to " + text(x) + " one by one, and " + text(y) + " at once"; });
    }
}

namespace {
    /** Writes what happens as the library's own log should, rule by rule from the operators. */
    struct Scribe : RuleLogger {
        std::ostringstream out;
        const NameTable* names;
        explicit Scribe(const NameTable* names) : names{names} {}
        std::string word(const Word& w, bool sign) const {
            static const char* phase[4] = {"", "i", "-", "-i"};
            if (w.zero) return "0";
            std::string s = sign ? phase[w.sign] : "";
            if (w.ops.empty()) return s + "I";
            for (auto o : w.ops) s += names ? (*names)[static_cast<size_t>(o)] : pbt::str("X", o);
            return s;
        }
        std::string rule(const OperatorRule& r) const { return word(from_hashed(r.LHS()), false) + " -> " + word(from_hashed(r.RHS()), true); }
        void rule_reduced(const OperatorRule& a, const OperatorRule& b) override { out << "Reduce:\t" << rule(a) << "\n  |-\t" << rule(b) << "\n"; }
        void rule_removed(const OperatorRule& a) override { out << "Remove:\t" << rule(a) << "\n"; }
        void rule_introduced(const OperatorRule& a) override { out << "Directly added:\t" << rule(a) << "\n"; }
        void rule_introduced(const OperatorRule& a, const OperatorRule& b, const OperatorRule& n) override {
            out << "Combine:\t" << rule(a) << "\tand " << rule(b) << ":\n  |-\t" << rule(n) << "\n";
        }
        void rule_introduced_conjugate(const OperatorRule& a, const OperatorRule& n) override { out << "Conjugate:\t" << rule(a) << ":\n  |-\t" << rule(n) << "\n"; }
        void success(const OperatorRulebook&, size_t k) override { out << "The rule set was successfully completed after " << k << (k == 1 ? " new rule.\n" : " new rules.\n"); }
        void failure(const OperatorRulebook&, size_t k) override { out << "The rule set is still incomplete, after " << k << (k == 1 ? " new rule.\n" : " new rules.\n"); }
    };
}

LAW(context_completion, "completing the rules changes the rulebook", 12000, 400000) {
    // what a scenario says of its rules is what its rulebook says, at any time; and so is what it prints
    auto s = gen_algebra(c, 3, 4, 4);
    c.note(s.text());
    bool normal = c.coin();
    AlgebraicContext ctx{s.precontext(), s.commutative, normal, s.lib_rules()}, twin{s.precontext(), s.commutative, normal, s.lib_rules()};
    auto known = [&]() -> std::optional<bool> { try { return std::as_const(ctx).is_complete(); } catch (const std::runtime_error&) { return std::nullopt; } };
    bool expect_known = ctx.rulebook().size() == 0;
    bool changed = false;
    for (int step = 0, steps = static_cast<int>(c.range(1, 4)); step < steps; ++step) {
        auto k = known();
        c.check(k.has_value() == expect_known, "whether completeness is known");
        if (k) c.check(*k == ctx.rulebook().is_complete(), pbt::str("said to be ", *k ? "" : "in", "complete"));
        c.check(ctx.can_make_unexpected_nonhermitian_matrices() == (!k || !*k), "can_make_unexpected_nonhermitian_matrices");
        if (c.chance(35)) {
            auto before = ctx.rulebook().size();
            c.check(ctx.is_complete() == ctx.rulebook().is_complete() && ctx.rulebook().size() == before, "is_complete");
            expect_known = true;
            continue;
        }
        auto before = show(read(ctx.rulebook()));
        std::ostringstream os;
        bool use_names = c.coin();
        Scribe scribe{use_names ? &ctx.names() : nullptr};
        OStreamRuleLogger log{os, use_names ? &ctx.names() : nullptr};
        auto most = static_cast<size_t>(c.below(8));
        bool ok = ctx.attempt_completion(most, &log), ok2 = twin.attempt_completion(most, &scribe);
        if (longest_rule(ctx.rulebook()) * 2 > max_hashable(s.n)) throw pbt::Discard{};
        c.check(ok == ok2 && os.str() == scribe.out.str(), [&] { return "log:\n" + os.str() + "--- expected\n" + scribe.out.str(); }());
        c.label(ok ? "complete" : "incomplete");
        expect_known = true;
        changed = changed || before != show(read(ctx.rulebook()));
    }
    c.nontrivial(changed);
    Scribe plain{nullptr};
    std::string book = pbt::str(ctx.self_adjoint ? "Hermitian rule " : "Rule ", "book with ", ctx.rulebook().size(), ctx.rulebook().size() == 1 ? " rule:\n" : " rules:\n"), resolved = "MonomialRules: \n";
    size_t i = 0;
    for (auto& [h, r] : ctx.rulebook().rules()) {
        book += pbt::str("#", ++i, ":\t", plain.rule(r), "\n");
        resolved += "\t" + plain.rule(r) + "\n";
    }
    std::ostringstream os;
    os << ctx.rulebook();
    c.check(os.str() == book + "\n", [&] { return os.str() + "--- expected\n" + book; }());
    c.check(ctx.resolved_rules() == resolved, [&] { return ctx.resolved_rules() + "--- expected\n" + resolved; }());
}
