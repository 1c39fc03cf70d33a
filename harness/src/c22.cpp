// C22: requests that are refused, against a twin of the system which never met them.
#include "../asker.h"
#include "../linear.h"
#include "dictionary/raw_polynomial.h"
#include "scenarios/inflation/factor_table.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/rules/moment_rule.h"
#include "symbolic/rules/moment_rulebook.h"

using namespace Moment;
using namespace model;

namespace {
    [[maybe_unused]] const bool tame = (model::wild_coef = false, true);
    std::string full(const SymbolicMatrix& m) {
        std::ostringstream o;
        o.precision(12);
        o << m.Description() << " " << m.Dimension() << (m.Hermitian() ? " hermitian" : "") << (m.is_monomial() ? " monomial" : "") << " [";
        for (size_t i = 0; i < m.Dimension(); ++i) for (size_t j = 0; j < m.Dimension(); ++j) {
            if (m.is_monomial()) o << dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j); else o << show(dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j));
            o << ", ";
        }
        o << "] symbols " << pbt::join(m.IncludedSymbols()) << " bases " << pbt::join(m.RealBasisIndices()) << " / " << pbt::join(m.ImaginaryBasisIndices());
        return o.str();
    }
    /** All that can be seen of a system. */
    std::vector<std::string> picture(const Asker& a, bool addresses) {
        auto& ms = a.system();
        std::vector<std::string> out;
        auto& st = ms.Symbols();
        for (auto& q : st) out.push_back(pbt::str("symbol #", q.Id(), q.has_sequence() ? " " + text(from_seq(q.sequence())) + ", conjugate " + text(from_seq(q.sequence_conj())) : "", q.is_hermitian() ? " H" : "", q.is_antihermitian() ? " A" : "", " basis ", q.basis_key().first, ",", q.basis_key().second));
        out.push_back(pbt::str("bases ", pbt::join(st.Basis.RealSymbols()), " / ", pbt::join(st.Basis.ImaginarySymbols())));
        out.push_back(pbt::str(ms.size(), " matrices"));
        for (size_t n = 0; n < ms.size(); ++n) {
            std::string s = pbt::str("matrix ", n, ": ");
            try {
                auto& m = ms[static_cast<ptrdiff_t>(n)];
                s += full(m);
                if (addresses) s += pbt::str(" at ", static_cast<const void*>(&m));
            } catch (const errors::missing_component&) { s += "none"; }
            out.push_back(s);
        }
        out.push_back(pbt::str(ms.Rulebook.size(), " rulebooks"));
        for (size_t n = 0; n < ms.Rulebook.size(); ++n) {
            auto& rb = ms.Rulebook(n);
            std::string s = pbt::str("rulebook ", n, " \"", rb.name(), "\" ", rb.is_monomial() ? "monomial " : "", rb.is_hermitian() ? "hermitian " : "", rb.pending_rules() ? "pending " : "", rb.in_use() ? "used " : "", rb.size(), " rules ", show(rb));
            if (addresses) s += pbt::str(" at ", static_cast<const void*>(&rb));
            out.push_back(s);
        }
        if (a.inflation) {
            std::string s = "factors ";
            auto& f = a.inflation->Factors();
            for (size_t n = 0; n < f.size(); ++n) s += pbt::str(n, ": ", f[n].id, " = ", pbt::join(f[n].canonical.symbols), "; ");
            out.push_back(s);
        }
        return out;
    }
    std::string difference(const std::vector<std::string>& a, const std::vector<std::string>& b) {
        for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
            std::string x = i < a.size() ? a[i] : "nothing", y = i < b.size() ? b[i] : "nothing";
            if (x != y) return x.substr(0, 500) + "   became   " + y.substr(0, 500);
        }
        return {};
    }

    /** The choices made since then, to be made again. */
    pbt::Case retake(const pbt::Case& c, size_t from) {
        std::vector<uint64_t> tape;
        for (size_t k = from; k < std::min(c.pos, c.tape_.size()); ++k) tape.push_back(c.tape_[k]);
        return pbt::Case{std::move(tape), c.size()};
    }
    /** Something to be tried; whatever is needed for it was made beforehand. */
    struct Attempt {
        std::string what;
        std::function<void()> go;
        enum { MUST, MAY, MUST_NOT } refuse = MAY;
        std::vector<Request> looked_for;
        bool makes_words = false;
    };
    std::unique_ptr<MomentRulebook> book_of(pbt::Case& c, MatrixSystem& ms, std::string& what) {
        auto book = std::make_unique<MomentRulebook>(ms, c.coin());
        if (c.coin()) book->set_name(pbt::str("book", c.below(3)));
        auto rules = c.chance(60) ? gen_rules(c, ms, 3) : std::vector<Polynomial>{};
        for (auto k = c.below(3); k > 0; --k) {
            auto id = static_cast<symbol_name_t>(2 + c.below(ms.Symbols().size() - 2));
            if (!ms.Symbols()[static_cast<size_t>(id)].is_antihermitian()) rules.push_back(ms.polynomial_factory()({Monomial{id, 1.0}, Monomial{1, c.coin() ? -0.5 : 1.0}}));
        }
        what += book->name() + " {";
        for (auto& r : rules) what += show(r) + " = 0; ";
        what += "}";
        book->add_raw_rules(std::move(rules));
        return book;
    }
    Attempt plan_attempt(pbt::Case& c, Asker& a) {
        auto& ms = a.system();
        Attempt t;
        auto count = static_cast<ptrdiff_t>(ms.size());
        auto there = [&](ptrdiff_t n) { try { (void) ms[n]; return true; } catch (const errors::missing_component&) { return false; } };
        bool all_there = true;
        for (ptrdiff_t n = 0; n < count; ++n) all_there &= there(n);
        auto any_matrix = [&] { return static_cast<ptrdiff_t>(c.below(ms.size() + 3)) - 1; };
        switch (c.below(ms.Symbols().size() < 3 ? 3 : 17)) {
            case 0: case 1: case 2: {
                auto r = a.random(c, true);
                t.what = r.key;
                t.go = [r] { (void) r.create(MTP::Never); };
                if (all_there && !(a.inflation && !ms.Rulebook.empty())) t.refuse = Attempt::MUST_NOT;
                t.makes_words = true;
                return t;
            }
            case 3: case 4: {
                auto src = any_matrix();
                auto rb = static_cast<ptrdiff_t>(c.below(ms.Rulebook.size() + 2)) - (c.chance(10) ? 1 : 0);
                bool ok = there(src) && rb >= 0 && rb < static_cast<ptrdiff_t>(ms.Rulebook.size());
                SubstitutedMatrixIndex index{src, rb};
                auto r = request(ms, ms.SubstitutedMatrix, index, pbt::str("S ", src, " ", rb));
                bool known = r.find_index() >= 0;
                t.what = r.key;
                t.go = [r] { (void) r.create(MTP::Never); };
                t.refuse = known ? Attempt::MAY : ok ? Attempt::MUST_NOT : Attempt::MUST;
                if (!ok && !known) t.looked_for.push_back(r);
                return t;
            }
            case 5: case 6: {
                t.what = "add rulebook ";
                std::shared_ptr<MomentRulebook> book = book_of(c, ms, t.what);
                try { book->complete(); } catch (const std::exception&) { t.what += " which contradicts itself"; t.go = [] { throw std::runtime_error{"skip"}; }; return t; }
                auto holder = std::make_shared<std::unique_ptr<MomentRulebook>>();
                // the storage takes it over, so keep only one owner
                auto copy = std::make_unique<MomentRulebook>(ms);
                (void) copy;
                std::vector<Polynomial> again;
                for (auto& [id, rule] : *book) again.push_back(rule.as_polynomial(ms.polynomial_factory()));
                auto fresh = std::make_unique<MomentRulebook>(ms, c.coin());
                fresh->set_name(book->name());
                fresh->add_raw_rules(std::move(again));
                fresh->complete();
                *holder = std::move(fresh);
                t.go = [holder, &ms] { (void) ms.Rulebook.add(std::move(*holder)); };
                t.refuse = a.inflation ? Attempt::MAY : Attempt::MUST_NOT;
                return t;
            }
            case 7: case 8: case 9: {
                auto n = c.below(ms.Rulebook.size() + 1);
                t.what = pbt::str("merge into rulebook ", n, " ");
                std::shared_ptr<MomentRulebook> book = book_of(c, ms, t.what);
                bool pending = c.chance(10) && book->raw_rule_size() > 0;
                if (!pending) try { book->complete(); } catch (const std::exception&) { t.what += " which contradicts itself"; t.go = [] { throw std::runtime_error{"skip"}; }; return t; }
                if (n == ms.Rulebook.size() || pending || ms.Rulebook(n).in_use()) t.refuse = Attempt::MUST;
                t.go = [book, &ms, n] { (void) ms.Rulebook.merge_in(n, std::move(*book)); };
                return t;
            }
            case 10: {
                if (ms.Rulebook.size() == 0 || c.chance(30)) {
                    t.what = "find a rulebook which is not there";
                    t.refuse = Attempt::MUST;
                    t.go = [&ms] { (void) ms.Rulebook.find(ms.Rulebook.size()); };
                    return t;
                }
                auto n = c.below(ms.Rulebook.size());
                auto& rb = ms.Rulebook(n);
                if (!rb.in_use()) { t.what = "nothing"; t.go = [] { }; return t; }
                t.refuse = Attempt::MUST;
                t.what = pbt::str("change rulebook ", n, ", which is in use, ");
                auto id = static_cast<symbol_name_t>(2 + c.below(ms.Symbols().size() - 2));
                Polynomial p = ms.polynomial_factory()({Monomial{id, 1.0}, Monomial{1, -0.25}});
                switch (c.below(5)) {
                    case 0: t.what += "by a raw rule"; t.go = [&rb, p] { rb.add_raw_rule(Polynomial{p}); }; break;
                    case 1: t.what += "by raw rules"; t.go = [&rb, p] { rb.add_raw_rules(std::vector<Polynomial>{p, p}); }; break;
                    case 2: t.what += "by values"; t.go = [&rb, id] { rb.add_raw_rules(MomentRulebook::raw_map_t{{id, 0.25}}); }; break;
                    case 3: t.what += "by complex values"; t.go = [&rb, id] { rb.add_raw_rules(MomentRulebook::raw_complex_map_t{{id, cd{0.0, 0.25}}}); }; break;
                    default: t.what += "by a rule made outright"; t.go = [&rb, id] { (void) rb.inject(id, Polynomial::Scalar(0.25)); }; break;
                }
                return t;
            }
            case 11: {
                auto n = any_matrix();
                bool ok = there(n), wanted = false;
                for (ptrdiff_t k = 0; k < count && ok; ++k) if (there(k)) if (auto* cm = dynamic_cast<const CompositeMatrix*>(&ms[k])) for (auto [part, factor] : cm->Constituents()) wanted |= part == &ms[n];
                if (wanted || (ok && c.chance(60))) { t.what = "nothing"; t.go = [] { }; return t; }
                t.what = pbt::str("delete ", n);
                t.refuse = ok ? Attempt::MUST_NOT : Attempt::MUST;
                t.go = [&ms, n] { auto lock = ms.get_write_lock(); if (!ms.delete_matrix(lock, n)) throw std::runtime_error{"not deleted"}; };
                return t;
            }
            case 12: {
                auto n = any_matrix();
                t.what = pbt::str("look at matrix ", n);
                t.refuse = there(n) ? Attempt::MUST_NOT : Attempt::MUST;
                t.go = [&ms, n, one = c.coin()] { if (one) (void) ms[n]; else (void) ms.get(n); };
                return t;
            }
            case 13: {      // symbols that do not exist
                auto n = any_matrix();
                if (!there(n)) { t.what = "nothing"; t.go = [] { }; return t; }
                Polynomial::storage_t terms;
                auto bad = static_cast<symbol_name_t>(ms.Symbols().size() + c.below(3));
                if (c.chance(10)) bad = -2;
                for (auto k = 1 + c.below(3); k > 0; --k) terms.emplace_back(static_cast<symbol_name_t>(1 + c.below(ms.Symbols().size() - 1)), c.nice_nonzero(), false);
                terms.emplace_back(bad, 1.0, c.coin());
                if (auto k = c.below(terms.size()); k + 1 < terms.size()) std::swap(*(terms.begin() + static_cast<ptrdiff_t>(k)), *(terms.begin() + static_cast<ptrdiff_t>(terms.size() - 1)));
                Polynomial p{std::move(terms)};
                if (p.size() < 2) { t.what = "nothing"; t.go = [] { }; return t; }
                t.what = pbt::str("product of matrix ", n, " and ", show(p));
                t.refuse = Attempt::MUST;
                t.go = [&ms, n, p, pre = c.coin()] { (void) (pre ? ms[n].pre_multiply(p, ms.polynomial_factory(), ms.Symbols(), MTP::Never) : ms[n].post_multiply(p, ms.polynomial_factory(), ms.Symbols(), MTP::Never)); };
                return t;
            }
            case 14: {
                if (a.inflation) {
                    size_t level = c.below(a.top + 1);
                    try { ms.MomentMatrix(level); } catch (const std::exception&) { t.what = "nothing"; t.go = [] { }; return t; }     // what is extended is made first
                    std::set<symbol_name_t> by{static_cast<symbol_name_t>(c.chance(20) ? -1 : static_cast<ptrdiff_t>(ms.Symbols().size() + 100000))};
                    for (auto k = c.below(2); k > 0; --k) by.insert(static_cast<symbol_name_t>(1 + c.below(ms.Symbols().size() - 1)));
                    auto r = request(*a.inflation, a.inflation->ExtendedMatrices, Inflation::ExtendedMatrixIndex{level, by}, "E");
                    t.what = pbt::str("level ", level, " moment matrix, extended by ", pbt::join(by));
                    t.refuse = Attempt::MUST;
                    t.go = [r] { (void) r.create(MTP::Never); };
                    t.looked_for.push_back(r);
                    return t;
                }
                if (a.pauli && a.pauli->pauliContext.is_lattice()) {
                    size_t level = 1 + c.below(a.top + 1), nn = 2 + c.below(2);
                    auto r = request(*a.pauli, a.pauli->PauliMomentMatrices, mp::MomentMatrixIndex{level, nn}, "M");
                    t.what = pbt::str("level ", level, " moment matrix, of neighbours up to ", nn);
                    if (level > 1) { t.refuse = Attempt::MUST; t.looked_for.push_back(r); }
                    t.go = [r] { (void) r.create(MTP::Never); };
                    return t;
                }
                t.what = "nothing"; t.go = [] { };
                return t;
            }
            case 15: {
                RawPolynomial raw;
                bool known = true;
                for (auto k = 1 + c.below(3); k > 0; --k) {
                    auto w = to_seq(a.scene.context(), a.scene.word(c, 4), static_cast<int>(c.below(4)));
                    known &= ms.Symbols().where(ms.Context().can_have_aliases() ? ms.Context().simplify_as_moment(OperatorSequence{w}) : w).found();
                    raw.emplace_back(w, cd{1.0});
                }
                t.what = std::string{"a polynomial of "} + (known ? "known words" : "unknown words");
                t.refuse = known ? Attempt::MUST_NOT : Attempt::MUST;
                const MatrixSystem& cms = ms;
                t.go = [raw, &cms] { (void) cms.polynomial_factory().construct(raw); };
                return t;
            }
            default: {      // products and sums
                auto n = any_matrix(), k = any_matrix();
                if (!there(n) || !there(k)) { t.what = "nothing"; t.go = [] { }; return t; }
                auto put = [&ms](std::unique_ptr<SymbolicMatrix> m) { auto lock = ms.get_write_lock(); (void) ms.push_back(lock, std::move(m)); };
                auto keep = c.coin();
                if (c.coin()) {
                    t.what = pbt::str("sum of matrices ", n, " and ", k);
                    t.go = [&ms, n, k, put] { put(ms[n].add(ms[k], ms.polynomial_factory(), MTP::Never)); };
                } else {
                    auto w = to_seq(a.scene.context(), a.scene.word(c, 1), static_cast<int>(c.below(4)));
                    auto pre = c.coin();
                    t.what = pbt::str("product of matrix ", n, " and ", text(from_seq(w)));
                    t.go = [&ms, n, w, put, pre] { put(pre ? ms[n].pre_multiply(w, cd{1.0}, ms.polynomial_factory(), ms.Symbols(), MTP::Never) : ms[n].post_multiply(w, cd{1.0}, ms.polynomial_factory(), ms.Symbols(), MTP::Never)); };
                }
                (void) keep;
                return t;
            }
        }
    }
    Attempt gen_attempt(pbt::Case& c, Asker& a) {
        auto t = plan_attempt(c, a);
        // words the plan gave to the symbol table itself
        if (a.inflation) a.inflation->Factors().on_new_symbols_added();
        return t;
    }
}

LAW(refused_requests, "a request was refused, and another was granted later", 8000, 200000) {
    auto a = gen_asker(c);
    auto again = retake(c, 0);
    auto b = gen_asker(again);
    c.note(a.scene.name);
    c.label(kind_name[a.scene.kind]);
    bool refused_before = false;
    for (auto steps = 2 + c.below(12); steps > 0; --steps) {
        auto from = c.pos;
        auto t = gen_attempt(c, a);
        auto same = retake(c, from);
        auto u = gen_attempt(same, b);
        if (t.what == "nothing") continue;
        c.checkf(t.what == u.what && t.refuse == u.refuse, [&] { return "the twin has come to differ: " + t.what + " against " + u.what; });
        c.note(t.what);
        auto before = picture(a, true);
        std::string why;
        bool refused = false;
        try { t.go(); } catch (const std::exception& e) { refused = true; why = e.what(); }
        c.checkf(!refused || t.refuse != Attempt::MUST_NOT, [&] { return t.what + " is refused: " + why; });
        c.checkf(refused || t.refuse != Attempt::MUST, [&] { return t.what + " is granted"; });
        if (refused && t.makes_words && a.inflation && !a.system().Rulebook.empty()) {
            // the words are there now, but rules could not be carried over to them
            for (size_t n = 0; n < a.system().Rulebook.size(); ++n) c.check(!a.system().Rulebook(n).pending_rules(), pbt::str("rulebook ", n, " was left with rules pending"));
            c.label("rules that cannot be expanded");
            return;
        }
        if (refused) {
            auto after = picture(a, true);
            c.checkf(before == after, [&] { return t.what + " was refused (" + why + "), but " + difference(before, after); });
            for (auto& r : t.looked_for) c.check(!r.contains() && r.find_index() < 0, t.what + " was refused, but is found");
            c.label("refused");
            if (why != "skip") refused_before = true;
        } else {
            bool twin_refused = false;
            try { u.go(); } catch (const std::exception& e) { twin_refused = true; why = e.what(); }
            c.check(!twin_refused, t.what + " is refused by the twin: " + why);
            if (refused_before && t.what.find("look at") == std::string::npos) c.nontrivial();
        }
        auto x = picture(a, false), y = picture(b, false);
        c.checkf(x == y, [&] { return "after " + t.what + " and what was refused before it, " + difference(y, x); });
    }
}
