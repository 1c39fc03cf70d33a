// C15: Collins-Gisin, probability and full-correlator tensors, against inclusion-exclusion on moments of words.
#include "../pbt.h"
#include "../scene.h"
#include "../poly_gen.h"
#include "../linear.h"
#include "matrix_system/matrix_system.h"
#include "probability/collins_gisin.h"
#include "probability/full_correlator.h"
#include "probability/probability_tensor.h"
#include "probability/virtual_polynomial_view.h"
#include "scenarios/inflation/inflation_collins_gisin.h"
#include "scenarios/inflation/inflation_context.h"
#include "scenarios/inflation/inflation_full_correlator.h"
#include "scenarios/inflation/inflation_probability_tensor.h"
#include "scenarios/locality/locality_collins_gisin.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/locality/locality_full_correlator.h"
#include "scenarios/locality/locality_probability_tensor.h"
#include "scenarios/locality/tensor_conversion.h"
#include "symbolic/rules/moment_rulebook.h"
#include <barrier>
#include <thread>

using namespace Moment;
using namespace model;
namespace ml = Moment::Locality;
namespace mi = Moment::Inflation;

namespace {
    /** A word with a coefficient */
    using Sum = std::map<Ops, double>;
    Sum times(const Sum& a, const Sum& b) {
        Sum r;
        for (auto& [u, x] : a) for (auto& [v, y] : b) { Ops w = u; w.insert(w.end(), v.begin(), v.end()); r[w] += x * y; }
        return r;
    }

    struct Mmt { int dim, local, outcomes; bool has_implicit; std::vector<int> ops; };   ///< ops: operators of explicit outcomes

    /** The layout of measurements: one dimension per party, or per variant of an observable. */
    struct Layout {
        std::vector<Mmt> mmts;                          ///< globally numbered
        std::vector<std::vector<size_t>> at;            ///< by dimension: numbers of its measurements
        std::vector<size_t> cg_dims, pt_dims;
        std::vector<std::vector<int>> cg_slots;         ///< by dimension: operators; first is -1
        std::vector<std::vector<Sum>> pt_slots;         ///< by dimension
        std::vector<size_t> cg_first, pt_first;         ///< by measurement: first slot
        void finish(size_t dims) {
            at.resize(dims); cg_slots.assign(dims, {-1}); pt_slots.assign(dims, {Sum{{Ops{}, 1.0}}});
            for (size_t m = 0; m < mmts.size(); ++m) {
                auto& x = mmts[m];
                auto d = static_cast<size_t>(x.dim);
                at[d].push_back(m);
                cg_first.push_back(cg_slots[d].size());
                pt_first.push_back(pt_slots[d].size());
                Sum rest{{Ops{}, 1.0}};
                for (int o : x.ops) { cg_slots[d].push_back(o); pt_slots[d].push_back(Sum{{Ops{o}, 1.0}}); rest[Ops{o}] -= 1.0; }
                if (x.has_implicit) pt_slots[d].push_back(rest);
            }
            for (auto& s : cg_slots) cg_dims.push_back(s.size());
            for (auto& s : pt_slots) pt_dims.push_back(s.size());
        }
        size_t pt_outcomes(size_t m) const { return mmts[m].ops.size() + (mmts[m].has_implicit ? 1 : 0); }
        Sum probability(std::span<const size_t> index) const {
            Sum s{{Ops{}, 1.0}};
            for (size_t d = 0; d < index.size(); ++d) s = times(s, pt_slots[d].at(index[d]));
            return s;
        }
        Ops cg_word(std::span<const size_t> index) const {
            Ops w;
            for (size_t d = 0; d < index.size(); ++d) if (index[d] > 0) w.push_back(cg_slots[d].at(index[d]));
            return w;
        }
        bool binary() const { return std::all_of(mmts.begin(), mmts.end(), [](auto& m) { return m.outcomes == 2; }); }
        Sum correlator(std::span<const size_t> index) const {   // indices: measurement of that dimension, plus one
            Sum s{{Ops{}, 1.0}};
            for (size_t d = 0; d < index.size(); ++d) if (index[d] > 0) {
                s = times(s, Sum{{Ops{mmts[at[d].at(index[d] - 1)].ops.at(0)}, 2.0}, {Ops{}, -1.0}});
            }
            return s;
        }
    };
    size_t count(const std::vector<size_t>& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
    std::vector<size_t> unflatten(size_t i, const std::vector<size_t>& dims) {
        std::vector<size_t> r;
        for (auto d : dims) { r.push_back(i % d); i /= d; }
        return r;
    }

    struct World {
        Scene scene;
        Layout lay;
        ml::LocalityMatrixSystem* loc = nullptr;
        mi::InflationMatrixSystem* infl = nullptr;
        MaintainsTensors* sys = nullptr;
        std::set<Ops> known;                    ///< moments in the symbol table
        std::vector<cd> values;                 ///< of symbols
        void refresh() {
            known.clear();
            for (auto& s : sys->Symbols()) if (s.has_sequence() && !s.sequence().zero()) known.insert(scene.key(from_seq(s.sequence()).ops));
            values = scene.symbol_values(sys->Symbols());
        }
        bool has(const Ops& raw) const { auto w = scene.normal(raw); return known.contains(scene.key(w.ops)); }
        bool has(const Sum& s) const { for (auto& [w, x] : s) if (!has(w)) return false; return true; }
        double value(const Ops& raw) const { return scene.value(scene.normal(raw)).real(); }
        double value(const Sum& s) const { double v = 0; for (auto& [w, x] : s) v += x * value(w); return v; }
        std::vector<size_t> cg_index(symbol_name_t id) const { return unflatten(static_cast<size_t>(id) - 1, lay.cg_dims); }
    };

    model::Locality gen_layout(pbt::Case& c) {
        auto kind = c.below(20);
        if (kind == 0) {        // many measurements for each of two
            int out = static_cast<int>(c.range(2, 4)), n = (33 + out - 2) / (out - 1) + static_cast<int>(c.below(3));
            std::vector<int> mm(static_cast<size_t>(n), out); return model::Locality{{mm, mm}};
        }
        if (kind == 1) return model::Locality{std::vector<std::vector<int>>(static_cast<size_t>(c.range(6, 11)), {static_cast<int>(c.range(2, 2))})};
        if (kind < 9) return gen_locality(c, 4, 3, 2, 2, 1, 12, true);
        return gen_locality(c, 4, 3, 4, 1, 1, 9, true);
    }

    World gen_world(pbt::Case& c, bool locality_only = false) {
        World w;
        auto& s = w.scene;
        s.seed = c.below(1u << 20);
        if (locality_only || c.chance(60)) {
            s.kind = LOC;
            s.loc = std::make_shared<model::Locality>(gen_layout(c));
            s.ref = s.loc;
            s.n = s.loc->n;
            s.name = s.loc->text();
            auto sys = std::make_unique<ml::LocalityMatrixSystem>(s.loc->make(), 1e6);
            w.loc = sys.get(); w.sys = sys.get();
            s.system = std::move(sys);
            for (size_t p = 0; p < s.loc->outcomes.size(); ++p) for (size_t m = 0; m < s.loc->outcomes[p].size(); ++m)
                w.lay.mmts.push_back({static_cast<int>(p), static_cast<int>(m), s.loc->outcomes[p][m], true, s.loc->op_at[p][m]});
            w.lay.finish(s.loc->outcomes.size());
        } else {
            s.kind = INFL;
            s.net = std::make_shared<InflatedNet>(gen_inflation(c, 4, 3, 2, 9, 3));
            s.ref = s.net;
            s.n = s.net->n;
            s.name = s.net->text();
            auto sys = std::make_unique<mi::InflationMatrixSystem>(s.net->make(), 1e6);
            w.infl = sys.get(); w.sys = sys.get();
            s.system = std::move(sys);
            int d = 0;
            for (size_t o = 0; o < s.net->outcomes.size(); ++o) for (size_t v = 0; v < s.net->first_op[o].size(); ++v) {
                int k = s.net->outcomes[o];
                Mmt m{d++, 0, k, k != 0, {}};
                for (int x = 0; x < (k == 0 ? 1 : k - 1); ++x) m.ops.push_back(s.net->first_op[o][v] + x);
                w.lay.mmts.push_back(m);
            }
            w.lay.finish(static_cast<size_t>(d));
        }
        s.max_len = max_hashable(s.n) / 2;
        s.ctx = &s.system->Context();
        c.note(s.name);
        c.label(kind_name[s.kind]);
        if (s.n == 0) throw pbt::Discard{};
        // words of the tensors must be expressible
        if (w.lay.cg_dims.size() > max_hashable(s.n)) throw pbt::Discard{};
        return w;
    }

    /** Make some more symbols known */
    void grow(pbt::Case& c, World& w) {
        size_t total = count(w.lay.cg_dims);
        auto lock = w.sys->get_write_lock();
        auto& st = w.sys->Symbols();
        switch (c.below(5)) {
            case 0:
                lock.unlock();
                c.note("moment matrix 1");
                (void) w.sys->MomentMatrix(1);
                break;
            case 1:
                lock.unlock();
                if (w.scene.n <= 6 && w.scene.max_len >= 2) { c.note("moment matrix 2"); (void) w.sys->MomentMatrix(2); }
                break;
            case 2:
                if (total <= 2000) {
                    c.note("all");
                    for (size_t i = 0; i < total; ++i) (void) st.merge_in(to_seq(*w.scene.ctx, w.lay.cg_word(unflatten(i, w.lay.cg_dims))));
                }
                break;
            default:
                for (auto k = c.below(2 * w.lay.cg_dims.size() + 3); k > 0; --k) {
                    auto word = w.lay.cg_word(unflatten(c.below(total), w.lay.cg_dims));
                    c.note("+" + text(word));
                    (void) st.merge_in(to_seq(*w.scene.ctx, word));
                }
        }
    }

    std::vector<size_t> which(pbt::Case& c, size_t total, size_t most) {
        std::vector<size_t> r;
        if (total <= most) { for (size_t i = 0; i < total; ++i) r.push_back(i); }
        else { for (size_t i = 0; i < most; ++i) r.push_back(c.below(total)); r.push_back(total - 1); }
        return r;
    }

    void check_element(pbt::Case& c, const World& w, const PolynomialElement& e, const Sum& want, const std::string& where) {
        double v = w.value(want);
        cd cg = 0;
        std::set<symbol_name_t> ids;
        for (auto& m : e.cgPolynomial) {
            c.checkf(m.id >= 1 && static_cast<size_t>(m.id) <= count(w.lay.cg_dims), [&] { return where + ": index out of the Collins-Gisin tensor"; });
            c.checkf(ids.insert(m.id).second, [&] { return where + ": element of the Collins-Gisin tensor twice"; });
            c.check(!m.conjugated, "conjugated element");
            cg += m.factor * w.value(w.lay.cg_word(w.cg_index(m.id)));
        }
        c.checkf(pbt::close(cg, v), [&] { return pbt::str(where, ": as Collins-Gisin elements is ", cg, " should be ", v); });
        bool found = w.has(want);
        c.checkf(e.hasSymbolPoly == found, [&] { return where + (found ? ": not expressed in symbols, though all exist" : ": expressed in symbols, though some do not exist"); });
        if (found) {
            auto x = eval(e.symbolPolynomial, w.values);
            c.checkf(pbt::close(x, v), [&] { return pbt::str(where, ": ", show(e.symbolPolynomial), " is ", x, " should be ", v); });
        }
    }
    bool same(const PolynomialElement& a, const PolynomialElement& b) {
        auto eq = [](const Polynomial& p, const Polynomial& q) {
            std::map<symbol_name_t, cd> m;
            for (auto& x : p) m[x.id] += x.factor;
            for (auto& x : q) m[x.id] -= x.factor;
            return std::all_of(m.begin(), m.end(), [](auto& x) { return std::abs(x.second) < 1e-9; });
        };
        return a.hasSymbolPoly == b.hasSymbolPoly && eq(a.cgPolynomial, b.cgPolynomial) && (!a.hasSymbolPoly || eq(a.symbolPolynomial, b.symbolPolynomial));
    }

    void check_cg(pbt::Case& c, const World& w) {
        auto& cg = w.sys->CollinsGisin();
        auto& st = w.sys->Symbols();
        c.check(cg.Dimensions == w.lay.cg_dims && cg.ElementCount == count(w.lay.cg_dims), "dimensions of the Collins-Gisin tensor");
        bool is_explicit = cg.StorageType == TensorStorageType::Explicit;
        c.check(is_explicit == (cg.ElementCount <= 1024), "storage");
        c.label(is_explicit ? "cg stored" : "cg virtual");
        bool all = true;
        for (auto i : which(c, cg.ElementCount, 600)) {
            auto idx = unflatten(i, w.lay.cg_dims);
            auto word = w.lay.cg_word(idx);
            auto e = cg(idx);
            auto e2 = cg.at(i);
            auto name = [&] { return "Collins-Gisin [" + pbt::join(idx) + "]"; };
            auto want = w.scene.normal(word);
            c.checkf(from_seq(e->sequence).ops == want.ops && from_seq(e->sequence).sign == 0 && !e->sequence.zero(), [&] { return name() + ": word is " + text(from_seq(e->sequence)) + ", should be " + text(want); });
            c.checkf(e2->sequence == e->sequence && e2->symbol_id == e->symbol_id, [&] { return name() + ": by offset"; });
            bool found = w.known.contains(w.scene.key(want.ops));
            c.checkf((e->symbol_id >= 0) == found, [&] { return name() + (found ? ": symbol not found" : ": unknown symbol"); });
            all = all && found;
            if (!found) { if (is_explicit) c.checkf(cg.MissingSymbols().contains(i), [&] { return name() + ": not listed as missing"; }); continue; }
            if (is_explicit) c.checkf(!cg.MissingSymbols().contains(i), [&] { return name() + ": listed as missing"; });
            auto& sym = st[static_cast<size_t>(e->symbol_id)];
            c.checkf(pbt::close(w.values.at(static_cast<size_t>(e->symbol_id)), w.value(word)), [&] { return name() + ": symbol of another value"; });
            c.checkf(e->real_index == sym.basis_key().first && e->real_index >= 0, [&] { return name() + ": index in the basis"; });
            c.checkf(e2->real_index == e->real_index && e2->is_alias == e->is_alias, [&] { return name() + ": by offset"; });
            c.checkf(e->is_alias == (sym.sequence() != e->sequence), [&] { return name() + ": alias flag"; });
        }
        if (is_explicit) c.check(cg.HasAllSymbols() == all, "HasAllSymbols()");
        if (cg.ElementCount <= 600) {
            size_t n = 0;
            for (auto it = cg.begin(); it != cg.end(); ++it) {
                c.check(it.offset() == n && it.index() == unflatten(n, w.lay.cg_dims), "position in iteration");
                c.check(from_seq(it->sequence).ops == w.scene.normal(w.lay.cg_word(it.index())).ops, "element in iteration");
                ++n;
            }
            c.check(n == cg.ElementCount, "iteration over the whole tensor");
        }
    }

    void check_pt(pbt::Case& c, const World& w, const ProbabilityTensor& pt) {
        c.check(pt.Dimensions == w.lay.pt_dims && pt.ElementCount == count(w.lay.pt_dims), "dimensions of the probability tensor");
        bool is_explicit = pt.StorageType == TensorStorageType::Explicit;
        c.label(is_explicit ? "pt stored" : "pt virtual");
        bool all = true;
        for (auto i : which(c, pt.ElementCount, 300)) {
            auto idx = unflatten(i, w.lay.pt_dims);
            auto want = w.lay.probability(idx);
            auto e = pt(idx);
            check_element(c, w, e, want, "probability [" + pbt::join(idx) + "]");
            c.check(same(e, pt.at(i)), "element by offset");
            auto p = pt.CGPolynomial(idx);
            c.check(same(PolynomialElement{std::move(p)}, PolynomialElement{Polynomial{e->cgPolynomial}}), "CGPolynomial");
            c.check(!pt.elem_as_string(e).empty(), "text of an element");
            VirtualPolynomialView view{w.sys->CollinsGisin(), e->cgPolynomial};
            double v = 0;
            size_t n = 0;
            for (auto it = view.begin(); it != view.end(); ++it) { auto [seq, f] = *it; v += f.real() * w.scene.value(seq).real(); ++n; }
            c.check(n == view.size() && n == e->cgPolynomial.size() && pbt::close(v, w.value(want)), "VirtualPolynomialView");
            all = all && e->hasSymbolPoly;
        }
        if (is_explicit && pt.ElementCount <= 300) c.checkf(pt.HasAllPolynomials() == all, [&] { return pbt::str("HasAllPolynomials() of a probability tensor is ", pt.HasAllPolynomials()); });
    }
    void check_fc(pbt::Case& c, const World& w, const FullCorrelator& fc) {
        std::vector<size_t> dims;
        for (auto& m : w.lay.at) dims.push_back(m.size() + 1);
        c.check(fc.Dimensions == dims, "dimensions of the full correlator");
        c.label(fc.StorageType == TensorStorageType::Explicit ? "fc stored" : "fc virtual");
        bool all = true;
        for (auto i : which(c, fc.ElementCount, 200)) {
            auto idx = unflatten(i, dims);
            auto e = fc(idx);
            check_element(c, w, e, w.lay.correlator(idx), "correlator [" + pbt::join(idx) + "]");
            c.check(same(e, fc.at(i)), "correlator by offset");
            all = all && e->hasSymbolPoly;
        }
        if (fc.StorageType == TensorStorageType::Explicit && fc.ElementCount <= 200) c.check(fc.HasAllPolynomials() == all, "HasAllPolynomials() of a full correlator");
    }

    /** A choice of measurements of different dimensions; each with an outcome, or free (-1). */
    struct Choice { std::vector<size_t> mmts; std::vector<int> fixed; };
    Choice gen_choice(pbt::Case& c, const World& w, unsigned use, unsigned fix) {
        Choice x;
        for (auto& m : w.lay.at) if (!m.empty() && c.chance(use)) {
            x.mmts.push_back(c.pick(m));
            x.fixed.push_back(c.chance(fix) ? static_cast<int>(c.below(std::max<size_t>(1, w.lay.pt_outcomes(x.mmts.back())))) : -1);
        }
        std::vector<size_t> order(x.mmts.size());
        for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        c.shuffle(order);
        Choice y;
        for (auto i : order) { y.mmts.push_back(x.mmts[i]); y.fixed.push_back(x.fixed[i]); }
        return y;
    }
    struct Keys {
        std::vector<ml::PMIndex> pm; std::vector<ml::PMOIndex> pmo;
        std::vector<mi::OVIndex> ov; std::vector<mi::OVOIndex> ovo;
    };
    mi::OVIndex ov_of(const World& w, size_t m) {
        size_t o = 0;
        while (m >= w.scene.net->first_op[o].size()) { m -= w.scene.net->first_op[o].size(); ++o; }
        return {static_cast<oper_name_t>(o), static_cast<oper_name_t>(m)};
    }
    Keys keys(const World& w, const Choice& x) {
        Keys k;
        for (size_t i = 0; i < x.mmts.size(); ++i) {
            auto m = x.mmts[i];
            if (w.loc) {
                auto& lm = w.lay.mmts[m];
                ml::PMIndex pm{static_cast<party_name_t>(lm.dim), static_cast<mmt_name_t>(lm.local), m};
                if (x.fixed[i] < 0) k.pm.push_back(pm); else k.pmo.emplace_back(pm, static_cast<uint32_t>(x.fixed[i]));
            } else {
                auto ov = ov_of(w, m);
                if (x.fixed[i] < 0) k.ov.push_back(ov); else k.ovo.emplace_back(ov, static_cast<oper_name_t>(x.fixed[i]));
            }
        }
        return k;
    }
    std::vector<std::vector<size_t>> expected_indices(const World& w, const Choice& x, bool cg) {
        size_t dims = w.lay.at.size();
        std::vector<size_t> lo(dims, 0), hi(dims, 1);
        for (size_t i = 0; i < x.mmts.size(); ++i) {
            auto m = x.mmts[i];
            auto d = static_cast<size_t>(w.lay.mmts[m].dim);
            lo[d] = cg ? w.lay.cg_first[m] : w.lay.pt_first[m];
            hi[d] = lo[d] + (cg ? w.lay.mmts[m].ops.size() : w.lay.pt_outcomes(m));
            if (x.fixed[i] >= 0) { lo[d] += static_cast<size_t>(x.fixed[i]); hi[d] = lo[d] + 1; }
        }
        std::vector<size_t> len;
        for (size_t d = 0; d < dims; ++d) len.push_back(hi[d] - lo[d]);
        std::vector<std::vector<size_t>> all;
        for (size_t i = 0, n = count(len); i < n; ++i) {
            auto idx = unflatten(i, len);
            for (size_t d = 0; d < dims; ++d) idx[d] += lo[d];
            all.push_back(idx);
        }
        return all;
    }
    ProbabilityTensorRange pt_range(const World& w, const Keys& k) {
        if (w.loc) return w.loc->LocalityProbabilityTensor().measurement_to_range(k.pm, k.pmo);
        return w.infl->InflationProbabilityTensor().measurement_to_range(k.ov, k.ovo);
    }
    CollinsGisinRange cg_range(const World& w, const Keys& k) {
        if (w.loc) return w.loc->LocalityCollinsGisin().measurement_to_range(k.pm, k.pmo);
        return w.infl->InflationCollinsGisin().measurement_to_range(k.ov, k.ovo);
    }

    template<class Range> void walk(pbt::Case& c, const Range& range, const std::vector<std::vector<size_t>>& want, const std::vector<size_t>& dims, const std::function<void(const typename Range::Iterator&)>& each) {
        c.checkf(range.size() == want.size(), [&] { return pbt::str("range has ", range.size(), " elements, should have ", want.size()); });
        size_t n = 0;
        for (auto it = range.begin(); it != range.end(); ++it) {
            c.check(n < want.size(), "range goes on");
            std::vector<size_t> at(it.index().begin(), it.index().end());
            c.checkf(at == want[n], [&] { return "range is at [" + pbt::join(at) + "], should be at [" + pbt::join(want[n]) + "]"; });
            size_t off = 0, stride = 1;
            for (size_t d = 0; d < dims.size(); ++d) { off += at[d] * stride; stride *= dims[d]; }
            c.check(it.offset() == off && it.block_offset() == n, "offset of an element of a range");
            each(it);
            ++n;
        }
        c.check(n == want.size(), "range ends early");
    }

    void check_ranges(pbt::Case& c, const World& w) {
        auto x = gen_choice(c, w, 60, 40);
        auto k = keys(w, x);
        auto want = expected_indices(w, x, false);
        if (want.size() <= 400) walk(c, pt_range(w, k), want, w.lay.pt_dims, [&](auto& it) {
            check_element(c, w, *it, w.lay.probability(it.index()), "element of a range");
        });
        bool all_fixed = std::all_of(x.fixed.begin(), x.fixed.end(), [](int f) { return f >= 0; });
        bool none_fixed = std::all_of(x.fixed.begin(), x.fixed.end(), [](int f) { return f < 0; });
        if (all_fixed) {
            bool valid = true;      // a measurement with no outcomes has nothing to fix
            for (auto m : x.mmts) valid = valid && w.lay.pt_outcomes(m) > 0;
            if (valid && w.loc) check_element(c, w, w.loc->LocalityProbabilityTensor().outcome_to_element(k.pmo), w.lay.probability(want.at(0)), "element of outcomes");
            if (valid && w.infl) check_element(c, w, w.infl->InflationProbabilityTensor().outcome_to_element(k.ovo), w.lay.probability(want.at(0)), "element of outcomes");
        }
        if (none_fixed && want.size() <= 400) {
            auto seen = [&](auto& it) { check_element(c, w, *it, w.lay.probability(it.index()), "element of a range"); };
            if (w.loc) walk(c, w.loc->LocalityProbabilityTensor().measurement_to_range(k.pm), want, w.lay.pt_dims, seen);
            else walk(c, w.infl->InflationProbabilityTensor().measurement_to_range(k.ov), want, w.lay.pt_dims, seen);
        }
        // Collins-Gisin
        bool implicit = false;
        for (size_t i = 0; i < x.mmts.size(); ++i) implicit = implicit || x.fixed[i] >= static_cast<int>(w.lay.mmts[x.mmts[i]].ops.size());
        std::vector<oper_name_t> fixed(x.fixed.begin(), x.fixed.end());
        auto generic = [&] { return w.sys->CollinsGisin().measurement_to_range(x.mmts, fixed); };
        if (implicit) {
            c.label("implicit outcome asked of cg");
            bool t1 = false, t2 = false;
            try { (void) cg_range(w, k); } catch (const std::exception&) { t1 = true; }
            try { (void) generic(); } catch (const std::exception&) { t2 = true; }
            c.check(t1 && t2, "Collins-Gisin tensor has a range for an outcome without operator");
        } else {
            auto cgw = expected_indices(w, x, true);
            if (cgw.size() <= 400) {
                auto seen = [&](auto& it) {
                    c.check(from_seq(it->sequence).ops == w.scene.normal(w.lay.cg_word(it.index())).ops, "element of a Collins-Gisin range");
                    c.check(!(it->symbol_id >= 0) || pbt::close(w.values.at(static_cast<size_t>(it->symbol_id)), w.value(w.lay.cg_word(it.index()))), "symbol of an element of a range");
                };
                walk(c, cg_range(w, k), cgw, w.lay.cg_dims, seen);
                walk(c, generic(), cgw, w.lay.cg_dims, seen);
                if (none_fixed) {
                    walk(c, w.sys->CollinsGisin().measurement_to_range(x.mmts), cgw, w.lay.cg_dims, seen);
                    if (w.loc) walk(c, w.loc->LocalityCollinsGisin().measurement_to_range(k.pm), cgw, w.lay.cg_dims, seen);
                    else walk(c, w.infl->InflationCollinsGisin().measurement_to_range(k.ov), cgw, w.lay.cg_dims, seen);
                }
            }
        }
        // Misuse
        auto refused = [&](const char* what, const std::function<void()>& f) {
            bool thrown = false;
            try { f(); } catch (const std::exception&) { thrown = true; }
            c.checkf(thrown, [&] { return pbt::str(what, ": accepted"); });
        };
        if (x.mmts.empty()) return;
        auto i = c.below(x.mmts.size());
        auto m = x.mmts[i];
        auto& mm = w.lay.mmts[m];
        auto twice = x;
        twice.mmts.push_back(c.pick(w.lay.at[static_cast<size_t>(mm.dim)]));
        twice.fixed.push_back(c.coin() ? -1 : 0);
        auto k2 = keys(w, twice);
        refused("probabilities of two measurements of one party", [&] { (void) pt_range(w, k2); });
        refused("Collins-Gisin range of two measurements of one party", [&] { (void) cg_range(w, k2); });
        std::vector<oper_name_t> f2(twice.fixed.begin(), twice.fixed.end());
        refused("Collins-Gisin range of two measurements of one party (generic)", [&] { (void) w.sys->CollinsGisin().measurement_to_range(twice.mmts, f2); });
        refused("Collins-Gisin range of two measurements of one party (free)", [&] { (void) w.sys->CollinsGisin().measurement_to_range(twice.mmts); });
        auto far = x;
        far.fixed[i] = static_cast<int>(w.lay.pt_outcomes(m) + c.below(3));
        auto k3 = keys(w, far);
        refused("probabilities of an outcome that does not exist", [&] { (void) pt_range(w, k3); });
        refused("Collins-Gisin range of an outcome that does not exist", [&] { (void) cg_range(w, k3); });
        for (auto& f : far.fixed) f = std::max(f, 0);
        auto k4 = keys(w, far);
        refused("probability of an outcome that does not exist", [&] {
            if (w.loc) (void) w.loc->LocalityProbabilityTensor().outcome_to_element(k4.pmo);
            else (void) w.infl->InflationProbabilityTensor().outcome_to_element(k4.ovo);
        });
        std::vector<size_t> beyond = x.mmts;
        beyond[i] = w.lay.mmts.size() + c.below(2);
        refused("measurement that does not exist (generic)", [&] { (void) w.sys->CollinsGisin().measurement_to_range(beyond); });
        refused("measurement that does not exist (generic, fixed)", [&] { (void) w.sys->CollinsGisin().measurement_to_range(beyond, fixed); });
        if (w.loc) {
            auto k5 = keys(w, x);
            for (auto& p : k5.pm) if (p.global_mmt == m) p.global_mmt = beyond[i];
            for (auto& p : k5.pmo) if (p.global_mmt == m) p.global_mmt = beyond[i];
            refused("probabilities of a measurement that does not exist", [&] { (void) pt_range(w, k5); });
            refused("Collins-Gisin range of a measurement that does not exist", [&] { (void) cg_range(w, k5); });
            if (k5.pmo.empty()) refused("probabilities of a measurement that does not exist (free)", [&] { (void) w.loc->LocalityProbabilityTensor().measurement_to_range(k5.pm); });
            if (k5.pmo.empty()) refused("Collins-Gisin range of a measurement that does not exist (free)", [&] { (void) w.loc->LocalityCollinsGisin().measurement_to_range(k5.pm); });
            if (k5.pm.empty()) refused("probability of a measurement that does not exist", [&] { (void) w.loc->LocalityProbabilityTensor().outcome_to_element(k5.pmo); });
        }
    }
}

LAW(tensors, "at least two measurements, and a tensor with some but not all symbols at some point", 900, 20000) {
    auto w = gen_world(c);
    bool partial = false;
    for (int step = 0, steps = static_cast<int>(c.range(1, 3)); step < steps; ++step) {
        if (step > 0 || c.chance(80)) grow(c, w);
        w.refresh();
        if (c.chance(70)) { c.note("refresh cg"); bool r = w.sys->RefreshCollinsGisin(); c.check(r == w.sys->CollinsGisin().HasAllSymbols(), "RefreshCollinsGisin()"); check_cg(c, w); }
        bool got = w.sys->RefreshProbabilityTensor();
        check_cg(c, w);
        auto& pt = w.sys->ProbabilityTensor();
        if (pt.StorageType == TensorStorageType::Explicit) c.check(got == pt.HasAllPolynomials(), "RefreshProbabilityTensor()");
        check_pt(c, w, pt);
        auto& cg = w.sys->CollinsGisin();
        if (cg.StorageType == TensorStorageType::Explicit && !cg.HasAllSymbols()) partial = true;
        if (w.loc) {
            if (pt.ElementCount <= 3000) {
                auto kind = c.coin() ? TensorStorageType::Explicit : TensorStorageType::Virtual;
                ml::LocalityProbabilityTensor other{*w.loc, kind};
                check_pt(c, w, other);
            }
            c.check(w.loc->CanHaveFullCorrelator() == w.lay.binary(), "CanHaveFullCorrelator()");
            if (w.lay.binary()) {
                (void) w.sys->RefreshFullCorrelator();
                check_fc(c, w, w.sys->FullCorrelator());
                ml::LocalityFullCorrelator other{*w.loc, c.coin() ? TensorStorageType::Explicit : TensorStorageType::Virtual};
                check_fc(c, w, other);
                auto x = gen_choice(c, w, 70, 0);
                auto k = keys(w, x);
                std::vector<size_t> idx(w.lay.at.size(), 0);
                for (auto m : x.mmts) idx[static_cast<size_t>(w.lay.mmts[m].dim)] = static_cast<size_t>(w.lay.mmts[m].local) + 1;
                check_element(c, w, w.loc->LocalityFullCorrelator().mmt_to_element(k.pm), w.lay.correlator(idx), "correlator of measurements");
                for (size_t bad = 0; bad < 3; ++bad) {
                    auto kb = k.pm;
                    if (kb.empty()) break;
                    auto b = kb[c.below(kb.size())];
                    if (bad == 0) kb.push_back(b);
                    if (bad == 1) { b.mmt = static_cast<mmt_name_t>(w.lay.at[static_cast<size_t>(b.party)].size() + c.below(2)); kb = {b}; }
                    if (bad == 2) { b.party = static_cast<party_name_t>(w.lay.at.size() + c.below(2)); kb = {b}; }
                    bool thrown = false;
                    try { (void) w.loc->LocalityFullCorrelator().mmt_to_element(kb); } catch (const errors::BadFCError&) { thrown = true; }
                    c.check(thrown, "impossible correlator is not refused");
                }
            } else {
                bool thrown = false;
                try { (void) w.sys->RefreshFullCorrelator(); } catch (const std::logic_error&) { thrown = true; }
                c.check(thrown, "full correlator for measurements that are not binary");
            }
        } else if (w.lay.binary()) {
            mi::InflationFullCorrelator fc{*w.infl, c.coin() ? TensorStorageType::Explicit : TensorStorageType::Virtual};
            check_fc(c, w, fc);
        }
        for (int r = 0; r < 4; ++r) check_ranges(c, w);
    }
    c.nontrivial(partial && w.lay.mmts.size() > 1);
}

LAW(explicit_values, "at least one rule whose probability is not a single moment", 1200, 30000) {
    auto w = gen_world(c);
    for (auto k = c.below(3) + 1; k > 0; --k) grow(c, w);
    w.refresh();
    (void) w.sys->RefreshProbabilityTensor();
    auto& pt = w.sys->ProbabilityTensor();
    auto x = gen_choice(c, w, 60, 40);
    for (size_t i = 0; i < x.mmts.size(); ++i) if (w.lay.pt_outcomes(x.mmts[i]) == 0) throw pbt::Discard{};
    auto k = keys(w, x);
    auto want = expected_indices(w, x, false);
    if (want.size() > 200) throw pbt::Discard{};
    auto range = pt_range(w, k);
    Choice cond;
    for (size_t i = 0; i < x.mmts.size(); ++i) if (x.fixed[i] >= 0) { cond.mmts.push_back(x.mmts[i]); cond.fixed.push_back(x.fixed[i]); }
    bool conditional = c.coin();
    std::vector<size_t> ci(w.lay.at.size(), 0);
    for (size_t i = 0; i < cond.mmts.size(); ++i) ci[static_cast<size_t>(w.lay.mmts[cond.mmts[i]].dim)] = w.lay.pt_first[cond.mmts[i]] + static_cast<size_t>(cond.fixed[i]);
    auto cond_sum = w.lay.probability(ci);
    bool possible = !conditional || w.has(cond_sum);
    std::vector<double> values;
    // values as of a behaviour: the outcomes of each setting add up to that of the fixed part
    for (size_t i = 0; i < want.size(); ++i) values.push_back(c.chance(20) ? 0.0 : static_cast<double>(c.range(1, 8)) / 16.0);
    for (auto& idx : want) possible = possible && w.has(w.lay.probability(idx));
    std::vector<Polynomial> rules;
    try {
        if (conditional) {
            auto cel = pt(ci);
            rules = pt.explicit_value_rules(range, cel, values);
        } else rules = pt.explicit_value_rules(range, values);
        c.check(possible, "rules in spite of moments without symbol");
    } catch (const errors::BadPTError&) {
        c.checkf(!possible, [&] { return std::string{"moments said to be missing"}; });
        c.label("missing symbols");
        return;
    }
    c.label(conditional ? "conditional" : "plain");
    c.check(rules.size() == want.size(), "one rule for each value");
    bool any = false;
    double cv = conditional ? w.value(cond_sum) : 1.0;
    for (size_t i = 0; i < rules.size(); ++i) {
        auto p = w.lay.probability(want[i]);
        any = any || p.size() > 1;
        auto v = eval(rules[i], w.values);
        c.checkf(pbt::close(v, w.value(p) - values[i] * cv), [&] { return pbt::str("rule ", i, ": ", show(rules[i]), " should say that [", pbt::join(want[i]), "] has ", conditional ? "conditional " : "", "probability ", values[i]); });
        // As polynomials: the functional is random, but its values for symbols are independent only up to equal moments.
        std::map<symbol_name_t, cd> coef;
        for (auto& m : rules[i]) coef[m.id] += m.factor;
        auto element = pt(want[i]);
        for (auto& m : element->symbolPolynomial) coef[m.id] -= m.factor;
        auto given = pt(ci);
        if (conditional) { for (auto& m : given->symbolPolynomial) coef[m.id] += values[i] * m.factor; }
        else coef[1] += values[i];
        for (auto& [id, f] : coef) c.checkf(std::abs(f) < 1e-9, [&] { return pbt::str("rule ", i, ": ", show(rules[i]), ": coefficient of #", id); });
    }
    c.nontrivial(any);
}

LAW(explicit_rulebook, "a distribution of several outcomes was fixed by rules", 900, 20000) {
    // A deterministic mixture assigns values; rules built from them fix every probability of that setting (or its conditional).
    auto w = gen_world(c, true);
    auto choice = gen_choice(c, w, 65, 0);
    if (choice.mmts.empty()) throw pbt::Discard{};
    auto want = expected_indices(w, choice, false);
    if (want.size() > 64) throw pbt::Discard{};
    {
        auto lock = w.sys->get_write_lock();
        for (auto& idx : want) for (auto& [word, f] : w.lay.probability(idx)) (void) w.sys->Symbols().merge_in(to_seq(*w.scene.ctx, word));
    }
    if (c.coin()) grow(c, w);
    w.refresh();
    (void) w.sys->RefreshProbabilityTensor();
    auto& pt = w.sys->ProbabilityTensor();
    std::vector<double> weights;
    for (int i = 0; i < 64; ++i) weights.push_back(0);
    std::vector<double> values(want.size(), 0.0);
    for (int i = 0; i < 32; ++i) values[c.below(values.size())] += 1.0 / 32;
    auto k = keys(w, choice);
    auto rules = pt.explicit_value_rules(pt_range(w, k), values);
    MomentRulebook rb{*w.sys};
    rb.add_raw_rules(std::vector<Polynomial>(rules));
    rb.complete();
    for (size_t i = 0; i < want.size(); ++i) {
        auto e = pt(want[i]);
        auto r = rb.reduce(e->symbolPolynomial);
        double got = 0;
        bool scalar = true;
        for (auto& m : r) { if (m.id == 1) got += m.factor.real(); else if (m.id != 0) scalar = false; }
        c.checkf(scalar && pbt::close(got, values[i]), [&] { return pbt::str("probability [", pbt::join(want[i]), "] reduces to ", show(r), " instead of ", values[i]); });
    }
    // marginals follow
    auto sub = choice;
    if (sub.mmts.size() > 1) {
        auto drop = c.below(sub.mmts.size());
        auto dim = static_cast<size_t>(w.lay.mmts[sub.mmts[drop]].dim);
        for (size_t i = 0; i < want.size(); ++i) {
            auto idx = want[i];
            double v = 0;
            for (size_t j = 0; j < want.size(); ++j) { auto other = want[j]; other[dim] = idx[dim]; if (other == idx) v += values[j]; }
            idx[dim] = 0;
            auto e = pt(idx);
            auto r = rb.reduce(e->symbolPolynomial);
            double got = 0; bool scalar = true;
            for (auto& m : r) { if (m.id == 1) got += m.factor.real(); else if (m.id != 0) scalar = false; }
            c.checkf(scalar && pbt::close(got, v), [&] { return pbt::str("marginal [", pbt::join(idx), "] reduces to ", show(r), " instead of ", v); });
        }
    }
    c.nontrivial(want.size() > 2);
}

LAW(conversion, "two or more measurements of each party", 3000, 60000) {
    auto loc = c.chance(80) ? gen_locality(c, 2, 5, 2, 2, c.chance(90) ? 2 : 1, 1000, true) : gen_locality(c, 3, 3, 3, 1, 1, 1000, true);
    auto ctx = loc.make();
    c.note(loc.text());
    bool ok = loc.outcomes.size() == 2;
    for (auto& p : loc.outcomes) for (int k : p) ok = ok && k == 2;
    std::unique_ptr<ml::TensorConvertor> conv;
    try { conv = std::make_unique<ml::TensorConvertor>(*ctx); } catch (const std::exception&) { c.check(!ok, "convertor refused"); c.label("refused"); return; }
    c.check(ok, "convertor for a scenario which is not bipartite and binary");
    size_t a = loc.outcomes[0].size() + 1, b = loc.outcomes[1].size() + 1;
    std::vector<double> t, pa(a, 1.0), pb(b, 1.0), joint(a * b);
    for (size_t i = 0; i < a * b; ++i) t.push_back(c.nice());
    // any behaviour, not even positive
    for (size_t i = 0; i < a * b; ++i) joint[i] = i == 0 ? 1.0 : static_cast<double>(c.range(-8, 8)) / 8.0;
    std::vector<double> corr(a * b);
    for (size_t x = 0; x < a; ++x) for (size_t y = 0; y < b; ++y) {
        auto P = [&](size_t i, size_t j) { return joint[i + a * j]; };
        corr[x + a * y] = x && y ? 4 * P(x, y) - 2 * P(x, 0) - 2 * P(0, y) + 1 : x ? 2 * P(x, 0) - 1 : y ? 2 * P(0, y) - 1 : 1.0;
    }
    auto dot = [](const std::vector<double>& u, const std::vector<double>& v) { double r = 0; for (size_t i = 0; i < u.size(); ++i) r += u[i] * v[i]; return r; };
    auto fc = conv->collins_gisin_to_full_correlator(t);
    auto cg = conv->full_correlator_to_collins_gisin(t);
    c.check(fc.size() == t.size() && cg.size() == t.size(), "size after conversion");
    c.checkf(pbt::close(dot(fc, corr), dot(t, joint)), [&] { return "Collins-Gisin to correlator changes the value of the functional " + pbt::join(t) + " to " + pbt::join(fc); });
    c.checkf(pbt::close(dot(cg, joint), dot(t, corr)), [&] { return "correlator to Collins-Gisin changes the value of the functional " + pbt::join(t) + " to " + pbt::join(cg); });
    auto back = conv->full_correlator_to_collins_gisin(fc), back2 = conv->collins_gisin_to_full_correlator(cg);
    for (size_t i = 0; i < t.size(); ++i) c.check(pbt::close(back[i], t[i]) && pbt::close(back2[i], t[i]), "conversion there and back");
    auto wrong = t;
    if (c.coin()) wrong.push_back(1.0); else wrong.pop_back();
    int thrown = 0;
    try { (void) conv->collins_gisin_to_full_correlator(wrong); } catch (const std::invalid_argument&) { ++thrown; }
    try { (void) conv->full_correlator_to_collins_gisin(wrong); } catch (const std::invalid_argument&) { ++thrown; }
    c.check(thrown == 2, "tensor of wrong size");
    c.nontrivial(a > 2 && b > 2);
}

RACY_LAW(concurrent, "several threads asked for tensors", 150, 3000) {
    auto w = gen_world(c);
    if (count(w.lay.pt_dims) > 2000) throw pbt::Discard{};
    grow(c, w);
    if (c.coin()) { (void) w.sys->RefreshCollinsGisin(); grow(c, w); }
    w.refresh();
    size_t threads = static_cast<size_t>(c.range(2, 5));
    std::vector<int> what;
    for (size_t t = 0; t < threads; ++t) what.push_back(static_cast<int>(c.below(w.loc && w.lay.binary() ? 3 : 2)));
    std::barrier go{static_cast<std::ptrdiff_t>(threads)};
    std::vector<std::string> errors(threads);
    std::vector<const void*> got(threads, nullptr);
    {
        std::vector<std::jthread> pool;
        for (size_t t = 0; t < threads; ++t) pool.emplace_back([&, t] {
            go.arrive_and_wait();
            try {
                auto lock = w.sys->get_read_lock();
                if (what[t] == 0) (void) w.sys->RefreshCollinsGisin(lock);
                if (what[t] == 1) (void) w.sys->RefreshProbabilityTensor(lock);
                if (what[t] == 2) (void) w.sys->RefreshFullCorrelator(lock);
                auto& cg = w.sys->CollinsGisin();
                got[t] = &cg;
                if (cg.at(0)->symbol_id != 1) errors[t] = "first element of the Collins-Gisin tensor";
                if (what[t] == 1) {
                    auto& pt = w.sys->ProbabilityTensor();
                    if (&pt.collinsGisin != &cg) errors[t] = "probability tensor refers to another Collins-Gisin tensor";
                    else (void) pt.at(pt.ElementCount - 1)->hasSymbolPoly;
                }
                if (what[t] == 2) {
                    auto& fc = w.sys->FullCorrelator();
                    if (&fc.collinsGisin != &cg) errors[t] = "full correlator refers to another Collins-Gisin tensor";
                    else (void) fc.at(fc.ElementCount - 1)->hasSymbolPoly;
                }
            } catch (const std::exception& e) { errors[t] = e.what(); }
        });
    }
    for (auto& e : errors) c.check(e.empty(), e);
    for (auto p : got) c.check(p == &w.sys->CollinsGisin(), "a Collins-Gisin tensor in use was replaced by another");
    (void) w.sys->RefreshProbabilityTensor();
    check_cg(c, w);
    check_pt(c, w, w.sys->ProbabilityTensor());
    c.nontrivial(true);
}
