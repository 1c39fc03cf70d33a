// C17: symmetry groups, their representations on words, and the systems obtained by averaging over them.
#include "../pbt.h"
#include "../matrix_check.h"
#include "../linear.h"
#include <barrier>
#include <thread>
#include <Eigen/Dense>
#include <Eigen/SparseCore>
#include <Eigen/QR>
#include "dictionary/operator_sequence_generator.h"
#include "scenarios/symmetrized/group.h"
#include "scenarios/symmetrized/representation.h"
#include "scenarios/symmetrized/representation_mapper.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"
#include "scenarios/derived/derived_context.h"
#include "scenarios/derived/derived_errors.h"
#include "scenarios/derived/derived_matrix_system.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "scenarios/derived/map_core.h"
#include "scenarios/derived/symbol_table_map.h"

using namespace Moment;
using namespace model;
using Moment::Symmetrized::Group;
using Moment::Symmetrized::Representation;
using Moment::Symmetrized::repmat_t;
using Moment::Symmetrized::SymmetrizedMatrixSystem;
using Mat = Eigen::MatrixXd;
using Policy = Multithreading::MultiThreadPolicy;

namespace {
    using Lin = std::map<Ops, cd>;            // combination of words
    /** Action of one symmetry: column j of (n+1)x(n+1) is the image of operator j-1 (column 0: of the identity). */
    Lin image(const Scene& s, const Mat& g, const Word& w) {
        Lin now{{Ops{}, i_to(w.sign)}};
        for (int o : w.ops) {
            Lin next;
            for (auto& [u, k] : now) for (int r = 0; r <= s.n; ++r) {
                double a = g(r, o + 1);
                if (a == 0) continue;
                Word x = r == 0 ? Word{false, 0, u} : s.mul(Word{false, 0, u}, Word{false, 0, {r - 1}});
                if (x.zero) continue;
                next[x.ops] += k * a * i_to(x.sign);
            }
            now = std::move(next);
        }
        return now;
    }
    cd value(const Scene& s, const Lin& l) { cd v = 0; for (auto& [w, k] : l) v += k * s.value(Word{false, 0, w}); return v; }

    std::vector<int> permutation(pbt::Case& c, int n) {
        std::vector<int> p(static_cast<size_t>(n));
        std::iota(p.begin(), p.end(), 0);
        for (int i = n - 1; i > 0; --i) std::swap(p[static_cast<size_t>(i)], p[c.below(static_cast<uint64_t>(i) + 1)]);
        return p;
    }
    Mat identity(int n) { return Mat::Identity(n + 1, n + 1); }

    /** Permutes the outcomes of a measurement with operators first .. first+k-2. */
    void permute_outcomes(Mat& g, int first, int k, const std::vector<int>& p) {
        for (int x = 0; x + 1 < k; ++x) {
            int y = p[static_cast<size_t>(x)];
            g.col(first + x + 1).setZero();
            if (y + 1 < k) g(first + y + 1, first + x + 1) = 1;
            else { g(0, first + x + 1) = 1; for (int z = 0; z + 1 < k; ++z) g(first + z + 1, first + x + 1) = -1; }
        }
    }

    struct Symmetry { std::vector<Mat> generators; };
    std::optional<Mat> gen_generator(pbt::Case& c, const Scene& s, const Mat& frame) {
        Mat g = identity(s.n);
        switch (s.kind) {
            case FREE: {
                auto p = permutation(c, s.n);
                g.setZero(); g(0, 0) = 1;
                for (int o = 0; o < s.n; ++o) {
                    int kind = static_cast<int>(c.below(4));
                    g(p[static_cast<size_t>(o)] + 1, o + 1) = kind >= 2 ? 1 : -1;
                    if (kind == 1 && p[static_cast<size_t>(o)] == o) g(0, o + 1) = 1;     // reflection about 1/2
                }
                return frame * g * frame.inverse();
            }
            case ALG: {
                auto p = permutation(c, s.n);
                g.setZero(); g(0, 0) = 1;
                for (int o = 0; o < s.n; ++o) g(p[static_cast<size_t>(o)] + 1, o + 1) = c.coin() ? 1 : -1;
                // must respect conjugation, and the products of up to three operators (rules are no longer than this)
                auto perm_image = [&](const Ops& raw) {
                    double sign = 1;
                    Ops out;
                    for (int o : raw) { int q = p[static_cast<size_t>(o)]; sign *= g(q + 1, o + 1); out.push_back(q); }
                    Word x = s.normal(out);
                    Lin l;
                    if (!x.zero) l[x.ops] = i_to(x.sign) * sign;
                    return l;
                };
                std::vector<Ops> raws;
                for (int a = 0; a < s.n; ++a) {
                    Word co = s.conj(Word{false, 0, {a}}), cp = s.conj(Word{false, 0, {p[static_cast<size_t>(a)]}});
                    if (!s.normal(Ops{a}).zero && co.ops.size() == 1 && cp.ops.size() == 1) {
                        int q = co.ops[0];
                        if (p[static_cast<size_t>(q)] != cp.ops[0] || g(cp.ops[0] + 1, q + 1) != g(p[static_cast<size_t>(a)] + 1, a + 1)) return std::nullopt;
                    }
                    raws.push_back({a});
                    for (int b = 0; b < s.n; ++b) { raws.push_back({a, b}); for (int d = 0; d < s.n; ++d) raws.push_back({a, b, d}); }
                }
                for (auto& raw : raws) {
                    Lin lhs = perm_image(raw);
                    Word w = s.normal(raw);
                    if (!w.zero) for (auto& [u, k] : perm_image(w.ops)) lhs[u] -= k * i_to(w.sign);
                    for (auto& [u, k] : lhs) if (std::abs(k) > 1e-9) return std::nullopt;
                }
                return g;
            }
            case LOC: {
                auto& l = *s.loc;
                // a permutation of parties and of measurements, where these have the same outcomes, then of outcomes
                size_t np = l.outcomes.size();
                std::vector<size_t> party(np);
                std::iota(party.begin(), party.end(), 0);
                if (np > 1 && c.coin()) {
                    size_t a = c.below(np), b = c.below(np);
                    auto x = l.outcomes[a], y = l.outcomes[b];
                    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
                    if (x == y) std::swap(party[a], party[b]);
                }
                g.setZero(); g(0, 0) = 1;
                for (size_t p = 0; p < np; ++p) {
                    size_t q = party[p];
                    std::vector<size_t> free(l.outcomes[q].size());
                    std::iota(free.begin(), free.end(), 0);
                    for (size_t m = 0; m < l.outcomes[p].size(); ++m) {
                        std::vector<size_t> fits;
                        for (size_t i = 0; i < free.size(); ++i) if (l.outcomes[q][free[i]] == l.outcomes[p][m]) fits.push_back(i);
                        size_t pick = fits[c.chance(60) ? 0 : c.below(fits.size())];
                        size_t mm = free[pick];
                        free.erase(free.begin() + static_cast<ptrdiff_t>(pick));
                        int k = l.outcomes[p][m];
                        auto out = permutation(c, k);
                        if (c.coin()) std::iota(out.begin(), out.end(), 0);
                        for (int x = 0; x + 1 < k; ++x) {
                            int from = l.op_at[p][m][static_cast<size_t>(x)], y = out[static_cast<size_t>(x)];
                            if (y + 1 < k) g(l.op_at[q][mm][static_cast<size_t>(y)] + 1, from + 1) = 1;
                            else { g(0, from + 1) = 1; for (int o : l.op_at[q][mm]) g(o + 1, from + 1) = -1; }
                        }
                    }
                }
                return g;
            }
            case PAULI: {
                int q = s.pauli.qubits();
                auto p = permutation(c, q);
                if (c.coin()) std::iota(p.begin(), p.end(), 0);
                g.setZero(); g(0, 0) = 1;
                for (int k = 0; k < q; ++k) {
                    auto axis = permutation(c, 3);
                    int inversions = (axis[0] > axis[1]) + (axis[0] > axis[2]) + (axis[1] > axis[2]);
                    int s0 = c.coin() ? 1 : -1, s1 = c.coin() ? 1 : -1;
                    int sign[3] = {s0, s1, s0 * s1 * (inversions % 2 ? -1 : 1)};
                    for (int a = 0; a < 3; ++a) g(3 * p[static_cast<size_t>(k)] + axis[static_cast<size_t>(a)] + 1, 3 * k + a + 1) = sign[a];
                }
                return g;
            }
            default: {
                auto& net = *s.net;
                for (size_t o = 0; o < net.outcomes.size(); ++o) {
                    int k = net.outcomes[o];
                    if (k == 0) { if (c.coin()) for (int f : net.first_op[o]) g(f + 1, f + 1) = -1; continue; }
                    auto out = permutation(c, k);
                    for (int f : net.first_op[o]) permute_outcomes(g, f, k, out);
                }
                return g;
            }
        }
    }
    std::vector<long> rounded(const Mat& m) {
        std::vector<long> r;
        for (Eigen::Index i = 0; i < m.size(); ++i) r.push_back(std::lround(m.data()[i] * 1e6));
        return r;
    }
    /** The group generated, or nothing if it is too large. */
    std::optional<std::vector<Mat>> closure(const std::vector<Mat>& gens, int dim, size_t most) {
        std::vector<Mat> all{Mat::Identity(dim, dim)};
        std::set<std::vector<long>> seen{rounded(all[0])};
        for (size_t i = 0; i < all.size(); ++i) for (auto& g : gens) {
            Mat x = all[i] * g;
            if (seen.insert(rounded(x)).second) all.push_back(std::move(x));
            if (all.size() > most) return std::nullopt;
        }
        return all;
    }
    Mat gen_frame(pbt::Case& c, int n) {      // change of variables, with inverse in integers
        Mat f = identity(n);
        if (c.coin()) return f;
        for (int j = 1; j <= n; ++j) for (int i = 0; i < j; ++i) if (c.chance(35)) f(i, j) = static_cast<double>(c.range(-1, 2));
        return f;
    }
    std::string show(const Mat& m) { std::ostringstream o; o << m.format(Eigen::IOFormat(6, Eigen::DontAlignCols, " ", "; ")); return o.str(); }
    repmat_t sparse(const Mat& m) { return m.sparseView(); }

    struct World {
        Scene scene;
        std::vector<Mat> gens, group;      // in the order of operators
    };
    World gen_world(pbt::Case& c, bool system, size_t largest) {
        World w;
        SceneOptions o;
        o.max_ops = 6;
        o.system = system;
        o.symmetric_pauli = false;
        o.tolerance = 1e6;
        w.scene = gen_scene(c, o);
        auto& s = w.scene;
        c.note(s.name);
        Mat frame = s.kind == FREE ? gen_frame(c, s.n) : identity(s.n);
        for (size_t k = c.range(1, 3), tries = 0; k > 0 && tries < 12; ++tries) {
            auto g = gen_generator(c, s, frame);
            if (!g) continue;
            --k;
            auto more = w.gens;
            more.push_back(*g);
            auto cl = closure(more, s.n + 1, largest);
            if (!cl) continue;
            w.gens = std::move(more);
            w.group = std::move(*cl);
            c.note("generator " + show(*g));
        }
        if (w.gens.empty()) throw pbt::Discard{};
        return w;
    }
    /** Words of the library's generator of a length, by index. */
    std::vector<Word> words_of(const Scene& s, size_t length) {
        std::vector<Word> r;
        for (auto& q : s.context().operator_sequence_generator(length)) r.push_back(from_seq(q));
        return r;
    }
    /** From the order of operators to that of the library's words of length 1. */
    std::vector<Mat> in_library_order(const Scene& s, const std::vector<Mat>& in) {
        auto words = words_of(s, 1);
        std::vector<Mat> out;
        for (auto& m : in) {
            Mat x(m.rows(), m.cols());
            for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) {
                auto at = [&](Eigen::Index k) { auto& w = words[static_cast<size_t>(k)].ops; return static_cast<Eigen::Index>(w.empty() ? 0 : w[0] + 1); };
                x(i, j) = m(at(i), at(j));
            }
            out.push_back(std::move(x));
        }
        return out;
    }
    bool all_distinct(const Scene& s) { auto w = words_of(s, 1); return static_cast<int>(w.size()) == s.n + 1; }

    size_t gen_length(pbt::Case& c, const Scene& s, size_t most_words) {
        size_t best = 1;
        for (size_t l = 2; l <= 7 && l <= s.max_len; ++l) { if (s.context().operator_sequence_generator(l).size() > most_words) break; best = l; }
        return 1 + c.below(best);
    }
}

LAW(dimino, "the group has more than two elements", 3000, 60000) {
    World w = gen_world(c, false, 120);
    std::vector<repmat_t> g;
    for (auto& m : w.gens) g.push_back(sparse(m));
    auto found = Group::dimino_generation(g);
    if (w.group.size() > 2) c.nontrivial();
    std::set<std::vector<long>> want, got;
    for (auto& m : w.group) want.insert(rounded(m));
    for (auto& m : found) got.insert(rounded(Mat(m)));
    c.check(found.size() == got.size(), "an element is listed twice");
    c.check(got == want, pbt::str("found ", found.size(), " elements, not the ", w.group.size(), " generated"));
    c.check(rounded(Mat(found[0])) == rounded(Mat::Identity(w.scene.n + 1, w.scene.n + 1)), "the identity is not first");
}

LAW(build_lists, "", 60, 400) {
    size_t len = 1 + c.below(c.chance(50) ? 20 : 300);
    c.note(pbt::str(len));
    auto list = Group::decompose_build_list(len);
    std::set<size_t> have{1};
    for (auto x : list) {
        size_t low = std::bit_floor(x);
        c.check(x > 1 && (x == low ? have.count(x / 2) > 0 : have.count(low) && have.count(x - low)), pbt::str(x, " is built before its parts"));
        c.check(have.insert(x).second, pbt::str(x, " is built twice"));
    }
    c.check(have.count(len) > 0 && *have.rbegin() == len, "length is missing");
    if (list.size() > 2) c.nontrivial();
}

LAW(representation, "words of two or more operators are mapped", 3000, 50000) {
    World w = gen_world(c, false, 24);
    auto& s = w.scene;
    if (!all_distinct(s)) throw pbt::Discard{};
    auto lib = in_library_order(s, w.group);
    std::vector<repmat_t> elems;
    for (auto& m : lib) elems.push_back(sparse(m));
    Group group{s.context(), std::make_unique<Representation>(1, std::move(elems))};
    c.check(group.size == w.group.size() && group.fundamental_dimension == static_cast<size_t>(s.n + 1), "size of the group");
    size_t most = gen_length(c, s, 90);
    std::map<size_t, const Representation*> made{{1, &group.representation(1)}};
    for (int k = 0; k < 2; ++k) {
        size_t len = k == 0 ? 1 + c.below(most) : most;
        auto policy = c.coin() ? Policy::Always : Policy::Never;
        c.note(pbt::str("length ", len, policy == Policy::Always ? " threads" : ""));
        bool had = false;
        try { (void) group.representation(len); had = true; } catch (const std::runtime_error&) { }
        if (len == 1) c.check(had, "the first representation is missing");
        auto& rep = group.create_representation(len, policy);
        c.check(&group.representation(len) == &rep && &group.create_representation(len) == &rep, "a different representation");
        auto words = words_of(s, len);
        c.check(rep.word_length == len && rep.size() == w.group.size() && rep.dimension == words.size(), "shape of representation");
        std::map<Ops, size_t> index;
        for (size_t i = 0; i < words.size(); ++i) index[words[i].ops] = i;
        Mat sum = Mat::Zero(static_cast<Eigen::Index>(words.size()), static_cast<Eigen::Index>(words.size()));
        for (size_t e = 0; e < rep.size(); ++e) {
            Mat got(rep[e]);
            sum += got;
            for (size_t j = 0; j < words.size(); ++j) {
                auto img = image(s, w.group[e], words[j]);
                if (words[j].ops.size() > 1) c.nontrivial();
                Eigen::VectorXd want = Eigen::VectorXd::Zero(static_cast<Eigen::Index>(words.size()));
                for (auto& [u, k2] : img) {
                    if (std::abs(k2) < 1e-12) continue;
                    c.check(index.count(u), "reference: image outside the words");
                    if (std::abs(k2.imag()) > 1e-9) throw pbt::Discard{};        // representations are real
                    want(static_cast<Eigen::Index>(index[u])) += k2.real();
                }
                c.checkf((got.col(static_cast<Eigen::Index>(j)) - want).norm() < 1e-6, [&] {
                    std::string m;
                    for (size_t i = 0; i < words.size(); ++i) if (std::abs(got(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j))) > 1e-9) m += pbt::str(got(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)), "*", text(words[i]), " ");
                    m += "expected ";
                    for (size_t i = 0; i < words.size(); ++i) if (std::abs(want(static_cast<Eigen::Index>(i))) > 1e-9) m += pbt::str(want(static_cast<Eigen::Index>(i)), "*", text(words[i]), " ");
                    return "element " + show(w.group[e]) + " maps " + text(words[j]) + " to " + m; });
            }
        }
        c.check((Mat(rep.sum_of()) - sum).norm() < 1e-6, "sum of elements");
        made.emplace(len, &rep);
        for (auto& [l, r] : made) c.check(&group.representation(l) == r && &group.create_representation(l) == r, pbt::str("the representation of length ", l, " was replaced when one of length ", len, " was asked for"));
    }
    bool refused = false;
    try { (void) group.create_representation(0); } catch (const std::range_error&) { refused = true; }
    c.check(refused, "words of length 0");
    // wrong dimension
    refused = false;
    std::vector<repmat_t> bad{sparse(Mat::Identity(s.n + 2, s.n + 2))};
    try { Group g2{s.context(), std::make_unique<Representation>(1, std::move(bad))}; } catch (const std::runtime_error&) { refused = true; }
    c.check(refused, "a representation of another dimension is accepted");
}

RACY_LAW(concurrent_representations, "two threads or more ask for the same representation of words of two operators or more", 500, 10000) {
    World w = gen_world(c, false, 12);
    auto& s = w.scene;
    if (!all_distinct(s)) throw pbt::Discard{};
    const auto lib = in_library_order(s, w.group);
    auto make = [&] {
        std::vector<repmat_t> elems;
        for (auto& m : lib) elems.push_back(sparse(m));
        return std::make_unique<Group>(s.context(), std::make_unique<Representation>(1, std::move(elems)));
    };
    auto group = make(), alone = make();
    const size_t most = gen_length(c, s, 60), threads = static_cast<size_t>(c.range(2, 4));
    if (c.chance(30)) (void) group->create_representation(1 + c.below(most));
    std::vector<std::vector<size_t>> ask(threads);
    std::map<size_t, int> asked;
    for (size_t t = 0; t < threads; ++t) {
        if (t && c.coin()) ask[t] = ask[0]; else for (size_t k = c.range(1, 3); k > 0; --k) ask[t].push_back(1 + c.below(most));
        for (auto l : std::set<size_t>(ask[t].begin(), ask[t].end())) if (++asked[l] > 1 && l > 1) c.nontrivial();
        c.note(pbt::str("thread ", t, ":", pbt::join(ask[t])));
    }
    const auto policy = c.chance(30) ? Policy::Always : Policy::Never;
    std::vector<std::vector<const Representation*>> got(threads);
    std::vector<std::string> error(threads);
    std::barrier start{static_cast<ptrdiff_t>(threads)};
    {
        std::vector<std::jthread> pool;
        for (size_t t = 0; t < threads; ++t) pool.emplace_back([&, t] {
            start.arrive_and_wait();
            try { for (auto l : ask[t]) { auto& r = group->create_representation(l, policy); if (r.word_length != l || &group->representation(l) != &r) error[t] = "another representation"; got[t].push_back(&r); } }
            catch (const std::exception& e) { error[t] = e.what(); }
        });
    }
    for (auto& e : error) c.check(e.empty(), "a thread failed: " + e);
    for (size_t t = 0; t < threads; ++t) for (size_t k = 0; k < ask[t].size(); ++k) {
        auto& r = *got[t][k];
        c.check(&r == &group->representation(ask[t][k]), "threads are given different representations");
        auto& want = alone->create_representation(ask[t][k], Policy::Never);
        c.check(r.size() == want.size() && r.dimension == want.dimension, "shape of a representation made by threads");
        for (size_t e = 0; e < r.size(); ++e) c.check((Mat(r[e]) - Mat(want[e])).norm() < 1e-6, "a representation made by threads differs");
        c.check((Mat(r.sum_of()) - Mat(want.sum_of())).norm() < 1e-6, "sum of a representation made by threads");
    }
}

LAW(symmetrized, "a moment is mapped to another combination", 3000, 50000) {
    World w = gen_world(c, true, 24);
    auto& s = w.scene;
    if (!all_distinct(s)) throw pbt::Discard{};
    std::shared_ptr<MatrixSystem> base{std::move(s.system)};
    size_t len = gen_length(c, s, 70);
    size_t extra = c.chance(20) ? gen_length(c, s, 70) : len;
    c.note(pbt::str("words of up to ", len));
    if (c.chance(40)) base->MomentMatrix(len / 2);
    base->generate_dictionary(std::max(len, extra));
    std::vector<repmat_t> elems;
    for (auto& m : in_library_order(s, w.group)) elems.push_back(sparse(m));
    for (auto& q : s.context().operator_sequence_generator(len)) for (auto& g : w.group) for (auto& [u, k] : image(s, g, from_seq(q))) if (std::abs(k.imag()) > 1e-9) throw pbt::Discard{};
    auto group = std::make_unique<Group>(s.context(), std::make_unique<Representation>(1, std::move(elems)));
    SymmetrizedMatrixSystem sym{std::shared_ptr<MatrixSystem>(base), std::move(group), len, std::make_unique<Derived::LUMapCoreProcessor>(), -1.0, c.coin() ? Policy::Always : Policy::Never};
    c.check(sym.longest_supported_word() == len && &sym.base_system() == base.get() && sym.group().size == w.group.size(), "parts of the system");
    auto& map = sym.map();
    auto& origin = base->Symbols();
    auto& target = sym.Symbols();
    c.check(&map.Origin() == &origin && &map.Target() == &target, "symbol tables");
    // an invariant state
    auto inv = [&](const Word& x) {
        if (x.zero) return cd{0.0};
        cd v = 0;
        for (auto& g : w.group) v += ::value(s, image(s, g, x));
        return v / static_cast<double>(w.group.size());
    };
    std::vector<cd> x;
    for (auto& q : origin) x.push_back(q.Id() == 0 ? cd{0.0} : inv(from_seq(q.sequence())));
    c.check(map.inv_size() == target.size(), "size of the inverse map");
    std::vector<cd> y;
    for (size_t k = 0; k < map.inv_size(); ++k) {
        y.push_back(eval(map.inverse(static_cast<symbol_name_t>(k)), x));
        if (!pbt::close(y.back(), y.back().real()) && k > 1) c.check(!target[static_cast<symbol_name_t>(k)].is_hermitian(), pbt::str("real symbol #", k, " stands for ", show(map.inverse(static_cast<symbol_name_t>(k))), " which is complex"));
        auto conj = map.inverse(Monomial{static_cast<symbol_name_t>(k), 2.0, true});
        c.check(pbt::close(eval(conj, x), 2.0 * std::conj(y.back())), "inverse of a conjugate");
    }
    c.check(pbt::close(y[0], cd{0.0}) && pbt::close(y[1], cd{1.0}), "zero and one");
    for (size_t id = 0; id < map.fwd_size(); ++id) {
        auto& q = origin[static_cast<symbol_name_t>(id)];
        std::string name = pbt::str("#", id, " ", text(from_seq(q.sequence())));
        if (q.sequence().size() > len) {
            bool refused = false;
            try { (void) map(q.Id()); } catch (const Moment::errors::bad_map&) { refused = true; }
            c.check(refused, name + ", which is too long, is mapped");
            continue;
        }
        auto& to = map(q.Id());
        c.checkf(pbt::close(eval(to, y), x[id]), [&] { return name + pbt::str(" is mapped to ", show(to), " worth ", eval(to, y), ", expected ", x[id]); });
        for (auto& t : to) c.check(t.id > 0 && static_cast<size_t>(t.id) < target.size(), name + " is mapped to unknown symbols");
        auto lin = image(s, w.group.back(), from_seq(q.sequence()));
        if (lin.size() != 1 || !lin.count(from_seq(q.sequence()).ops)) c.nontrivial();
        Monomial m{q.Id(), cd{0.5, -1.0}, true};
        c.check(pbt::close(eval(map(m), y), cd{0.5, -1.0} * std::conj(x[id])), name + ": conjugate");
    }
    for (auto bad : {static_cast<symbol_name_t>(-1), static_cast<symbol_name_t>(map.fwd_size())}) {
        bool refused = false;
        try { (void) map(bad); } catch (const Moment::errors::bad_map&) { refused = true; }
        c.check(refused, "map of a symbol which does not exist");
        refused = false;
        try { (void) map.inverse(bad < 0 ? bad : static_cast<symbol_name_t>(map.inv_size())); } catch (const Moment::errors::bad_map&) { refused = true; }
        c.check(refused, "inverse map of a symbol which does not exist");
    }
    // polynomials
    for (int k = 0; k < 3; ++k) {
        Polynomial::storage_t st;
        for (size_t t = c.below(4); t > 0; --t) {
            auto id = static_cast<symbol_name_t>(c.below(origin.size()));
            if (origin[id].sequence().size() <= len) st.emplace_back(id, cd{static_cast<double>(c.range(-2, 3)), c.coin() ? 0.0 : 1.0}, c.coin());
        }
        auto p = base->polynomial_factory()(std::move(st));
        auto to = map(p);
        c.checkf(pbt::close(eval(to, y), eval(p, x)), [&] { return show(p) + " is mapped to " + show(to); });
    }
    // the number of independent moments left
    {
        auto words = words_of(s, len);
        auto d = static_cast<Eigen::Index>(words.size());
        std::map<Ops, Eigen::Index> index;
        for (Eigen::Index i = 0; i < d; ++i) index[words[static_cast<size_t>(i)].ops] = i;
        Mat avg = Mat::Zero(d, d);
        for (auto& g : w.group) for (Eigen::Index j = 0; j < d; ++j) for (auto& [u, k] : image(s, g, words[static_cast<size_t>(j)])) if (std::abs(k) > 1e-12) avg(index.at(u), j) += k.real() / static_cast<double>(w.group.size());
        Eigen::ColPivHouseholderQR<Mat> qr{avg};
        qr.setThreshold(1e-9);
        c.check(target.size() <= static_cast<size_t>(qr.rank()) + 1, pbt::str(target.size() - 2, " symbols for ", qr.rank() - 1, " independent moments"));
    }
    // matrices
    size_t too_far = len / 2 + 1;
    auto counts = [&] { return std::array<size_t, 4>{base->size(), base->Symbols().size(), sym.size(), sym.Symbols().size()}; };
    auto counted = counts();
    bool refused = false;
    try { (void) sym.MomentMatrix.create(too_far); } catch (const Moment::errors::too_large_to_transform_error&) { refused = true; }
    c.check(refused && counts() == counted, "a moment matrix with longer words");
    auto check_image = [&](const SymbolicMatrix& m, const SymbolicMatrix& src, const std::string& what) {
        c.check(m.Dimension() == src.Dimension(), what + ": dimension");
        std::vector<cd> want;
        std::vector<cd> xx = x;
        for (size_t id = xx.size(); id < origin.size(); ++id) xx.push_back(inv(from_seq(origin[static_cast<symbol_name_t>(id)].sequence())));
        for (size_t j = 0; j < m.Dimension(); ++j) for (size_t i = 0; i < m.Dimension(); ++i) want.push_back(entry(src, i, j, xx));
        check_matrix(c, m, target, y, want, what, false);
    };
    auto derived_before = [&](ptrdiff_t source) { return source < 0 ? ptrdiff_t{-1} : sym.DerivedMatrices.find_index(source); };
    for (int k = 0; k < 3; ++k) {
        size_t what = c.below(5);
        if (what == 4) {
            size_t level = c.below(len / 2 + 1);
            Polynomial::storage_t st;
            for (size_t t = 1 + c.below(3); t > 0; --t) {
                auto id = static_cast<symbol_name_t>(1 + c.below(origin.size() - 1));
                if (origin[id].sequence().size() + 2 * level <= len) st.emplace_back(id, cd{static_cast<double>(c.range(-2, 3)), c.coin() ? 0.0 : 1.0}, !origin[id].is_hermitian() && c.coin());
            }
            auto p = base->polynomial_factory()(std::move(st));
            c.note(pbt::str("polynomial localizing matrix ", level, " of ", show(p)));
            PolynomialLocalizingMatrixIndex plmi{level, p};
            auto [at, m] = sym.PolynomialLocalizingMatrix.create(plmi);
            check_image(m, base->PolynomialLocalizingMatrix(plmi), "polynomial localizing matrix");
        } else if (what == 0) {
            size_t level = c.below(len / 2 + 1);
            auto before = derived_before(base->MomentMatrix.find_index(level));
            auto [at, m] = sym.MomentMatrix.create(level);
            check_image(m, base->MomentMatrix(level), pbt::str("moment matrix ", level));
            c.check(sym.DerivedMatrices.find_index(base->MomentMatrix.find_index(level)) == (before < 0 ? at : before), "derived matrix of the moment matrix");
        } else if (what == 1) {
            size_t level = c.below(len / 2 + 1);
            auto word = s.normal_word(c, len - 2 * level);
            LocalizingMatrixIndex lmi{level, to_seq(s.context(), word)};
            auto before = derived_before(base->LocalizingMatrix.find_index(lmi));
            auto [at, m] = sym.LocalizingMatrix.create(lmi);
            check_image(m, base->LocalizingMatrix(lmi), "localizing matrix");
            c.check(sym.DerivedMatrices.find_index(base->LocalizingMatrix.find_index(lmi)) == (before < 0 ? at : before), "derived matrix of the localizing matrix");
            refused = false;
            auto longer = s.normal(s.word(c, len + 1));
            if (!longer.zero && longer.ops.size() + 2 * level > len) {
                counted = counts();
                try { (void) sym.LocalizingMatrix.create(LocalizingMatrixIndex{level, to_seq(s.context(), longer.ops)}); } catch (const Moment::errors::too_large_to_transform_error&) { refused = true; }
                c.check(refused && counts() == counted, "a localizing matrix with longer words");
            }
        } else {
            size_t level = c.below(3);
            if (s.context().operator_sequence_generator(level).size() > 20) continue;
            base->MomentMatrix(level);
            auto source = c.below(base->size());
            bool covered = true;
            for (auto id : symbols_in((*base)[static_cast<ptrdiff_t>(source)])) if (origin[id].sequence().size() > len) covered = false;
            c.note(pbt::str("derived matrix of #", source));
            try {
                auto [at, m] = sym.DerivedMatrices.create(static_cast<ptrdiff_t>(source));
                c.check(covered, "a matrix with longer words is mapped");
                check_image(m, (*base)[static_cast<ptrdiff_t>(source)], "derived matrix");
                c.check(&sym.DerivedMatrices.create(static_cast<ptrdiff_t>(source)).second == &m, "derived matrix made twice");
            } catch (const Moment::errors::bad_map&) { c.check(!covered, "a matrix of mapped moments is refused"); }
        }
    }
    refused = false;
    counted = counts();
    try { (void) sym.DerivedMatrices.create(static_cast<ptrdiff_t>(base->size())); } catch (const Moment::errors::bad_transformation_error&) { refused = true; }
    c.check(refused && counts() == counted, "derived from a matrix which does not exist");
    c.check(sym.describe_map().find(pbt::str("with ", origin.size(), origin.size() == 1 ? " symbol" : " symbols")) != std::string::npos && sym.describe_map().find(pbt::str("with ", target.size(), target.size() == 1 ? " symbol" : " symbols")) != std::string::npos, sym.describe_map());
}

LAW(symbol_maps, "the map has an offset or mixes symbols", 4000, 80000) {
    // any linear map of words which keeps the identity
    SceneOptions o;
    o.kinds = {FREE, LOC, PAULI, INFL, ALG};
    o.max_ops = 5;
    o.system = true;
    o.symmetric_pauli = false;
    o.tolerance = 1e6;
    Scene s = gen_scene(c, o);
    c.note(s.name);
    size_t len = gen_length(c, s, 30);
    s.system->generate_dictionary(len);
    auto& origin = s.system->Symbols();
    origin.OSGIndex.update_if_necessary(len);
    auto words = words_of(s, len);
    auto d = static_cast<Eigen::Index>(words.size());
    std::map<Ops, Eigen::Index> index;
    for (Eigen::Index i = 0; i < d; ++i) index[words[static_cast<size_t>(i)].ops] = i;
    // columns of conjugate pairs must agree, so choose for one of each, and likewise for words with the same moment
    Mat a = Mat::Zero(d, d);
    a(0, 0) = 1;
    size_t style = c.below(4);
    std::map<symbol_name_t, Eigen::Index> column{{1, 0}};
    auto x = s.symbol_values(origin);
    // the power of i by which a word is its symbol
    auto relative = [&](Eigen::Index j, symbol_name_t id) {
        const cd v = s.value(words[static_cast<size_t>(j)]), w = x[static_cast<size_t>(id)];
        if (std::abs(w) < 1e-6) throw pbt::Discard{};
        const cd r = v / w; for (int k = 0; k < 4; ++k) if (pbt::close(r, i_to(k))) return i_to(k);
        c.fail(pbt::str(text(words[static_cast<size_t>(j)]), " is worth ", v, ", its symbol ", id, " ", w)); return cd{1};
    };
    for (Eigen::Index j = 1; j < d; ++j) {
        auto [id, conj] = origin.OSGIndex(static_cast<size_t>(j));
        if (conj || id == 0) continue;
        if (auto [at, fresh] = column.emplace(id, j); !fresh) {             // same moment, perhaps up to a phase
            const cd ratio = relative(j, id) / relative(at->second, id);
            if (std::abs(ratio.imag()) > 0.5) throw pbt::Discard{};
            a.col(j) = a.col(at->second) * (ratio.real() > 0 ? 1.0 : -1.0); continue;
        }
        size_t kind = c.below(style == 0 ? 4 : 6);
        if (kind == 0) continue;                                            // to zero
        if (kind == 1 || c.chance(25)) a(0, j) = static_cast<double>(c.range(-2, 3)) / 2;    // constant
        if (kind == 1) continue;
        if (kind == 2) { a(j, j) = 1; continue; }
        for (size_t t = 1 + c.below(3); t > 0; --t) a(static_cast<Eigen::Index>(c.below(static_cast<uint64_t>(d))), j) = c.coin() ? static_cast<double>(c.range(-2, 3)) : c.nice();
    }
    c.note(show(a));
    bool broken = c.chance(15);
    if (broken && d > 1) { if (c.coin()) a(0, 0) = c.coin() ? 0.0 : 2.0; else a(static_cast<Eigen::Index>(1 + c.below(static_cast<uint64_t>(d - 1))), 0) = 1; }
    else broken = false;
    bool dense = c.coin();
    SymbolTable target{s.context()};
    Derived::LUMapCoreProcessor lu;
    std::unique_ptr<Derived::SymbolTableMap> map;
    try {
        map = dense ? std::make_unique<Derived::SymbolTableMap>(origin, target, lu, a)
                    : std::make_unique<Derived::SymbolTableMap>(origin, target, lu, Eigen::SparseMatrix<double>(a.sparseView()));
    } catch (const Moment::errors::bad_map& e) {
        c.check(broken, std::string("refused: ") + e.what());
        return;
    }
    c.check(!broken, "a map which does not keep the identity is accepted");
    std::vector<cd> y;
    for (size_t k = 0; k < map->inv_size(); ++k) y.push_back(eval(map->inverse(static_cast<symbol_name_t>(k)), x));
    c.check(y.size() == target.size(), "number of symbols");
    for (size_t k = 2; k < y.size(); ++k) if (!pbt::close(y[k], cd{y[k].real()})) c.check(!target[static_cast<symbol_name_t>(k)].is_hermitian(), "a complex symbol is taken to be real");
    bool mono = true;
    for (Eigen::Index j = 0; j < d; ++j) {
        auto [id, conj] = origin.OSGIndex(static_cast<size_t>(j));
        if (conj || id == 0) continue;
        cd want = 0;
        for (Eigen::Index i = 0; i < d; ++i) want += a(i, j) * s.value(words[static_cast<size_t>(i)]);
        const cd phase = relative(j, id); want /= phase; if (std::abs(phase - 1.0) > 0.5) c.label("word is a symbol times a phase");
        auto& to = (*map)(id);
        c.checkf(pbt::close(eval(to, y), want), [&] { return (dense ? "dense: " : "sparse: ") + text(words[static_cast<size_t>(j)]) + pbt::str(" is mapped to ", show(to), " worth ", eval(to, y), ", expected ", want); });
        if (to.size() > 1) c.nontrivial();
        if (to.size() > 1) mono = false;
    }
    c.check(map->is_monomial_map() == mono, "monomial map");
    if (map->is_monomial_map() && s.context().operator_sequence_generator(len / 2).size() < 20) {
        auto& mm = s.system->MomentMatrix(len / 2);
        auto& mat = dynamic_cast<const MonomialMatrix&>(mm).SymbolMatrix();
        auto out = map->monomial(mat);
        auto poly = (*map)(mat);
        for (size_t i = 0; i < mm.Dimension(); ++i) for (size_t j = 0; j < mm.Dimension(); ++j) {
            std::array<size_t, 2> ix{i, j};
            c.check(pbt::close(eval((*out)(ix), y), eval((*poly)(ix), y)), "monomial and polynomial images differ");
        }
    }
    // the same from a core and solution made beforehand
    if (c.chance(40)) {
        DynamicBitset<size_t> skipped{static_cast<size_t>(d), false};
        std::set<symbol_name_t> seen;
        for (Eigen::Index j = 0; j < d; ++j) { auto [id, conj] = origin.OSGIndex(static_cast<size_t>(j)); if (conj || !seen.insert(id).second) skipped.set(static_cast<size_t>(j)); }
        auto core = dense ? std::make_unique<Derived::DenseMapCore>(skipped, a) : std::make_unique<Derived::DenseMapCore>(skipped, Eigen::SparseMatrix<double>(a.sparseView()));
        auto solution = core->accept(lu);
        bool misshapen = c.chance(20) && !solution->trivial_solution && solution->output_symbols > 0;
        if (misshapen) {
            auto r = static_cast<Eigen::Index>(solution->output_symbols);
            switch (c.below(5)) {
                case 0: solution->output_symbols += 1; break;
                case 1: solution->dense_map = Mat::Zero(solution->dense_map.rows() + 1, r); break;
                case 2: solution->dense_map = Mat::Zero(solution->dense_map.rows(), r + 1); break;
                case 3: solution->dense_inv_map = Mat::Zero(r + 1, solution->dense_inv_map.cols()); break;
                default: solution->dense_inv_map = Mat::Zero(r, solution->dense_inv_map.cols() + 1); break;
            }
        }
        SymbolTable second{s.context()};
        std::unique_ptr<Derived::SymbolTableMap> other;
        try { other = std::make_unique<Derived::SymbolTableMap>(origin, second, std::move(core), std::move(solution)); }
        catch (const Moment::errors::bad_map& e) { c.check(misshapen, std::string("refused with core and solution: ") + e.what()); }
        if (other) {
            c.check(!misshapen, "a solution of another shape is accepted");
            c.check(other->fwd_size() == map->fwd_size() && other->inv_size() == map->inv_size() && second.size() == target.size(), "size of the map with given solution");
            for (auto& [id, j] : column) c.checkf(pbt::close(eval((*other)(id), y), eval((*map)(id), y)), [&] { return pbt::str("#", id, " is mapped otherwise with given solution"); });
            for (size_t k = 0; k < y.size(); ++k) c.check(pbt::close(eval(other->inverse(static_cast<symbol_name_t>(k)), x), y[k]), "inverse with given solution");
        }
    }
    // into a table in use
    bool refused = false;
    if (y.size() > 2) {
        try { Derived::SymbolTableMap again{origin, target, lu, a}; } catch (const Moment::errors::bad_map&) { refused = true; }
        c.check(refused, "a table with symbols is accepted as target");
    }
}

LAW(map_cores, "a column is skipped, and another has an offset and other entries", 6000, 120000) {
    // however it is made, a core says what every column of the matrix is but those skipped
    auto cols = static_cast<Eigen::Index>(1 + c.below(6)), rows = static_cast<Eigen::Index>(1 + c.below(6));
    Mat a = Mat::Zero(rows, cols);
    DynamicBitset<size_t> skipped{static_cast<size_t>(cols), false};
    for (Eigen::Index j = 0; j < cols; ++j) for (Eigen::Index i = 0; i < rows; ++i) if (c.chance(j == 0 ? 5 : 40)) a(i, j) = static_cast<double>(c.range(-4, 5)) / 2;
    a(0, 0) = c.chance(5) ? -1.0 : 1.0;
    bool any_skipped = false;
    for (Eigen::Index j = 1; j < cols; ++j) if (c.chance(20)) { skipped.set(static_cast<size_t>(j)); any_skipped = true; }
    c.note(show(a));
    bool keeps = a(0, 0) == 1.0;
    for (Eigen::Index i = 1; i < rows; ++i) keeps = keeps && a(i, 0) == 0.0;
    for (size_t k = 0; k < 4; ++k) {
        std::string name = pbt::str(k < 2 ? "dense" : "sparse", " core of a ", k % 2 ? "sparse" : "dense", " matrix: ");
        std::unique_ptr<Derived::MapCore> core;
        Mat dense;
        try {
            Eigen::SparseMatrix<double> sp{a.sparseView()};
            if (k == 0) { auto u = std::make_unique<Derived::DenseMapCore>(skipped, a); dense = u->core; core = std::move(u); }
            if (k == 1) { auto u = std::make_unique<Derived::DenseMapCore>(skipped, sp); dense = u->core; core = std::move(u); }
            if (k == 2) { auto u = std::make_unique<Derived::SparseMapCore>(skipped, a); dense = Mat(u->core); core = std::move(u); }
            if (k == 3) { auto u = std::make_unique<Derived::SparseMapCore>(skipped, sp); dense = Mat(u->core); core = std::move(u); }
        } catch (const Moment::errors::bad_map& e) { c.check(!keeps, name + "refused: " + e.what()); continue; }
        c.check(keeps, name + "does not keep the identity, but is accepted");
        c.check(core->initial_size == static_cast<size_t>(cols), name + "size");
        c.check(dense.rows() == static_cast<Eigen::Index>(core->nontrivial_cols.count()) && dense.cols() == static_cast<Eigen::Index>(core->nontrivial_rows.count()) && core->core_offset.size() == dense.rows(), name + "shape of the core");
        c.check(!core->nontrivial_cols.test(0) && !core->nontrivial_rows.test(0), name + "the identity is in the core");
        Eigen::Index at = 0;
        for (Eigen::Index j = 1; j < cols; ++j) {
            auto u = static_cast<size_t>(j);
            Eigen::VectorXd col = Eigen::VectorXd::Zero(rows);
            const bool inside = core->nontrivial_cols.test(u);
            auto constant = core->constants.find(u);
            if (skipped.test(u)) { c.check(!inside && constant == core->constants.end(), name + "a skipped column is kept"); continue; }
            c.check(inside != (constant != core->constants.end()), name + "a column is neither constant nor in the core, or both");
            if (inside) {
                col(0) = core->core_offset(at);
                Eigen::Index r = 0;
                for (auto row : core->nontrivial_rows) col(static_cast<Eigen::Index>(row)) = dense(at, r++);
                ++at;
            } else col(0) = constant->second;
            c.checkf((col - a.col(j)).cwiseAbs().maxCoeff() == 0, [&] { return pbt::str(name, "column ", j, " reads back otherwise"); });
            if (any_skipped && inside && a(0, j) != 0) c.nontrivial();
        }
        if (k < 2) {
            // the solution is a factorisation of the core
            Derived::LUMapCoreProcessor lu;
            auto solution = core->accept(lu);
            core->check_solution(*solution);
            if (solution->trivial_solution) c.check(dense.size() == 0 && solution->output_symbols == 0, name + "trivial solution");
            else c.check((solution->dense_map * solution->dense_inv_map - dense).cwiseAbs().maxCoeff() < 1e-9, name + "the solution is not a factorisation");
        }
    }
}
