// C10: moment, localizing and commutator matrices.
#include "../pbt.h"
#include "../scene.h"
#include "../matrix_check.h"
#include "dictionary/dictionary.h"
#include "dictionary/operator_sequence_generator.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "matrix/polynomial_localizing_matrix.h"
#include "scenarios/pauli/matrices/polynomial_matrices.h"

using namespace Moment;
using namespace model;
namespace mp = Moment::Pauli;

namespace {
    constexpr size_t largest = 40;
    using MTP = Multithreading::MultiThreadPolicy;

    struct Rows { std::vector<Word> col, row; };
    Rows rows_of(const pbt::Case& c, const Scene& s, const OSGPair& pair) {
        Rows r;
        for (auto& q : pair()) r.col.push_back(from_seq(q));
        for (auto& q : pair.conjugate()) r.row.push_back(from_seq(q));
        c.check(r.col.size() == r.row.size(), "rows and columns have different numbers of words");
        for (size_t i = 0; i < r.col.size(); ++i) c.checkf(s.conj(r.col[i]) == r.row[i], [&] { return pbt::str("word ", i, ": ", text(r.col[i]), " has row word ", text(r.row[i])); });
        return r;
    }
    std::optional<size_t> level_for(pbt::Case& c, const Scene& s) {
        // words of a level are at most sum n^k
        auto most = c.below(4);
        for (size_t l = most;; --l) {
            double words = 0, p = 1;
            for (size_t k = 0; k <= l; ++k, p *= std::max(1, s.n)) words += p;
            bool ok = words <= 400 && 2 * l + 4 <= std::max<size_t>(s.max_len * 2, 2);
            if (ok && s.system->osg_size(l) <= largest) return l;
            if (l == 0) return std::nullopt;
        }
    }
    struct Raw { RawPolynomial p; std::string text; };
}

LAW(requests, "a matrix whose word is not the identity, of dimension 2 or more", 5000, 250000) {
    SceneOptions o;
    o.system = true;
    auto s = gen_scene(c, o);
    c.note(s.name);
    c.label(kind_name[s.kind]);
    auto& ms = *s.system;
    auto* pauli = dynamic_cast<mp::PauliMatrixSystem*>(&ms);
    struct Done { std::string what; ptrdiff_t index; const SymbolicMatrix* matrix; std::function<void()> verify; };
    std::vector<Done> done;
    std::vector<std::pair<Ops, int>> words;      // previously used
    auto gen_word = [&] {
        if (!words.empty() && c.chance(35)) {    // same word, maybe with another sign
            auto w = words[c.below(words.size())];
            if (c.coin()) w.second = static_cast<int>(c.below(4));
            return w;
        }
        std::pair<Ops, int> w{c.chance(15) ? Ops{} : s.word(c, 2), c.chance(70) ? 0 : static_cast<int>(c.below(4))};
        words.push_back(w);
        return w;
    };
    size_t requests = static_cast<size_t>(c.range(1, 5));
    for (size_t r = 0; r < requests; ++r) {
        auto lvl = level_for(c, s);
        if (!lvl) throw pbt::Discard{};
        size_t level = *lvl;
        bool nn = pauli && c.chance(60);
        size_t near = nn ? c.below(s.pauli.lattice ? 2 : 4) : 0;
        auto kind = static_cast<int>(c.below(pauli ? 10 : 4));
        auto policy = c.chance(80) ? MTP::Never : MTP::Optional;
        auto rows = std::make_shared<Rows>(nn ? rows_of(c, s, pauli->pauliContext.pauli_dictionary().NearestNeighbour(mp::NearestNeighbourIndex{level, near}))
                                              : rows_of(c, s, ms.Context().dictionary().Level(level)));
        if (rows->col.size() > largest) continue;
        auto [raw, sign] = gen_word();
        auto seq = to_seq(s.context(), raw, sign);
        // the polynomial: words with weights
        RawPolynomial poly;
        std::vector<std::pair<Word, cd>> terms;
        std::string ptext;
        auto add_term = [&](const Ops& w, int sg, cd f) {
            poly.emplace_back(to_seq(s.context(), w, sg), f);
            terms.emplace_back(from_seq(to_seq(s.context(), w, sg)), f);
            ptext += pbt::str(" + ", f, text(from_seq(to_seq(s.context(), w, sg))));
        };
        bool polynomial = kind == 2 || kind == 3 || kind == 5 || kind == 6 || kind == 8 || kind == 9;
        if (polynomial) {
            auto k = c.chance(12) ? 4 + c.below(6) : c.below(4);
            for (uint64_t i = 0; i < k; ++i) { auto [w, sg] = gen_word(); add_term(w, sg, gen_coef(c)); }
        }
        enum { LEFT, COMM, ANTI } op = kind >= 7 ? ANTI : kind >= 4 ? COMM : LEFT;
        std::string what = pbt::str("level ", level, nn ? pbt::str(" neighbours ", near) : "");
        ptrdiff_t index = -1;
        const SymbolicMatrix* m = nullptr;
        const void* again = nullptr;
        auto keep = [&](auto& indices, const auto& ix) {
            auto before = indices.contains(ix);
            auto [off, mat] = indices.create(ix, policy);
            index = static_cast<ptrdiff_t>(off);
            m = &mat;
            c.check(indices.contains(ix) && indices.find_index(ix) == index, what + ": not found after creation");
            auto [off2, mat2] = indices.create(ix, policy);
            c.check(off2 == off && &mat2 == &mat, what + ": a second request made another matrix");
            again = &indices(ix);
            c.check(again == static_cast<const void*>(&mat), what + ": look-up gives another matrix");
            if (before) c.label("requested before");
        };
        // polynomials by symbols: what the symbols stand for
        auto by_symbols = [&] {
            auto p = ms.polynomial_factory().register_and_construct(ms.Symbols(), poly);
            terms.clear();
            for (auto& mono : p) {
                auto& sym = ms.Symbols()[static_cast<size_t>(mono.id)];
                terms.emplace_back(from_seq(mono.conjugated ? sym.sequence_conj() : sym.sequence()), mono.factor);
            }
            ptext = pbt::str(p);
            return p;
        };
        using NN = mp::NearestNeighbourIndex;
        switch (kind) {
            case 0:
                what = "moment matrix " + what;
                terms = {{Word{}, 1.0}};
                if (nn) keep(pauli->PauliMomentMatrices, mp::MomentMatrixIndex{level, near});
                else keep(ms.MomentMatrix, MomentMatrixIndex{level});
                break;
            case 1:
                what = "localizing matrix " + what + " of " + text(from_seq(seq));
                terms = {{from_seq(seq), 1.0}};
                if (nn) keep(pauli->PauliLocalizingMatrices, mp::LocalizingMatrixIndex{level, near, seq});
                else keep(ms.LocalizingMatrix, LocalizingMatrixIndex{level, seq});
                break;
            case 2: {
                auto p = by_symbols();
                what = "polynomial localizing matrix " + what + " of " + ptext;
                if (nn) keep(pauli->PauliPolynomialLocalizingMatrices, mp::PolynomialLocalizingMatrixIndex{level, near, p});
                else keep(ms.PolynomialLocalizingMatrix, PolynomialLocalizingMatrixIndex{level, p});
                break;
            }
            case 3: case 6: case 9: {
                what = std::string{kind == 3 ? "localizing" : kind == 6 ? "commutator" : "anticommutator"} + " matrix from words " + what + " of " + ptext;
                if (kind == 3 && !nn) { auto [off, mat] = ms.create_and_register_localizing_matrix(level, poly, policy); index = off; m = &mat; }
                else if (kind == 3) { auto [off, mat] = pauli->create_and_register_localizing_matrix(NN{level, near}, poly, policy); index = off; m = &mat; }
                else {
                    if (!nn) rows = std::make_shared<Rows>(rows_of(c, s, pauli->pauliContext.pauli_dictionary().NearestNeighbour(NN{level, near})));
                    auto [off, mat] = kind == 6 ? pauli->create_and_register_commutator_matrix(NN{level, near}, poly, policy)
                                                : pauli->create_and_register_anticommutator_matrix(NN{level, near}, poly, policy);
                    index = off; m = &mat;
                }
                break;
            }
            case 4: case 7:
                what = std::string{kind == 4 ? "commutator" : "anticommutator"} + " matrix " + what + " with " + text(from_seq(seq));
                terms = {{from_seq(seq), 1.0}};
                if (kind == 4) keep(pauli->CommutatorMatrices, mp::CommutatorMatrixIndex{level, near, seq});
                else keep(pauli->AnticommutatorMatrices, mp::AnticommutatorMatrixIndex{level, near, seq});
                break;
            default: {
                auto p = by_symbols();
                what = std::string{kind == 5 ? "commutator" : "anticommutator"} + " matrix " + what + " with polynomial " + ptext;
                if (kind == 5) keep(pauli->PolynomialCommutatorMatrices, mp::PolynomialCommutatorMatrixIndex{level, near, p});
                else keep(pauli->PolynomialAnticommutatorMatrices, mp::PolynomialAnticommutatorMatrixIndex{level, near, p});
                break;
            }
        }
        c.note(what);
        c.check(index >= 0 && static_cast<size_t>(index) < ms.size() && &ms[index] == m, what + ": is not the matrix at its index");
        if (rows->col.size() > 1 && std::any_of(terms.begin(), terms.end(), [](auto& t) { return !t.first.zero && !t.first.ops.empty(); })) c.nontrivial();
        c.label(what.substr(0, what.find(" matrix")) + (polynomial ? " polynomial" : ""));
        auto verify = [&c, &s, &ms, m, rows, terms, op, what, polynomial, nn] {
            size_t d = rows->col.size();
            c.check(m->Dimension() == d, what + pbt::str(": dimension ", m->Dimension(), ", expected ", d));
            auto v = s.symbol_values(ms.Symbols());
            std::vector<cd> want(d * d, 0.0);
            std::vector<Word> words(d * d);
            for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
                cd w = 0;
                for (auto& [t, f] : terms) {
                    if (op == LEFT) { auto x = s.mul(s.mul(rows->row[i], t), rows->col[j]); words[j * d + i] = x; w += f * s.value(x); }
                    else {
                        auto rc = s.mul(rows->row[i], rows->col[j]);
                        w += f * (s.value(s.mul(rc, t)) + (op == COMM ? -1.0 : 1.0) * s.value(s.mul(t, rc)));
                    }
                }
                want[j * d + i] = w;
            }
            check_matrix(c, *m, ms.Symbols(), v, want, what);
            c.check(m->is_monomial() == !polynomial, what + ": monomial or polynomial");
            if (!polynomial && op == LEFT) check_operator_matrix(c, s, *m, words, what);
            c.check(!m->Description().empty(), what + ": no description");
        };
        verify();
        done.push_back({what, index, m, verify});
    }
    // all matrices still hold once later ones have been made
    for (auto& d : done) { c.check(&ms[d.index] == d.matrix, d.what + ": moved"); d.verify(); }
}
