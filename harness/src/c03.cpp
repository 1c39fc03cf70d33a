// C03: Pauli words.
#include "models.h"
#include "scenarios/pauli/pauli_context.h"
#include "dictionary/raw_polynomial.h"
#include <Eigen/Dense>
using namespace Moment;
using namespace model;
using Cplx = std::complex<double>;

namespace {
    struct Setting {
        model::Pauli m;
        std::unique_ptr<Moment::Pauli::PauliContext> ctx;
        std::string text;
    };
    Setting setting(pbt::Case& c, int max_qubits) {
        int kind = static_cast<int>(c.below(3));
        if (kind < 2) {
            int q = static_cast<int>(c.range(1, max_qubits));
            auto wrap = c.coin() ? Moment::Pauli::WrapType::Wrap : Moment::Pauli::WrapType::None;
            Setting s{model::Pauli{q}, std::make_unique<Moment::Pauli::PauliContext>(static_cast<size_t>(q), wrap), pbt::str(q, " qubits")};
            c.note(s.text);
            return s;
        }
        int h = static_cast<int>(c.range(1, std::min(6, max_qubits)));
        int w = static_cast<int>(c.range(1, std::max(1, std::min(8, max_qubits / h))));
        Setting s{model::Pauli{h * w}, std::make_unique<Moment::Pauli::PauliContext>(static_cast<size_t>(h), static_cast<size_t>(w)), pbt::str(h, "x", w, " lattice")};
        c.note(s.text);
        return s;
    }
    Ops pword(pbt::Case& c, const model::Pauli& m, size_t max_len) {
        // Concentrate on few qubits so that products collide
        size_t cap = std::min<size_t>(max_len, 40);
        size_t len = static_cast<size_t>(c.sized(0, static_cast<int64_t>(cap)));
        int window = static_cast<int>(c.range(1, m.qubits));
        if (c.chance(50)) window = std::min(window, 3);
        int base = static_cast<int>(c.below(static_cast<uint64_t>(m.qubits - window + 1)));
        Ops w;
        for (size_t i = 0; i < len; ++i) w.push_back(3 * base + static_cast<int>(c.below(static_cast<uint64_t>(3 * window))));
        return w;
    }
    /** Normal forms only have to be hashable; raw words may be longer. */
    bool hashable(const model::Pauli& m, const Word& w) { return w.ops.size() <= max_hashable(m.n); }

    Eigen::MatrixXcd matrix(const model::Pauli& m, const Ops& w, int sign) {
        static const Cplx I{0, 1};
        Eigen::Matrix2cd P[3];
        P[0] << 0, 1, 1, 0;
        P[1] << 0, -I, I, 0;
        P[2] << 1, 0, 0, -1;
        long d = 1L << m.qubits;
        Eigen::MatrixXcd r = Eigen::MatrixXcd::Identity(d, d);
        for (int o : w) {
            Eigen::MatrixXcd f = Eigen::MatrixXcd::Identity(1, 1);
            for (int q = 0; q < m.qubits; ++q) {
                Eigen::MatrixXcd e = q == o / 3 ? Eigen::MatrixXcd(P[o % 3]) : Eigen::MatrixXcd(Eigen::Matrix2cd::Identity());
                Eigen::MatrixXcd t(f.rows() * 2, f.cols() * 2);
                for (long a = 0; a < f.rows(); ++a) for (long b = 0; b < f.cols(); ++b) t.block(2 * a, 2 * b, 2, 2) = f(a, b) * e;
                f = t;
            }
            r = r * f;
        }
        for (int k = 0; k < sign; ++k) r *= I;
        return r;
    }
    Eigen::MatrixXcd matrix(const model::Pauli& m, const OperatorSequence& s) {
        if (s.zero()) return Eigen::MatrixXcd::Zero(1L << m.qubits, 1L << m.qubits);
        return matrix(m, ops_of(s), static_cast<int>(s.get_sign()));
    }
    bool eq(const Eigen::MatrixXcd& a, const Eigen::MatrixXcd& b) { return (a - b).cwiseAbs().maxCoeff() < 1e-9; }

    using Poly = std::map<Ops, Cplx>;
    void add(Poly& p, const Word& w, Cplx f) {
        if (w.zero) return;
        static const Cplx I{0, 1};
        for (int k = 0; k < w.sign; ++k) f *= I;
        p[w.ops] += f;
    }
    Poly read(const RawPolynomial& r) {
        Poly p;
        for (auto& e : r) if (!e.sequence.zero()) add(p, from_seq(e.sequence), e.weight);
        return p;
    }
    void compare(pbt::Case& c, const Poly& got, const Poly& want, const std::string& what) {
        std::set<Ops> keys;
        for (auto& [k, v] : got) keys.insert(k);
        for (auto& [k, v] : want) keys.insert(k);
        for (auto& k : keys) {
            auto g = got.count(k) ? got.at(k) : Cplx{}, w = want.count(k) ? want.at(k) : Cplx{};
            c.checkf(pbt::close(g, w), [&] { return what + ": coefficient of " + text(k) + " is " + pbt::str(g) + ", expected " + pbt::str(w); });
        }
    }
}

LAW(matrices, "the word has repeated qubits", 80000, 2000000) {
    auto s = setting(c, 3);
    auto& m = s.m;
    auto a = pword(c, m, 10), b = pword(c, m, 10);
    int sa = static_cast<int>(c.below(4)), sb = static_cast<int>(c.below(4));
    c.note("a=" + text(a) + " b=" + text(b) + pbt::str(" signs ", sa, sb));
    auto A = to_seq(*s.ctx, a, sa), B = to_seq(*s.ctx, b, sb);
    auto MA = matrix(m, a, sa), MB = matrix(m, b, sb);
    c.nontrivial(A.size() < a.size() || B.size() < b.size());
    c.check(eq(matrix(m, A), MA), "the simplified word is another operator: " + text(from_seq(A)));
    c.check(eq(matrix(m, A * B), MA * MB), "a*b is another operator");
    c.check(eq(matrix(m, A.conjugate()), MA.adjoint()), "a* is another operator");
    c.check(eq(matrix(m, -A), -MA), "-a is another operator");
    auto com = s.ctx->commutator(A, B), anti = s.ctx->anticommutator(A, B);
    Eigen::MatrixXcd mc = (MA * MB - MB * MA) / 2.0, ma = (MA * MB + MB * MA) / 2.0;
    c.check(eq(matrix(m, com), mc), "half commutator is another operator");
    c.check(eq(matrix(m, anti), ma), "half anticommutator is another operator");
    c.check(com.zero() == (mc.cwiseAbs().maxCoeff() < 1e-9), "commutation test");
    c.check(anti.zero() == (ma.cwiseAbs().maxCoeff() < 1e-9), "anticommutation test");
    c.label(com.zero() ? "commute" : "anticommute");
    // the bit-vector model used below is itself checked here
    auto w = m.normal(a, sa);
    c.check(eq(matrix(m, w.ops, w.sign), MA), "model");
}

LAW(words, "the word is shortened or its phase changes", 250000, 12000000) {
    auto s = setting(c, c.chance(20) ? 200 : 24);
    auto& m = s.m;
    auto radix = static_cast<uint64_t>(m.n);
    auto a = pword(c, m, 30), b = pword(c, m, 20), d = pword(c, m, 10);
    int sa = static_cast<int>(c.below(4)), sb = static_cast<int>(c.below(4)), sd = static_cast<int>(c.below(4));
    c.note("a=" + text(a) + " b=" + text(b) + " d=" + text(d) + pbt::str(" signs ", sa, sb, sd));
    auto wa = m.normal(a, sa), wb = m.normal(b, sb), wd = m.normal(d, sd);
    c.nontrivial(wa.ops.size() < a.size() || wa.sign != sa);
    auto A = to_seq(*s.ctx, a, sa), B = to_seq(*s.ctx, b, sb), D = to_seq(*s.ctx, d, sd);
    same(c, A, wa, radix, "simplified a");
    same(c, B, wb, radix, "simplified b");
    same(c, A * B, m.mul(wa, wb), radix, "a*b");
    same(c, (A * B) * D, m.mul(m.mul(wa, wb), wd), radix, "(ab)d");
    same(c, A * (B * D), m.mul(m.mul(wa, wb), wd), radix, "a(bd)");
    same(c, A.conjugate(), m.conj(wa), radix, "a*");
    same(c, (A * B).conjugate(), m.mul(m.conj(wb), m.conj(wa)), radix, "(ab)*");
    same(c, A * A, m.mul(wa, wa), radix, "a*a");
    c.check((A * A).empty(), "a*a is not a phase");
    auto I = s.ctx->identity(static_cast<SequenceSignType>(sb));
    Word wi;
    wi.sign = sb;
    same(c, A * I, m.mul(wa, wi), radix, "a*1");
    same(c, I * A, m.mul(wi, wa), radix, "1*a");
    auto Z = s.ctx->zero();
    same(c, A * Z, Zero(), radix, "a*0");
    same(c, Z * A, Zero(), radix, "0*a");
    c.check(Z * A == Z && A * Z == Z && Z * I == Z && I * Z == Z, "a product with zero does not equal zero");
    // Order of mutually commuting (different-qubit) factors is immaterial
    auto v = a;
    for (int i = 0; i < 6 && v.size() > 1; ++i) {
        size_t k = c.below(v.size() - 1);
        if (v[k] / 3 != v[k + 1] / 3) std::swap(v[k], v[k + 1]);
    }
    c.check(to_seq(*s.ctx, v, sa) == A && from_seq(to_seq(*s.ctx, v, sa)) == wa, "reordering different qubits changes the word");
    Word minus = wa;
    minus.sign = (wa.sign + 2) % 4;
    auto ht = A.hermitian_type();
    auto wc = m.conj(wa);
    c.check(ht == (wc == wa ? HermitianType::Hermitian : HermitianType::AntiHermitian), "hermitian_type");
    if (hashable(m, wa) && hashable(m, wb)) {
        c.check((A == B) == (wa == wb), "comparison");
    }
    auto gic = s.ctx->get_if_canonical(store(a));
    auto na = m.normal(a);
    if (a.size() <= max_hashable(m.n)) c.check(gic.has_value() == (na.ops == a), "get_if_canonical");
}

LAW(commutators, "the words share at least two qubits", 200000, 10000000) {
    auto s = setting(c, c.chance(60) ? 5 : 30);
    auto& m = s.m;
    auto radix = static_cast<uint64_t>(m.n);
    auto a = pword(c, m, 16), b = pword(c, m, 16);
    int sa = static_cast<int>(c.below(4)), sb = static_cast<int>(c.below(4));
    c.note("a=" + text(a) + " b=" + text(b) + pbt::str(" signs ", sa, sb));
    auto wa = m.normal(a, sa), wb = m.normal(b, sb);
    int shared = 0;
    for (int x : wa.ops) for (int y : wb.ops) shared += x / 3 == y / 3;
    c.nontrivial(shared >= 2);
    auto A = to_seq(*s.ctx, a, sa), B = to_seq(*s.ctx, b, sb);
    auto ab = m.mul(wa, wb), ba = m.mul(wb, wa);
    bool commute = ab == ba;
    c.label(commute ? "commute" : "anticommute");
    same(c, s.ctx->commutator(A, B), commute ? Zero() : ab, radix, "half commutator");
    same(c, s.ctx->anticommutator(A, B), commute ? ab : Zero(), radix, "half anticommutator");
    same(c, s.ctx->commutator(B, A), commute ? Zero() : ba, radix, "half commutator, reversed");
    auto Z = s.ctx->zero();
    c.check(s.ctx->commutator(A, Z).zero() && s.ctx->anticommutator(Z, A).zero(), "commutator with zero");
}

LAW(named_operators, "qubit other than the first", 20000, 300000) {
    auto s = setting(c, 60);
    auto q = static_cast<oper_name_t>(c.below(static_cast<uint64_t>(s.m.qubits)));
    int sg = static_cast<int>(c.below(4));
    c.nontrivial(q > 0);
    auto radix = static_cast<uint64_t>(s.m.n);
    auto st = static_cast<SequenceSignType>(sg);
    same(c, s.ctx->sigmaX(q, st), Word{false, sg, {3 * q}}, radix, "sigmaX");
    same(c, s.ctx->sigmaY(q, st), Word{false, sg, {3 * q + 1}}, radix, "sigmaY");
    same(c, s.ctx->sigmaZ(q, st), Word{false, sg, {3 * q + 2}}, radix, "sigmaZ");
    c.check(s.ctx->qubit_size == static_cast<size_t>(s.m.qubits) && s.ctx->size() == static_cast<size_t>(s.m.n), "sizes");
    if (s.ctx->is_lattice()) {
        auto h = s.ctx->col_height;
        auto [row, col] = s.ctx->qubit_offset_to_indices(static_cast<size_t>(q));
        c.check(row < h && col < s.ctx->row_width && row + col * h == static_cast<size_t>(q), "qubit_offset_to_indices");
        c.check(s.ctx->qubit_indices_to_offset(row, col) == static_cast<size_t>(q), "qubit_indices_to_offset");
        auto r = static_cast<oper_name_t>(row), cl = static_cast<oper_name_t>(col);
        c.check(s.ctx->sigmaX(r, cl) == s.ctx->sigmaX(q) && s.ctx->sigmaY(r, cl) == s.ctx->sigmaY(q) && s.ctx->sigmaZ(r, cl) == s.ctx->sigmaZ(q), "lattice coordinates");
    }
}

LAW(polynomials, "the product has cancelling or merging terms", 100000, 4000000) {
    auto s = setting(c, c.chance(60) ? 2 : 8);
    auto& m = s.m;
    auto gen = [&](RawPolynomial& r, Poly& p) {
        size_t k = static_cast<size_t>(c.sized(0, 5));
        for (size_t i = 0; i < k; ++i) {
            auto w = pword(c, m, 5);
            int sg = static_cast<int>(c.below(4));
            Cplx f{c.nice_nonzero(), c.chance(30) ? c.nice_nonzero() : 0.0};
            c.note(pbt::str(f) + text(w) + "^" + std::to_string(sg));
            r.emplace_back(to_seq(*s.ctx, w, sg), f);
            add(p, m.normal(w, sg), f);
        }
    };
    RawPolynomial a, b;
    Poly pa, pb;
    gen(a, pa);
    c.note("|");
    gen(b, pb);
    compare(c, read(a), pa, "polynomial");
    Poly prod, rev;
    size_t terms = 0;
    for (auto& [x, fx] : pa) for (auto& [y, fy] : pb) {
        add(prod, m.mul(Word{false, 0, x}, Word{false, 0, y}), fx * fy);
        add(rev, m.mul(Word{false, 0, y}, Word{false, 0, x}), fx * fy);
        ++terms;
    }
    c.nontrivial(prod.size() < terms);
    compare(c, read(s.ctx->Context::multiply(a, b)), prod, "product");
    Poly com = prod, anti = prod;
    for (auto& [k, v] : rev) { com[k] -= v; anti[k] += v; }
    compare(c, read(s.ctx->commutator(a, b)), com, "commutator");
    compare(c, read(s.ctx->anticommutator(a, b)), anti, "anticommutator");
}
