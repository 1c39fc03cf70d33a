// Small property-based-testing engine. Every random choice of a case is drawn from one "tape" of integers, so a
// case is a pure function of its tape: the tape is what is recorded, shrunk and written to the replay file.
#pragma once
#include <cstdint>
#include <complex>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>

namespace pbt {

    struct Failure : std::runtime_error {
        explicit Failure(const std::string& s) : std::runtime_error{s} { }
    };
    /** Thrown to abandon a case which is outside the domain (counted as discarded). */
    struct Discard { };

    class Case {
    public:
        Case(uint64_t seed, uint32_t size) : rng_state{seed}, size_{size}, replaying{false} { }
        Case(std::vector<uint64_t> tape, uint32_t size) : tape_{std::move(tape)}, rng_state{0}, size_{size}, replaying{true} { }

        /** Uniform integer in [0, bound). */
        uint64_t below(uint64_t bound);
        /** Uniform integer in [lo, hi], both inclusive. Shrinks towards lo. */
        int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
        /** True with given percentage. Shrinks towards false. */
        bool chance(unsigned percent) { return below(100) >= 100 - percent; }
        bool coin() { return below(2) == 1; }
        template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
        template<class T> void shuffle(std::vector<T>& v) {
            for (size_t i = v.size(); i > 1; --i) { std::swap(v[i-1], v[i - 1 - below(i)]); }
        }
        /** Size hint (grows over a run): from 1 to 100. */
        [[nodiscard]] uint32_t size() const { return size_; }
        /** lo..hi, with upper bound scaled by size hint */
        int64_t sized(int64_t lo, int64_t hi) {
            int64_t cap = lo + ((hi - lo) * static_cast<int64_t>(size_) + 99) / 100;
            return range(lo, std::min(hi, std::max(lo, cap)));
        }
        /** Non-zero "nice" number: mostly a small multiple of 1/4; sometimes of a very different (still exactly representable) magnitude. */
        double nice_nonzero() {
            static const double vals[] = {1., -1., 2., -2., 0.5, -0.5, 3., -3., 0.25, -0.75, 1.5, 5.};
            double scale = chance(4) ? (coin() ? 1024.0 : 1.0 / (1 << 20)) : 1.0;
            return vals[below(12)] * scale;
        }
        double nice() { return chance(20) ? 0.0 : nice_nonzero(); }

        void note(const std::string& s) { if (notes_.size() < 4000) { notes_ += s; notes_ += "; "; } }
        void label(const std::string& s) { labels_.insert(s); }
        void nontrivial(bool b = true) { if (b) nontrivial_ = true; }

        [[noreturn]] void fail(const std::string& s) const { throw Failure{s}; }
        void check(bool ok, const std::string& s) const { if (!ok) fail(s); }
        template<class F> void checkf(bool ok, F&& f) const { if (!ok) fail(f()); }

        std::vector<uint64_t> tape_;
        size_t pos = 0;
        std::string notes_;
        std::set<std::string> labels_;
        bool nontrivial_ = false;
    private:
        uint64_t rng_state;
        uint32_t size_;
        bool replaying;
        uint64_t next_random();
    };

    using LawFn = std::function<void(Case&)>;

    struct Law {
        std::string name;
        std::string rule;        // what makes a case non-trivial
        uint64_t quick;          // cases in quick tier
        uint64_t thorough;       // cases in thorough tier
        LawFn fn;
        bool racy = false;       // outcome may depend on thread schedule
    };

    std::vector<Law>& laws();
    struct Register {
        Register(const char* name, const char* rule, uint64_t quick, uint64_t thorough, LawFn fn, bool racy = false) {
            laws().push_back(Law{name, rule, quick, thorough, std::move(fn), racy});
        }
    };
    /** Concrete known findings: replayed on every run. */
    struct Finding {
        std::string key;         // as in known_findings.txt
        std::function<bool(std::string&)> still_fails;   // true if the recorded failure is still there
    };
    std::vector<Finding>& findings();
    struct RegisterFinding {
        RegisterFinding(const char* key, std::function<bool(std::string&)> fn) { findings().push_back(Finding{key, std::move(fn)}); }
    };

    template<class... T> std::string str(T&&... t) {
        std::ostringstream ss;
        ss.precision(17);
        (ss << ... << t);
        return ss.str();
    }
    template<class C> std::string join(const C& c, const char* sep = ",") {
        std::ostringstream ss;
        bool first = true;
        for (const auto& x : c) { if (!first) ss << sep; first = false; ss << +x; }
        return ss.str();
    }
    inline bool close(double a, double b, double tol = 1e-8) { return std::abs(a - b) <= tol * (1.0 + std::abs(a) + std::abs(b)); }
    inline bool close(std::complex<double> a, std::complex<double> b, double tol = 1e-8) {
        return std::abs(a - b) <= tol * (1.0 + std::abs(a) + std::abs(b));
    }
    uint64_t splitmix(uint64_t& s);
}

#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
// LAW(name, "what is non-trivial", quick cases, thorough cases) { body using Case& c }
#define LAW(NAME, RULE, Q, T) \
    static void law_##NAME(pbt::Case& c); \
    static pbt::Register reg_##NAME{#NAME, RULE, Q, T, law_##NAME}; \
    static void law_##NAME(pbt::Case& c)
#define RACY_LAW(NAME, RULE, Q, T) \
    static void law_##NAME(pbt::Case& c); \
    static pbt::Register reg_##NAME{#NAME, RULE, Q, T, law_##NAME, true}; \
    static void law_##NAME(pbt::Case& c)
