#include "pbt.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <unordered_set>
#include <typeinfo>
#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
    uint64_t splitmix(uint64_t& s) {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t Case::next_random() { return splitmix(rng_state); }

    uint64_t Case::below(uint64_t bound) {
        if (bound <= 1) { bound = 1; }
        if (replaying) {
            uint64_t v = pos < tape_.size() ? tape_[pos] : 0;
            ++pos;
            return v % bound;
        }
        uint64_t v = static_cast<uint64_t>((static_cast<unsigned __int128>(next_random()) * bound) >> 64);
        tape_.push_back(v);
        ++pos;
        return v;
    }
    std::vector<Law>& laws() { static std::vector<Law> l; return l; }
    std::vector<Finding>& findings() { static std::vector<Finding> l; return l; }
}

using namespace pbt;

namespace {
    constexpr size_t MSG = 8000;
    constexpr size_t TAPE = 1 << 18;
    constexpr unsigned CASE_CPU_LIMIT = 20;   // s of CPU for one case (normal cases take milliseconds)

    struct Shared {
        std::atomic<uint64_t> law, idx;       // case being run (worker mode)
        std::atomic<int> outcome;             // 0 running, 1 ok, 2 property failure, 3 discard
        char msg[MSG];
        char notes[MSG];
        uint64_t tape_len;
        uint64_t tape[TAPE];
    };

    uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
        auto* b = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ULL; }
        return h;
    }
    uint64_t case_seed(uint64_t seed, const std::string& law, uint64_t idx) {
        uint64_t s = fnv(law.data(), law.size()) ^ (seed * 0x9E3779B97F4A7C15ULL);
        s ^= idx * 0xD1B54A32D192ED03ULL;
        splitmix(s);
        return splitmix(s);
    }
    uint32_t case_size(uint64_t idx, uint64_t n) {
        // Sizes cycle upwards: small cases first, but full sizes reached early and often.
        if (idx < 20) { return 5 + static_cast<uint32_t>(idx); }
        (void)n;
        return 20 + static_cast<uint32_t>((idx * 37) % 81);
    }
    void arm_cpu_limit(unsigned s) {
        struct itimerval it{};
        it.it_value.tv_sec = s;
        setitimer(ITIMER_PROF, &it, nullptr);   // CPU time, not wall time: SIGPROF ends the process
    }
    std::string demangle(const char* n) {
        int st = 0;
        char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
        std::string r = d ? d : n;
        free(d);
        return r;
    }
    /** 1 ok, 2 failure, 3 discard. */
    int run_case(const Law& law, Case& c, std::string& msg) {
        try {
            law.fn(c);
            return 1;
        } catch (const Failure& f) {
            msg = f.what();
            return 2;
        } catch (const Discard&) {
            return 3;
        } catch (const std::exception& e) {
            msg = "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what();
            return 2;
        } catch (...) {
            msg = "unexpected exception of unknown type";
            return 2;
        }
    }
    void put(char* dst, const std::string& s) {
        size_t n = std::min(s.size(), MSG - 1);
        memcpy(dst, s.data(), n);
        dst[n] = 0;
    }
    std::string json_escape(const std::string& s) {
        std::string o;
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
            else if (ch == '\n') o += "\\n";
            else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += static_cast<char>(ch);
        }
        return o;
    }
    double now() {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    std::string status_text(int st) {
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            if (sg == SIGPROF) return str("no end within ", CASE_CPU_LIMIT, " s of CPU time");
            return str("process ended by signal ", sg, " (", strsignal(sg), ")");
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return "memory error reported by the address sanitizer";
        return str("process exited with status ", WEXITSTATUS(st));
    }

    /** Runs one tape in a child process. Returns true if failed; fills msg. */
    bool run_isolated(Shared* sh, const Law& law, const std::vector<uint64_t>* tape, uint64_t seed, uint32_t size, std::string& msg,
                      bool& inconclusive, std::string* notes = nullptr, std::vector<uint64_t>* out_tape = nullptr, bool quiet = true) {
        inconclusive = false;
        sh->outcome = 0;
        sh->msg[0] = 0;
        sh->notes[0] = 0;
        sh->tape_len = 0;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
            arm_cpu_limit(CASE_CPU_LIMIT);
            std::string m;
            int r;
            if (tape) {
                Case c{*tape, size};
                r = run_case(law, c, m);
                put(sh->notes, c.notes_);
                sh->tape_len = std::min<uint64_t>(c.pos, std::min<uint64_t>(tape->size(), TAPE));
            } else {
                Case c{seed, size};
                r = run_case(law, c, m);
                put(sh->notes, c.notes_);
                sh->tape_len = std::min<uint64_t>(c.tape_.size(), TAPE);
                memcpy(sh->tape, c.tape_.data(), sh->tape_len * sizeof(uint64_t));
            }
            put(sh->msg, m);
            sh->outcome = r;
            _exit(0);
        }
        int st = 0;
        double deadline = now() + 400.0;
        for (;;) {
            pid_t w = waitpid(p, &st, WNOHANG);
            if (w == p) break;
            if (now() > deadline) { kill(p, SIGKILL); waitpid(p, &st, 0); inconclusive = true; return false; }
            usleep(500);
        }
        if (notes) *notes = sh->notes;
        if (out_tape) out_tape->assign(sh->tape, sh->tape + sh->tape_len);
        int oc = sh->outcome;
        if (oc == 2) { msg = sh->msg; return true; }
        if (oc == 1 || oc == 3) { return false; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { inconclusive = true; return false; }   // ended from outside
        msg = status_text(st);
        return true;
    }

    /** Regenerates the tape of a case whose process died: draws happen before the crash, so record them as they are made. */
    std::vector<uint64_t> recover_tape(Shared* sh, const Law& law, uint64_t seed, uint32_t size, std::string& notes) {
        // The engine draws from a generator seeded by the case: any prefix that the law consumed is the same. The child
        // copies the tape on every draw by running with a law wrapper that flushes at exit; on a crash, use a signal-safe copy.
        fflush(stdout);
        static Case* live = nullptr;
        static Shared* live_sh = nullptr;
        pid_t p = fork();
        if (p == 0) {
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
            live_sh = sh;
            Case c{seed, size};
            live = &c;
            sh->tape_len = 0;
            auto dump = +[](int sig) {
                live_sh->tape_len = std::min<uint64_t>(live->tape_.size(), TAPE);
                memcpy(live_sh->tape, live->tape_.data(), live_sh->tape_len * sizeof(uint64_t));
                put(live_sh->notes, live->notes_);
                _exit(sig == 0 ? 0 : 98);
            };
            static char stk[1 << 16];
            stack_t ss{};
            ss.ss_sp = stk; ss.ss_size = sizeof stk;
            sigaltstack(&ss, nullptr);
            struct sigaction sa{};
            sa.sa_handler = dump;
            sa.sa_flags = SA_ONSTACK;
            for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
            arm_cpu_limit(CASE_CPU_LIMIT);
            std::string m;
            run_case(law, c, m);
            dump(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        notes = sh->notes;
        return {sh->tape, sh->tape + sh->tape_len};
    }

    std::vector<uint64_t> shrink(Shared* sh, const Law& law, std::vector<uint64_t> best, uint32_t size, std::string& msg, double budget) {
        double end = now() + budget;
        int tries = 0;
        auto attempt = [&](const std::vector<uint64_t>& t) {
            if (now() > end) return false;
            ++tries;
            std::string m;
            bool inc = false;
            if (run_isolated(sh, law, &t, 0, size, m, inc)) { best = t; msg = m; return true; }
            return false;
        };
        bool progress = true;
        while (progress && now() < end) {
            progress = false;
            for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {          // delete
                for (size_t i = 0; i + blk <= best.size() && now() < end;) {
                    auto t = best;
                    t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + blk));
                    if (attempt(t)) progress = true; else i += blk;
                }
                if (blk == 1) break;
            }
            for (size_t i = 0; i < best.size() && now() < end; ++i) {                             // lower values
                if (best[i] == 0) continue;
                auto t = best;
                t[i] = 0;
                if (attempt(t)) { progress = true; continue; }
                uint64_t lo = 0, hi = best[i];
                while (lo + 1 < hi && now() < end) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    t = best;
                    t[i] = mid;
                    if (attempt(t)) { hi = mid; progress = true; } else lo = mid;
                }
            }
        }
        return best;
    }

    struct Args {
        std::string property = "C00", tier = "quick", evidence, replay, replay_dir = ".", known, only;
        uint64_t seed = 1;
        int workers = 8;
        double budget = 60.0, scale = 1.0;
        bool list = false;
    };

    struct WorkerResult {
        std::map<std::string, uint64_t> evals, nontriv, discards;
        std::map<std::string, std::map<std::string, uint64_t>> labels;
        std::unordered_set<uint64_t> fingerprints;
        std::map<std::string, std::vector<std::string>> samples;
        bool budget_hit = false;
    };

    void save(const WorkerResult& r, const std::string& path) {
        std::ofstream o{path, std::ios::binary};
        for (auto& [k, v] : r.evals) o << "E\t" << k << "\t" << v << "\n";
        for (auto& [k, v] : r.nontriv) o << "N\t" << k << "\t" << v << "\n";
        for (auto& [k, v] : r.discards) o << "D\t" << k << "\t" << v << "\n";
        for (auto& [k, m] : r.labels) for (auto& [l, v] : m) o << "L\t" << k << "\t" << v << "\t" << l << "\n";
        for (auto& [k, v] : r.samples) for (auto& s : v) o << "S\t" << k << "\t" << json_escape(s) << "\n";
        for (auto f : r.fingerprints) o << "F\t" << f << "\n";
        if (r.budget_hit) o << "B\n";
    }
    void load(WorkerResult& r, const std::string& path) {
        std::ifstream i{path, std::ios::binary};
        std::string line;
        while (std::getline(i, line)) {
            std::vector<std::string> f;
            size_t p = 0;
            while (f.size() < 3) {
                size_t q = line.find('\t', p);
                if (q == std::string::npos) break;
                f.push_back(line.substr(p, q - p));
                p = q + 1;
            }
            f.push_back(line.substr(p));
            if (f[0] == "E") r.evals[f[1]] += std::stoull(f[2]);
            else if (f[0] == "N") r.nontriv[f[1]] += std::stoull(f[2]);
            else if (f[0] == "D") r.discards[f[1]] += std::stoull(f[2]);
            else if (f[0] == "L") r.labels[f[1]][f[3]] += std::stoull(f[2]);
            else if (f[0] == "S") { if (r.samples[f[1]].size() < 3) r.samples[f[1]].push_back(f.size() > 3 ? f[2] + "\t" + f[3] : f[2]); }
            else if (f[0] == "F") r.fingerprints.insert(std::stoull(f[1]));
            else if (f[0] == "B") r.budget_hit = true;
        }
    }

    struct Found { bool any = false; size_t law = 0; uint64_t idx = 0; std::string msg; bool died = false; };

    /** Worker: cases idx = w (mod W), laws interleaved in rounds so that a budget cut affects all laws equally. */
    void worker(const Args& a, Shared* sh, int w, const std::string& out, double deadline, uint64_t until_law = ~0ULL, uint64_t until_idx = ~0ULL) {
        WorkerResult res;
        auto& L = laws();
        std::vector<uint64_t> total(L.size()), next(L.size(), static_cast<uint64_t>(w));
        for (size_t l = 0; l < L.size(); ++l) {
            uint64_t n = a.tier == "quick" ? L[l].quick : L[l].thorough;
            if (!a.only.empty() && L[l].name != a.only) n = 0;
            total[l] = static_cast<uint64_t>(static_cast<double>(n) * a.scale);
            if (n > 0 && total[l] == 0) total[l] = 1;
        }
        constexpr int ROUNDS = 50;
        bool stop = false;
        for (int round = 1; round <= ROUNDS && !stop; ++round) {
            for (size_t l = 0; l < L.size() && !stop; ++l) {
                uint64_t target = (total[l] * static_cast<uint64_t>(round) + ROUNDS - 1) / ROUNDS;
                for (; next[l] < target; next[l] += static_cast<uint64_t>(a.workers)) {
                    if (now() > deadline) { res.budget_hit = true; stop = true; break; }
                    uint64_t idx = next[l];
                    sh->law = l;
                    sh->idx = idx;
                    sh->outcome = 0;
                    arm_cpu_limit(CASE_CPU_LIMIT);
                    Case c{case_seed(a.seed, L[l].name, idx), case_size(idx, total[l])};
                    std::string m;
                    int r = run_case(L[l], c, m);
                    if (r == 2) {
                        put(sh->msg, m);
                        sh->outcome = 2;
                        arm_cpu_limit(0);
                        save(res, out);
                        _exit(0);
                    }
                    if (r == 3) { ++res.discards[L[l].name]; }
                    else {
                        ++res.evals[L[l].name];
                        for (auto& lb : c.labels_) ++res.labels[L[l].name][lb];
                        if (c.nontrivial_) {
                            ++res.nontriv[L[l].name];
                            uint64_t fp = fnv(L[l].name.data(), L[l].name.size());
                            fp = fnv(c.tape_.data(), c.tape_.size() * sizeof(uint64_t), fp);
                            res.fingerprints.insert(fp);
                            auto& smp = res.samples[L[l].name];
                            if (smp.size() < 2 && !c.notes_.empty()) smp.push_back(c.notes_.substr(0, 400));
                        }
                    }
                    if (l == until_law && idx == until_idx) { stop = true; break; }
                }
            }
        }
        arm_cpu_limit(0);
        sh->outcome = 1;
        save(res, out);
        _exit(0);
    }

    std::set<std::string> known_keys(const std::string& path, const std::string& prop) {
        std::set<std::string> r;
        std::ifstream i{path};
        std::string line;
        while (std::getline(i, line)) {
            // finding: property=<id> key=<key> <what>
            std::istringstream ss{line};
            std::string kind, p, k;
            ss >> kind >> p >> k;
            if (kind == "finding:" && p == "property=" + prop && k.rfind("key=", 0) == 0) r.insert(k.substr(4));
        }
        return r;
    }

    int replay(const Args& a, Shared* sh) {
        std::ifstream i{a.replay};
        if (!i) { std::cerr << "cannot read " << a.replay << "\n"; return 2; }
        std::string line, law;
        uint32_t size = 50;
        std::vector<uint64_t> tape;
        while (std::getline(i, line)) {
            if (line.rfind("law: ", 0) == 0) law = line.substr(5);
            if (line.rfind("size: ", 0) == 0) size = static_cast<uint32_t>(std::stoul(line.substr(6)));
            if (line.rfind("tape:", 0) == 0) {
                std::istringstream ss{line.substr(5)};
                uint64_t v;
                while (ss >> v) tape.push_back(v);
            }
        }
        for (auto& l : laws()) {
            if (l.name != law) continue;
            std::string msg, notes;
            bool inc = false;
            bool failed = false;
            for (int k = 0; k < (l.racy ? 100 : 1) && !failed; ++k) failed = run_isolated(sh, l, &tape, 0, size, msg, inc, &notes, nullptr, false);
            std::cout << "law " << law << "\ncase: " << notes << "\n" << (failed ? "FAILS: " + msg : std::string("passes")) << "\n";
            if (failed) std::cout << "VIOLATION property=" << a.property << " replay=" << a.replay << std::endl;
            return failed ? 1 : 0;
        }
        std::cerr << "no law " << law << "\n";
        return 2;
    }
}

extern "C" const char* __asan_default_options();
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:max_allocation_size_mb=4000:detect_odr_violation=0"; }
extern "C" const char* __ubsan_default_options();
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }
extern "C" const char* __tsan_default_options();
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=99:report_thread_leaks=0:history_size=4"; }

int main(int argc, char** argv) {
    Args a;
    for (int i = 1; i < argc; ++i) {
        std::string s = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (s == "--property") a.property = val();
        else if (s == "--tier") a.tier = val();
        else if (s == "--seed") a.seed = std::stoull(val());
        else if (s == "--workers") a.workers = std::stoi(val());
        else if (s == "--budget") a.budget = std::stod(val());
        else if (s == "--scale") a.scale = std::stod(val());
        else if (s == "--evidence") a.evidence = val();
        else if (s == "--replay") a.replay = val();
        else if (s == "--replay-dir") a.replay_dir = val();
        else if (s == "--known") a.known = val();
        else if (s == "--only") a.only = val();
        else if (s == "--list") a.list = true;
    }
    std::sort(laws().begin(), laws().end(), [](auto& x, auto& y) { return x.name < y.name; });
    if (a.list) { for (auto& l : laws()) std::cout << l.name << " " << l.quick << " " << l.thorough << "\n"; return 0; }

    std::vector<Shared*> shs;
    for (int w = 0; w <= a.workers; ++w) {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); return 2; }
        shs.push_back(new (p) Shared{});
    }
    Shared* scratch = shs.back();
    if (!a.replay.empty()) return replay(a, scratch);

    double t0 = now();
    double deadline = t0 + a.budget;

    // Known findings, each replayed from its concrete input.
    auto known = a.known.empty() ? std::set<std::string>{} : known_keys(a.known, a.property);
    std::vector<std::string> known_lines;
    for (auto& f : findings()) {
        std::string what;
        if (known.count(f.key) == 0) continue;
        // in a child, as it may crash
        fflush(stdout);
        int pfd[2];
        if (pipe(pfd) != 0) return 2;
        pid_t p = fork();
        if (p == 0) {
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
            arm_cpu_limit(CASE_CPU_LIMIT);
            std::string w;
            bool fails = true;
            try { fails = f.still_fails(w); } catch (const std::exception& e) { w = e.what(); }
            if (fails) { if (write(pfd[1], w.data(), std::min<size_t>(w.size(), 3000)) < 0) {} }
            _exit(fails ? 1 : 0);
        }
        close(pfd[1]);
        char buf[3001];
        ssize_t n = read(pfd[0], buf, 3000);
        close(pfd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        bool fails = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (fails) {
            std::string w(buf, n > 0 ? static_cast<size_t>(n) : 0);
            std::cout << "KNOWN-FINDING: property=" << a.property << " key=" << f.key << " " << w << std::endl;
            known_lines.push_back(f.key);
        }
    }

    char tmpl[] = "/tmp/pbt.XXXXXX";
    std::string dir = mkdtemp(tmpl);
    std::vector<pid_t> pids;
    fflush(stdout);
    for (int w = 0; w < a.workers; ++w) {
        pid_t p = fork();
        if (p == 0) {
            std::string errf = dir + "/err" + std::to_string(w);
            int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(fd, 2);
            worker(a, shs[w], w, dir + "/w" + std::to_string(w), deadline);
        }
        pids.push_back(p);
    }
    std::vector<Found> found;
    bool inconclusive_any = false;
    bool stop_sent = false;
    std::vector<bool> done(pids.size(), false);
    for (size_t left = pids.size(); left > 0;) {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        auto it = std::find(pids.begin(), pids.end(), p);
        if (it == pids.end()) continue;
        size_t w = static_cast<size_t>(it - pids.begin());
        done[w] = true;
        --left;
        Shared* sh = shs[w];
        int oc = sh->outcome;
        if (stop_sent && WIFSIGNALED(st)) continue;
        if (oc == 1) continue;
        Found f;
        f.any = true;
        f.law = sh->law;
        f.idx = sh->idx;
        if (oc == 2) { f.msg = sh->msg; }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { inconclusive_any = true; continue; }   // e.g. out of memory
        else { f.msg = status_text(st); f.died = true; }
        found.push_back(f);
        if (!stop_sent) {   // one is enough: stop the others
            stop_sent = true;
            for (size_t k = 0; k < pids.size(); ++k) if (!done[k]) kill(pids[k], SIGTERM);
        }
    }

    int rc = 0;
    std::string viol_path;
    for (auto& f : found) {
        auto& law = laws()[f.law];
        uint64_t n = a.tier == "quick" ? law.quick : law.thorough;
        uint32_t size = case_size(f.idx, n);
        uint64_t seed = case_seed(a.seed, law.name, f.idx);
        std::cout << "failure in law " << law.name << " case " << f.idx << ": " << f.msg << std::endl;
        int reproduced = 0;
        std::string msg = f.msg, notes;
        std::vector<uint64_t> tape;
        bool inc = false;
        int attempts = law.racy ? 60 : 3;
        const bool hang = f.msg.rfind("no end within", 0) == 0;
        const int needed = hang ? 1 : 3;
        for (int k = 0; k < attempts && reproduced < needed; ++k) {
            std::string m;
            std::vector<uint64_t> tp;
            if (run_isolated(scratch, law, nullptr, seed, size, m, inc, &notes, &tp)) { ++reproduced; msg = m; if (!tp.empty()) tape = tp; }
        }
        bool ok = reproduced >= needed || (law.racy);
        std::string prefix_note;
        if (!ok) {
            // State carried from one case to the next? Run the same worker's sequence again, up to this case.
            pid_t p = fork();
            Shared* sh = shs[0];
            if (p == 0) {
                int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
                worker(a, sh, static_cast<int>(f.idx % static_cast<uint64_t>(a.workers)), dir + "/again", now() + 2 * a.budget, f.law, f.idx);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (sh->outcome != 1 && sh->law == f.law && sh->idx == f.idx) { ok = true; prefix_note = "needs the preceding cases of the same worker"; }
        }
        if (!ok) {
            std::cout << "not reproduced (" << reproduced << " of " << attempts << "): inconclusive, not reported as a violation" << std::endl;
            inconclusive_any = true;
            continue;
        }
        std::vector<uint64_t> small = tape;
        if (small.empty()) { std::string nt; small = recover_tape(scratch, law, seed, size, nt); if (!nt.empty()) notes = nt; }
        if (!small.empty() && prefix_note.empty() && !law.racy) {
            std::string m;
            if (run_isolated(scratch, law, &small, 0, size, m, inc)) {
                msg = m;
                small = shrink(scratch, law, small, size, msg, a.tier == "quick" ? 25.0 : 120.0);
                run_isolated(scratch, law, &small, 0, size, msg, inc, &notes);
            } else { prefix_note = "tape alone does not reproduce; rerun the check with the seed below"; }
        }
        viol_path = a.replay_dir + "/" + a.property + "-" + law.name + ".replay";
        std::ofstream o{viol_path};
        o << "property: " << a.property << "\nlaw: " << law.name << "\nsize: " << size << "\nseed: " << a.seed << "\ncase_index: " << f.idx
          << "\nmessage: " << msg << "\ncase: " << notes << "\n";
        if (!prefix_note.empty()) o << "remark: " << prefix_note << "\n";
        o << "tape:";
        for (auto v : small) o << " " << v;
        o << "\n";
        o.close();
        std::cout << "minimal case: " << notes << "\nmessage: " << msg << std::endl;
        std::cout << "VIOLATION property=" << a.property << " replay=" << viol_path << std::endl;
        rc = 1;
        break;
    }
    if (!found.empty()) {
        for (int w = 0; w < a.workers; ++w) {
            std::ifstream e{dir + "/err" + std::to_string(w)};
            std::string line;
            int k = 0;
            while (k < 12 && std::getline(e, line)) { if (!line.empty()) { std::cout << "  [worker " << w << "] " << line << "\n"; ++k; } }
        }
    }

    WorkerResult all;
    for (int w = 0; w < a.workers; ++w) load(all, dir + "/w" + std::to_string(w));
    if (dir.rfind("/tmp/pbt.", 0) == 0) {
        for (int w = 0; w < a.workers; ++w) {
            unlink((dir + "/w" + std::to_string(w)).c_str());
            unlink((dir + "/err" + std::to_string(w)).c_str());
        }
        unlink((dir + "/again").c_str());
        rmdir(dir.c_str());
    }
    uint64_t ev = 0, nt = 0, disc = 0;
    for (auto& [k, v] : all.evals) ev += v;
    for (auto& [k, v] : all.nontriv) nt += v;
    for (auto& [k, v] : all.discards) disc += v;
    double wall = now() - t0;
    if (!a.evidence.empty()) {
        std::ofstream o{a.evidence};
        o << "{\"property\":\"" << a.property << "\",\"tier\":\"" << a.tier << "\",\"seed\":" << a.seed << ",\"level\":\"exploration\",\"coverage\":{"
          << "\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << all.fingerprints.size() << ",\"discarded\":" << disc << ",\"rule\":\"";
        o << "Each case is generated from a seeded tape of choices. Non-trivial, per law: ";
        for (auto& l : laws()) o << json_escape("[" + l.name + "] " + l.rule + "; ");
        o << "distinct = different choice tapes.\",\"samples\":[";
        bool first = true;
        for (auto& [k, v] : all.samples) for (auto& s : v) { o << (first ? "" : ",") << "\"" << json_escape("[" + k + "] ") << s << "\""; first = false; }
        o << "],\"per_law\":{";
        first = true;
        for (auto& l : laws()) {
            o << (first ? "" : ",") << "\"" << l.name << "\":{\"evaluations\":" << all.evals[l.name] << ",\"nontrivial\":" << all.nontriv[l.name]
              << ",\"discarded\":" << all.discards[l.name] << ",\"classes\":{";
            first = false;
            bool ff = true;
            for (auto& [lb, v] : all.labels[l.name]) { o << (ff ? "" : ",") << "\"" << json_escape(lb) << "\":" << v; ff = false; }
            o << "}}";
        }
        o << "},\"budget_hit\":" << (all.budget_hit ? "true" : "false") << ",\"known_findings_replayed\":" << known_lines.size()
          << ",\"inconclusive\":" << (inconclusive_any ? "true" : "false") << "},\"wall_s\":" << wall << ",\"violations\":" << (rc ? 1 : 0) << "}\n";
    }
    std::cout << a.property << " " << a.tier << " seed " << a.seed << ": " << ev << " cases, " << all.fingerprints.size() << " distinct non-trivial, " << disc
              << " discarded, " << wall << " s" << (all.budget_hit ? " (time budget reached)" : "") << (inconclusive_any ? " (part inconclusive)" : "") << std::endl;
    for (auto& l : laws()) {
        if (getenv("PBT_VERBOSE")) {
            std::cout << "  " << l.name << ": " << all.evals[l.name] << " / nontrivial " << all.nontriv[l.name] << " / discarded " << all.discards[l.name] << "  {";
            for (auto& [lb, v] : all.labels[l.name]) std::cout << lb << ":" << v << " ";
            std::cout << "}\n";
        }
    }
    return rc;
}
