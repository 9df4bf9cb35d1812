// Property-based testing core: choice tapes, deterministic generation, forked workers, crash capture,
// universal shrinking and replay. One engine binary holds the suites of one property.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using f64 = double;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline u64 fnv(std::string_view s, u64 h = 1469598103934665603ull) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

constexpr size_t MAX_TAPE = 60000;
constexpr size_t MAX_TEXT = 1 << 18;

// Shared with the parent so that it survives a crash of the worker.
struct Shared {
    volatile u64 suite;
    volatile u64 index;
    volatile u64 tape_len;
    volatile u64 status; // 0 running, 1 finished ok, 2 property failure
    volatile u64 text_len, msg_len;
    u64 tape[MAX_TAPE];
    char text[MAX_TEXT];
    char msg[1 << 16];
};

struct Fail {
    std::string msg;
};
struct Discard {};

inline std::string vfmt(const char* f, va_list ap) {
    char* p = nullptr;
    int n = vasprintf(&p, f, ap);
    std::string r = n >= 0 ? std::string(p, n) : std::string();
    free(p);
    return r;
}
__attribute__((format(printf, 1, 2))) inline std::string sfmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string r = vfmt(f, ap);
    va_end(ap);
    return r;
}

// The source of all randomness of a case. Every draw is a number below a bound; the sequence of draws
// ("tape") identifies the case. Generators must treat 0 as the simplest choice.
class Tape {
public:
    explicit Tape(u64 seed, Shared* sh)
        : rng_(mix(seed))
        , random_(true)
        , sh_(sh) { if (sh_) sh_->tape_len = 0; }
    explicit Tape(std::vector<u64> data, Shared* sh)
        : random_(false)
        , data_(std::move(data))
        , sh_(sh) { if (sh_) sh_->tape_len = 0; }

    u64 below(u64 n) {
        if (n <= 1) return 0;
        u64 v = 0;
        if (random_) {
            if (pos_ < MAX_TAPE) {
                rng_ = rng_ + 0x9e3779b97f4a7c15ull;
                u64 z = rng_;
                z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
                z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
                z ^= z >> 31;
                v = z % n;
            }
        } else if (pos_ < data_.size()) {
            v = data_[pos_] % n;
        }
        if (sh_ && pos_ < MAX_TAPE) {
            sh_->tape[pos_] = v;
            sh_->tape_len = pos_ + 1;
        }
        ++pos_;
        return v;
    }
    u64 raw() {
        u64 hi = below(1ull << 32), lo = below(1ull << 32);
        return (hi << 32) | lo;
    }
    // inclusive
    i64 range(i64 lo, i64 hi) { return lo + (i64) below((u64) (hi - lo) + 1); }
    // true with probability num/den (0 on the tape means false)
    bool chance(u64 num, u64 den) { return below(den) >= den - num; }
    template<typename T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<typename T>
    T pick(std::initializer_list<T> v) { return v.begin()[below(v.size())]; }
    // index with the given weights
    size_t weighted(std::initializer_list<u32> w) { return weighted(std::vector<u32>(w)); }
    size_t weighted(const std::vector<u32>& w) {
        u64 tot = 0;
        for (auto x : w) tot += x;
        u64 v = below(tot);
        for (size_t i = 0; i < w.size(); ++i) {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return 0;
    }
    // geometric-ish size: small numbers are likely
    u64 size(u64 max) {
        switch (weighted({4, 3, 2, 1})) {
        case 0: return below(std::min<u64>(max, 4) + 1);
        case 1: return below(std::min<u64>(max, 12) + 1);
        case 2: return below(std::min<u64>(max, 40) + 1);
        default: return below(max + 1);
        }
    }
    // integers with a bias towards borders
    i64 any_i64() {
        static const i64 special[] = {0, 1, -1, 2, -2, 3, 7, 8, 10, 16, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 255, 256,
            -128, 1000, 65535, 65536, INT32_MAX, (i64) INT32_MAX + 1, INT32_MIN, (i64) INT32_MIN - 1, UINT32_MAX,
            (i64) UINT32_MAX + 1, (1ll << 53) - 1, 1ll << 53, (1ll << 53) + 1, -(1ll << 53) - 1, 3037000499ll, 3037000500ll,
            -3037000500ll, (1ll << 61) - 1, 1ll << 61, (1ll << 62) - 1, 1ll << 62, (1ll << 62) + 1, -(1ll << 62) - 1,
            -(1ll << 62), -(1ll << 62) + 1, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, INT64_MAX / 2, INT64_MIN / 2};
        switch (weighted({5, 6, 2, 3, 2})) {
        case 0: return range(-10, 10) + 0;
        case 1: return special[below(sizeof special / sizeof *special)];
        case 2: return (i64) ((1ull << below(64)) + (u64) range(-2, 2));
        case 3: {
            u64 bits = below(64) + 1;
            u64 v = raw() >> (64 - bits);
            return (i64) (chance(1, 2) ? 0 - v : v);
        }
        default: return (i64) raw();
        }
    }
    f64 any_f64() {
        static const f64 special[] = {0.0, 1.0, -1.0, 0.5, -0.0, 2.0, 0.1, 1.5, 1e10, 1e15, 1e16, 1e17, 1e21, 1e22, 1e300,
            -1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740992.0, 9007199254740994.0,
            9223372036854775807.0, 9223372036854774784.0, -9223372036854775808.0, 9223372036854777856.0,
            4611686018427387904.0, 0.3333333333333333, 3.141592653589793};
        switch (weighted({4, 5, 3, 2, 1, 1})) {
        case 0: return (f64) range(-20, 20) / (f64) (1 << below(4));
        case 1: return special[below(sizeof special / sizeof *special)];
        case 2: return (f64) any_i64();
        case 3: {
            u64 v = raw();
            f64 d;
            memcpy(&d, &v, 8);
            return d;
        }
        case 4: return chance(1, 2) ? INFINITY : -INFINITY;
        default: return NAN;
        }
    }
    size_t pos() const { return pos_; }

private:
    u64 rng_ = 0;
    bool random_;
    std::vector<u64> data_;
    size_t pos_ = 0;
    Shared* sh_;
};

// State of one case.
class Case {
public:
    Case(Tape& t, Shared* sh)
        : t(t)
        , sh_(sh) {}
    Tape& t;
    bool nontrivial = false;

    // Describe the case (as early as possible: it is kept if the process dies).
    void describe(std::string s) {
        desc = std::move(s);
        if (sh_) {
            size_t n = std::min(desc.size(), MAX_TEXT);
            memcpy(sh_->text, desc.data(), n);
            sh_->text_len = n;
        }
    }
    void add(const std::string& s) { describe(desc + (desc.empty() || desc.back() == '\n' ? "" : "\n") + s); }
    void label(const std::string& l, bool cond = true) {
        if (cond) ++labels[l];
    }
    void count(const std::string& l, u64 n) { labels[l] += n; }
    [[noreturn]] void fail(std::string msg) { throw Fail{std::move(msg)}; }
    void check(bool ok, const std::string& msg) {
        if (!ok) fail(msg);
    }
    [[noreturn]] void discard() { throw Discard{}; }

    std::string desc;
    std::map<std::string, u64> labels;

private:
    Shared* sh_;
};

struct Suite {
    std::string name;
    u64 quick = 0;    // number of cases, quick tier
    u64 thorough = 0; // number of cases, thorough tier
    std::function<void(Case&)> fn;
    // optional: deterministic tapes, run before the random cases
    u64 fixed = 0;
    std::function<std::vector<u64>(u64)> fixed_tape;
    u64 cpu_limit_s = 60;
};

// A recorded genuine defect that is not repaired: the probe returns true while the defect is present.
struct Known {
    std::string id;
    std::string what;
    std::function<bool()> probe;
};

struct Outcome {
    enum Kind { ok, failed, crashed, hang, discarded } kind = ok;
    std::string msg, text, output;
    std::vector<u64> tape;
    bool bad() const { return kind == failed || kind == crashed || kind == hang; }
};

inline Shared* make_shared_block() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) abort();
    return (Shared*) p;
}

inline double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

constexpr int EXIT_FAIL = 77, EXIT_HANG = 78, EXIT_DISCARD = 79;

inline void on_cpu_limit(int) { _exit(EXIT_HANG); }
inline void arm_cpu_limit(u64 seconds) {
    signal(SIGPROF, on_cpu_limit);
    itimerval it{};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

class Runner {
public:
    Runner(std::string prop, std::string rule, std::vector<Suite> suites, std::vector<Known> known = {},
        std::vector<std::string> assumptions = {})
        : prop_(std::move(prop))
        , rule_(std::move(rule))
        , suites_(std::move(suites))
        , known_(std::move(known))
        , assumptions_(std::move(assumptions)) {}

    int main(int argc, char** argv) {
        t0_ = now();
        seed_ = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
        std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
        workers_ = 8;
        u64 only = UINT64_MAX;
        std::string replay, evidence, faildir = ".";
        double scale = 1;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") seed_ = strtoull(next().c_str(), nullptr, 10);
            else if (a == "--tier") tier = next();
            else if (a == "--replay") replay = next();
            else if (a == "--evidence") evidence = next();
            else if (a == "--faildir") faildir = next();
            else if (a == "--scale") scale = atof(next().c_str());
            else if (a == "--workers") workers_ = atoi(next().c_str());
            else if (a == "--verbose") verbose_ = true;
            else if (a == "--suite") {
                std::string n = next();
                for (size_t s = 0; s < suites_.size(); ++s)
                    if (suites_[s].name == n) only = s;
                if (only == UINT64_MAX) { fprintf(stderr, "no such suite\n"); return 2; }
            } else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
        }
        if (!replay.empty()) return do_replay(replay);

        bool quick = tier != "thorough";
        for (size_t s = 0; s < suites_.size(); ++s) {
            if (only != UINT64_MAX && s != only) continue;
            u64 n = quick ? suites_[s].quick : (suites_[s].thorough ? suites_[s].thorough : suites_[s].quick * 40);
            n = (u64) std::llround(n * scale);
            double ts = now();
            Outcome bad;
            size_t nontrivial_before = hashes_.size(), samples_before = samples_.size();
            sample_limit_ = samples_before + 3;
            if (!run_suite(s, n, bad)) {
                bad = minimise(s, bad);
                std::string path = save(s, bad, faildir);
                printf("suite %s: %s\n", suites_[s].name.c_str(), bad.msg.c_str());
                printf("---- case ----\n%s\n", bad.text.substr(0, 6000).c_str());
                if (!bad.output.empty()) printf("---- output ----\n%s\n", bad.output.substr(0, 6000).c_str());
                printf("--------------\n");
                ++violations_;
                write_evidence(evidence, quick);
                printf("VIOLATION property=%s replay=%s\n", prop_.c_str(), path.c_str());
                fflush(stdout);
                return 1;
            }
            suite_time_[suites_[s].name] = now() - ts;
            // a search without a single non-trivial case decides nothing
            if (n >= 16 && hashes_.size() == nontrivial_before) {
                write_evidence(evidence, quick);
                printf("check error: suite %s has no non-trivial case\n", suites_[s].name.c_str());
                return 2;
            }
        }
        for (auto& k : known_) {
            if (k.probe()) printf("KNOWN-FINDING: property=%s %s\n", prop_.c_str(), k.what.c_str());
            else printf("note: recorded finding %s no longer reproduces\n", k.id.c_str());
        }
        write_evidence(evidence, quick);
        printf("%s held: %" PRIu64 " cases, %zu distinct non-trivial, %.1fs\n", prop_.c_str(), evaluations_,
            hashes_.size(), now() - t0_);
        if (verbose_) {
            for (auto& [k, v] : labels_) printf("  %-50s %" PRIu64 "\n", k.c_str(), v);
            for (auto& [k, v] : suite_time_) printf("  time %-45s %.1fs\n", k.c_str(), v);
        }
        return 0;
    }

    // for libFuzzer: bytes -> tape
    void fuzz_one(const u8* data, size_t size) {
        if (!fuzz_shared_) fuzz_shared_ = make_shared_block();
        if (size < 1) return;
        size_t s = data[0] % suites_.size();
        std::vector<u64> tape;
        for (size_t i = 1; i + 1 < size; i += 2) tape.push_back(data[i] | (u64) data[i + 1] << 8);
        Tape t(tape, fuzz_shared_);
        Case c(t, fuzz_shared_);
        try {
            suites_[s].fn(c);
        } catch (const Fail& f) {
            std::string path = "fuzz-failure-" + std::to_string(getpid()) + ".tape";
            Outcome o;
            o.msg = f.msg; o.text = c.desc;
            o.tape.assign(fuzz_shared_->tape, fuzz_shared_->tape + fuzz_shared_->tape_len);
            save(s, o, ".");
            fprintf(stderr, "property failure: %s\n%s\n", f.msg.c_str(), c.desc.c_str());
            abort();
        } catch (const Discard&) {}
    }

private:
    u64 case_seed(size_t s, u64 index) const {
        return mix(mix(seed_ * 0x51ed270b1ull + fnv(suites_[s].name)) + index);
    }

    // Runs one case in this process. Returns nothing on success, throws Fail.
    static void run_case(const Suite& su, Case& c) {
        su.fn(c);
    }

    bool is_fixed(const Suite& su, u64 index) const { return index < su.fixed; }

    void worker(size_t s, u64 total, unsigned w, Shared* sh, int fd) {
        const Suite& su = suites_[s];
        std::map<std::string, u64> labels;
        std::vector<u64> hashes;
        std::vector<std::string> samples;
        u64 evals = 0, discards = 0;
        for (u64 i = w; i < total + su.fixed; i += workers_) {
            sh->index = i;
            sh->text_len = 0;
            sh->msg_len = 0;
            arm_cpu_limit(su.cpu_limit_s);
            Tape t = is_fixed(su, i) ? Tape(su.fixed_tape(i), sh) : Tape(case_seed(s, i), sh);
            Case c(t, sh);
            try {
                run_case(su, c);
                ++evals;
                for (auto& [k, v] : c.labels) labels[k] += v;
                if (c.nontrivial) {
                    hashes.push_back(fnv(c.desc));
                    // spread the samples over the run
                    if (samples.size() < 2 && (i / workers_) * 3 >= (total / workers_) * (samples.size() + 1) && c.desc.size() < 3000)
                        samples.push_back(c.desc);
                    else if (samples.empty() && i / workers_ > total / workers_ / 2) samples.push_back(c.desc);
                }
            } catch (const Discard&) {
                ++discards;
            } catch (const Fail& f) {
                size_t n = std::min(f.msg.size(), sizeof sh->msg);
                memcpy(sh->msg, f.msg.data(), n);
                sh->msg_len = n;
                fflush(nullptr);
                _exit(EXIT_FAIL);
            }
        }
        FILE* f = fdopen(fd, "w");
        fprintf(f, "E %" PRIu64 " %" PRIu64 "\n", evals, discards);
        for (auto& [k, v] : labels) fprintf(f, "L %" PRIu64 " %s\n", v, k.c_str());
        for (auto h : hashes) fprintf(f, "H %" PRIx64 "\n", h);
        for (auto& x : samples) {
            fprintf(f, "S %zu\n", x.size());
            fwrite(x.data(), 1, x.size(), f);
            fputc('\n', f);
        }
        fclose(f);
        fflush(nullptr);
        _exit(0);
    }

    static std::string tmpfile_path() {
        const char* d = getenv("TMPDIR");
        return std::string(d ? d : "/tmp") + "/pbt-" + std::to_string(getpid()) + "-" + std::to_string(counter()++);
    }
    static u64& counter() { static u64 c = 0; return c; }

    bool run_suite(size_t s, u64 total, Outcome& bad) {
        fflush(nullptr);
        struct W { pid_t pid; Shared* sh; std::string out; std::string log; bool done = false; int status = 0; };
        std::vector<W> ws(workers_);
        for (unsigned w = 0; w < (unsigned) workers_; ++w) {
            ws[w].sh = make_shared_block();
            ws[w].out = tmpfile_path();
            ws[w].log = ws[w].out + ".log";
            ws[w].pid = spawn([&] {
                int fd = open(ws[w].out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                worker(s, total, w, ws[w].sh, fd);
            }, ws[w].log);
        }
        int failed = -1;
        size_t left = ws.size();
        std::vector<int> fails;
        while (left) {
            int st = 0;
            pid_t p = waitpid(-1, &st, 0);
            if (p < 0) break;
            for (size_t w = 0; w < ws.size(); ++w)
                if (ws[w].pid == p && !ws[w].done) {
                    ws[w].done = true;
                    ws[w].status = st;
                    --left;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                        fails.push_back(w);
                        if (failed < 0) {
                            failed = w;
                            for (auto& o : ws)
                                if (!o.done) kill(o.pid, SIGKILL);
                        }
                    }
                }
        }
        bool ok = true;
        if (failed >= 0) {
            W& w = ws[failed];
            bad = outcome_of(w.status, w.sh, w.log);
            bad.kind = WIFEXITED(w.status) && WEXITSTATUS(w.status) == EXIT_FAIL ? Outcome::failed
                     : WIFEXITED(w.status) && WEXITSTATUS(w.status) == EXIT_HANG ? Outcome::hang
                                                                                : Outcome::crashed;
            bad_worker_ = failed;
            bad_index_ = w.sh->index;
            bad_total_ = total;
            ok = false;
        } else {
            for (auto& w : ws) collect(w.out);
        }
        for (auto& w : ws) {
            unlink(w.out.c_str());
            unlink(w.log.c_str());
            munmap(w.sh, sizeof(Shared));
        }
        return ok;
    }

    void collect(const std::string& path) {
        FILE* f = fopen(path.c_str(), "r");
        if (!f) return;
        char line[4096];
        while (fgets(line, sizeof line, f)) {
            if (line[0] == 'E') {
                u64 a = 0, b = 0;
                sscanf(line + 2, "%" SCNu64 " %" SCNu64, &a, &b);
                evaluations_ += a;
                discards_ += b;
            } else if (line[0] == 'L') {
                char* e;
                u64 v = strtoull(line + 2, &e, 10);
                std::string k(e + 1);
                while (!k.empty() && k.back() == '\n') k.pop_back();
                labels_[k] += v;
            } else if (line[0] == 'H') {
                hashes_.insert(strtoull(line + 2, nullptr, 16));
            } else if (line[0] == 'S') {
                size_t n = strtoull(line + 2, nullptr, 10);
                std::string x(n, 0);
                if (fread(&x[0], 1, n, f) != n) break;
                fgetc(f);
                if (samples_.size() < sample_limit_) samples_.push_back(x.substr(0, 2500));
            }
        }
        fclose(f);
    }

    pid_t spawn(const std::function<void()>& fn, const std::string& log) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 1);
            dup2(fd, 2);
            close(fd);
            rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            fn();
            fflush(nullptr);
            _exit(0);
        }
        if (p < 0) { perror("fork"); exit(2); }
        return p;
    }

    static std::string slurp_tail(const std::string& path, size_t max) {
        FILE* f = fopen(path.c_str(), "r");
        if (!f) return "";
        std::string r;
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) {
            r.append(buf, n);
            if (r.size() > 4 * max) r.erase(0, r.size() - 2 * max);
        }
        fclose(f);
        return r.size() > max ? r.substr(0, max) : r;
    }

    Outcome outcome_of(int st, Shared* sh, const std::string& log) {
        Outcome o;
        o.tape.assign(sh->tape, sh->tape + sh->tape_len);
        o.text.assign(sh->text, sh->text_len);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o.kind = Outcome::ok;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_DISCARD) o.kind = Outcome::discarded;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL) {
            o.kind = Outcome::failed;
            o.msg.assign(sh->msg, sh->msg_len);
        } else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_HANG) {
            o.kind = Outcome::hang;
            o.msg = "no answer within the processor time limit of one case";
        } else {
            o.kind = Outcome::crashed;
            o.msg = WIFSIGNALED(st) ? sfmt("process died from signal %d", WTERMSIG(st))
                                    : sfmt("process exited with status %d (sanitizer or abort)", WEXITSTATUS(st));
        }
        o.output = slurp_tail(log, 8000);
        return o;
    }

    // runs one tape in a child
    Outcome run_tape(size_t s, const std::vector<u64>& tape, u64 cpu = 0) {
        Shared* sh = make_shared_block();
        std::string log = tmpfile_path() + ".log";
        pid_t p = spawn([&] { run_tape_child(s, tape, sh, cpu); }, log);
        int st = 0;
        waitpid(p, &st, 0);
        Outcome o = outcome_of(st, sh, log);
        unlink(log.c_str());
        munmap(sh, sizeof(Shared));
        return o;
    }

    void run_tape_child(size_t s, const std::vector<u64>& tape, Shared* sh, u64 cpu) {
        arm_cpu_limit(cpu ? cpu : suites_[s].cpu_limit_s);
        Tape t(tape, sh);
        Case c(t, sh);
        try {
            run_case(suites_[s], c);
        } catch (const Discard&) {
            fflush(nullptr);
            _exit(EXIT_DISCARD);
        } catch (const Fail& f) {
            size_t n = std::min(f.msg.size(), sizeof sh->msg);
            memcpy(sh->msg, f.msg.data(), n);
            sh->msg_len = n;
            fflush(nullptr);
            _exit(EXIT_FAIL);
        }
        fflush(nullptr);
        _exit(0);
    }

    // several candidates in parallel; result: index of the first bad one, or -1
    int run_batch(size_t s, const std::vector<std::vector<u64>>& cands, Outcome::Kind kind, Outcome& out) {
        struct J { pid_t p; Shared* sh; std::string log; int st = 0; bool done = false; };
        std::vector<J> js(cands.size());
        for (size_t i = 0; i < cands.size(); ++i) {
            js[i].sh = make_shared_block();
            js[i].log = tmpfile_path() + ".log";
            js[i].p = spawn([&] { run_tape_child(s, cands[i], js[i].sh, 5); }, js[i].log);
        }
        for (auto& j : js) waitpid(j.p, &j.st, 0);
        int best = -1;
        for (size_t i = 0; i < js.size(); ++i) {
            if (best < 0) {
                Outcome o = outcome_of(js[i].st, js[i].sh, js[i].log);
                if (o.kind == kind) {
                    best = i;
                    out = o;
                    // keep the canonical tape (as drawn) if it is not longer
                    if (out.tape.size() > cands[i].size()) out.tape.resize(cands[i].size());
                }
            }
            unlink(js[i].log.c_str());
            munmap(js[i].sh, sizeof(Shared));
        }
        return best;
    }

    static bool simpler(const std::vector<u64>& a, const std::vector<u64>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    }

    Outcome minimise(size_t s, Outcome cur) {
        std::string first_msg = cur.msg;
        Outcome base = run_tape(s, cur.tape);
        if (base.kind != cur.kind) {
            // depends on earlier cases of the same worker: keep the whole sequence as the reproduction
            cur.msg += sfmt(" [only after the preceding cases of the same process: worker %d, case %" PRIu64 "]", bad_worker_, bad_index_);
            sequence_ = true;
            return cur;
        }
        if (cur.kind == Outcome::hang) return base;
        cur = base;
        double limit = now() + 60;
        unsigned budget = 3000;
        auto attempt = [&](std::vector<std::vector<u64>>& cands) -> bool {
            for (size_t i = 0; i < cands.size(); i += workers_) {
                if (budget < (unsigned) workers_ || now() > limit) return false;
                std::vector<std::vector<u64>> b(cands.begin() + i, cands.begin() + std::min(cands.size(), i + workers_));
                budget -= b.size();
                Outcome o;
                int k = run_batch(s, b, cur.kind, o);
                if (k >= 0 && simpler(o.tape, cur.tape)) {
                    cur = o;
                    return true;
                }
            }
            return false;
        };
        bool progress = true;
        while (progress && budget > (unsigned) workers_ && now() < limit) {
            progress = false;
            // delete blocks
            for (size_t len = std::max<size_t>(1, cur.tape.size() / 2); len >= 1; len = len / 2) {
                bool again = true;
                while (again) {
                    std::vector<std::vector<u64>> cands;
                    size_t n = cur.tape.size();
                    size_t step = std::max<size_t>(1, len / 2);
                    for (size_t at = n >= len ? n - len : 0;; at -= step) {
                        if (at + len <= n) {
                            auto c = cur.tape;
                            c.erase(c.begin() + at, c.begin() + at + len);
                            cands.push_back(std::move(c));
                        }
                        if (at < step || cands.size() > 400) break;
                    }
                    again = !cands.empty() && attempt(cands);
                    progress |= again;
                    if (budget < (unsigned) workers_ || now() > limit) break;
                }
                if (len == 1) break;
            }
            // zero blocks, reduce values
            {
                std::vector<std::vector<u64>> cands;
                for (size_t len : {16, 4, 1})
                    for (size_t at = 0; at + len <= cur.tape.size() && cands.size() < 600; at += len) {
                        auto c = cur.tape;
                        bool ch = false;
                        for (size_t k = at; k < at + len; ++k) ch |= c[k] != 0, c[k] = 0;
                        if (ch) cands.push_back(std::move(c));
                    }
                while (attempt(cands)) {
                    progress = true;
                    for (auto& c : cands) c.resize(std::min(c.size(), cur.tape.size()));
                    // rebuild from the new base
                    std::vector<std::vector<u64>> next;
                    for (size_t at = 0; at < cur.tape.size() && next.size() < 300; ++at)
                        if (cur.tape[at]) {
                            auto c = cur.tape;
                            c[at] = 0;
                            next.push_back(std::move(c));
                        }
                    cands = std::move(next);
                }
            }
            {
                std::vector<std::vector<u64>> cands;
                for (size_t at = 0; at < cur.tape.size() && cands.size() < 600; ++at)
                    for (u64 v : {cur.tape[at] / 2, cur.tape[at] ? cur.tape[at] - 1 : 0})
                        if (v < cur.tape[at]) {
                            auto c = cur.tape;
                            c[at] = v;
                            cands.push_back(std::move(c));
                        }
                if (attempt(cands)) progress = true;
            }
        }
        // replay three times before reporting
        for (int i = 0; i < 3; ++i) {
            Outcome o = run_tape(s, cur.tape);
            if (!o.bad()) { cur = base; break; }
            if (i == 2) { o.tape = cur.tape; cur = o; }
        }
        return cur;
    }

    std::string save(size_t s, const Outcome& o, const std::string& dir) {
        mkdir(dir.c_str(), 0777);
        std::string path = dir + "/" + prop_ + "-" + suites_[s].name + ".replay";
        FILE* f = fopen(path.c_str(), "w");
        if (!f) return path;
        fprintf(f, "property %s\nsuite %s\n", prop_.c_str(), suites_[s].name.c_str());
        if (sequence_)
            fprintf(f, "sequence %" PRIu64 " %" PRIu64 " %d %d %" PRIu64 "\n", seed_, bad_total_, bad_worker_, workers_, bad_index_);
        fprintf(f, "tape %zu", o.tape.size());
        for (auto v : o.tape) fprintf(f, " %" PRIu64, v);
        fprintf(f, "\n# %s\n", o.msg.c_str());
        for (size_t i = 0; i < o.text.size();) {
            size_t e = o.text.find('\n', i);
            if (e == std::string::npos) e = o.text.size();
            fprintf(f, "# | %s\n", o.text.substr(i, e - i).c_str());
            i = e + 1;
        }
        fclose(f);
        return path;
    }

    int do_replay(const std::string& path) {
        FILE* f = fopen(path.c_str(), "r");
        if (!f) { perror("replay"); return 2; }
        char name[256], suite[256];
        size_t n = 0;
        if (fscanf(f, "property %255s\nsuite %255s\n", name, suite) != 2) return 2;
        u64 sd, tot, idx; int w, nw;
        bool seq = fscanf(f, "sequence %" SCNu64 " %" SCNu64 " %d %d %" SCNu64 "\n", &sd, &tot, &w, &nw, &idx) == 5;
        if (fscanf(f, "tape %zu", &n) != 1) return 2;
        std::vector<u64> tape(n);
        for (auto& v : tape)
            if (fscanf(f, "%" SCNu64, &v) != 1) return 2;
        fclose(f);
        for (size_t s = 0; s < suites_.size(); ++s)
            if (suites_[s].name == suite) {
                Outcome o;
                if (seq) {
                    seed_ = sd; workers_ = nw;
                    o.kind = run_suite(s, tot, o) ? Outcome::ok : o.kind;
                } else {
                    o = run_tape(s, tape);
                }
                printf("---- case ----\n%s\n---- output ----\n%s\n%s\n", o.text.c_str(), o.output.c_str(), o.msg.c_str());
                printf("replay: %s\n", o.bad() ? "property violated" : "property held");
                if (o.bad()) printf("VIOLATION property=%s replay=%s\n", prop_.c_str(), path.c_str());
                return o.bad() ? 1 : 0;
            }
        return 2;
    }

    static std::string json(const std::string& s) {
        std::string r = "\"";
        for (size_t i = 0; i < s.size(); ++i) {
            unsigned char c = s[i];
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c >= 127) r += sfmt("\\u%04x", c);
            else r += c;
        }
        return r + "\"";
    }

    void write_evidence(const std::string& path, bool quick) {
        if (path.empty()) return;
        std::string tmp = path + ".tmp";
        FILE* f = fopen(tmp.c_str(), "w");
        if (!f) return;
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %" PRIu64 ",\n \"level\": \"exploration\",\n", prop_.c_str(),
            quick ? "quick" : "thorough", seed_);
        fprintf(f, " \"coverage\": {\n  \"evaluations\": %" PRIu64 ",\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %" PRIu64 ",\n",
            evaluations_, hashes_.size(), discards_);
        fprintf(f, "  \"rule\": %s,\n  \"labels\": {", json(rule_).c_str());
        bool first = true;
        for (auto& [k, v] : labels_) {
            fprintf(f, "%s\n   %s: %" PRIu64, first ? "" : ",", json(k).c_str(), v);
            first = false;
        }
        fprintf(f, "\n  },\n  \"samples\": [");
        first = true;
        for (auto& x : samples_) {
            fprintf(f, "%s\n   %s", first ? "" : ",", json(x).c_str());
            first = false;
        }
        fprintf(f, "\n  ]\n },\n \"assumptions\": [");
        first = true;
        for (auto& x : assumptions_) {
            fprintf(f, "%s\n  %s", first ? "" : ",", json(x).c_str());
            first = false;
        }
        fprintf(f, "\n ],\n \"violations\": %d,\n \"wall_s\": %.2f\n}\n", violations_, now() - t0_);
        fclose(f);
        rename(tmp.c_str(), path.c_str());
    }

    std::string prop_, rule_;
    std::vector<Suite> suites_;
    std::vector<Known> known_;
    std::vector<std::string> assumptions_;
    u64 seed_ = 1;
    int workers_ = 8;
    bool verbose_ = false, sequence_ = false;
    double t0_ = 0;
    u64 evaluations_ = 0, discards_ = 0;
    int violations_ = 0;
    int bad_worker_ = 0;
    u64 bad_index_ = 0, bad_total_ = 0;
    std::unordered_set<u64> hashes_;
    std::map<std::string, u64> labels_;
    std::map<std::string, double> suite_time_;
    std::vector<std::string> samples_;
    size_t sample_limit_ = 3;
    Shared* fuzz_shared_ = nullptr;
};

} // namespace pbt

#if defined(__clang__) && !defined(PBT_NO_MAIN)
#  if __has_feature(address_sanitizer)
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_segv=1:handle_abort=0:symbolize=0:max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=16";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }
#  endif
#endif

#endif
