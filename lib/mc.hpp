// Explicit enumeration engine: forked workers pull case indices from a shared counter, every case runs
// the real library code and compares it with a reference model; crashes, hangs and mismatches become
// replayable violations.  See DESIGN.md.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <malloc.h>
#include <sys/prctl.h>
#include <sys/resource.h>

namespace mc {

struct Violation {
    std::string msg;
};
[[noreturn]] inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char *fmt, ...) {
    char b[2048];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    throw Violation{b};
}
#define MC_CHECK(c, ...)               \
    do {                               \
        if (!(c)) ::mc::fail(__VA_ARGS__); \
    } while (0)

inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *fmt, ...) {
    char b[4096];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    return b;
}
inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
inline uint64_t hash64(uint64_t x) {
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdULL;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ULL;
    x ^= x >> 33;
    return x;
}
struct Hash {
    uint64_t h = 0x9e3779b97f4a7c15ULL;
    void u64(uint64_t v) { h = hash64(h ^ v) + 0x9e3779b97f4a7c15ULL * (h | 1); }
    void bytes(const void *p, size_t n) {
        const unsigned char *c = (const unsigned char *)p;
        while (n >= 8) {
            uint64_t v;
            memcpy(&v, c, 8);
            u64(v);
            c += 8;
            n -= 8;
        }
        uint64_t v = n;
        for (size_t i = 0; i < n; i++) v = v << 8 | c[i];
        u64(v);
    }
};

static const int MAXW = 64;
struct Slot {
    std::atomic<int64_t> cur;      // case being run, -1 none
    std::atomic<int64_t> chunk_end;
    std::atomic<double> t0;        // start of the current case
    std::atomic<double> cpu0;
    char detail[1024];
};
struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> evals;        // operations checked against the oracle (transitions)
    std::atomic<uint64_t> cases;        // cases run to completion
    std::atomic<uint64_t> nontrivial;   // distinct non-trivial outcomes (see rule)
    std::atomic<uint64_t> nviol;
    std::atomic<uint64_t> stop;
    std::atomic<uint64_t> capped;
    std::atomic<uint64_t> hits_n;
    std::atomic<double> slowest;        // longest case of the family, seconds
    Slot slots[MAXW];
};

// fingerprint table shared by the workers (lock-free insertion of 64-bit fingerprints)
struct FpTable {
    std::atomic<uint64_t> *t = nullptr;
    uint64_t mask = 0;
    std::atomic<uint64_t> *cnt = nullptr;
    void init(uint64_t log2) {
        if (t) return;
        mask = (1ULL << log2) - 1;
        t = (std::atomic<uint64_t> *)mmap(nullptr, ((1ULL << log2) + 8) * 8, PROT_READ | PROT_WRITE,
                                          MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (t == MAP_FAILED) abort();
        cnt = t + (1ULL << log2);
    }
    uint64_t count() const { return cnt ? cnt->load() : 0; }
    // true if newly inserted
    bool insert(uint64_t h) {
        if (h == 0) h = 1;
        uint64_t i = hash64(h) & mask;
        for (uint64_t probes = 0; probes < 4096; probes++) {
            uint64_t v = t[i].load(std::memory_order_relaxed);
            if (v == h) return false;
            if (v == 0) {
                uint64_t z = 0;
                if (t[i].compare_exchange_strong(z, h)) {
                    cnt->fetch_add(1);
                    return true;
                }
                if (z == h) return false;
            }
            i = (i + 1) & mask;
        }
        return true;  // full: treat as new (sound, only costs time)
    }
};

struct Rec {
    std::string family, key, msg, desc;
    bool known = false;
    std::string known_id;
};

struct Known {
    std::string prop, family, substr, id;
};

struct Engine {
    std::string prop, tier = "quick", level = "model_checking";
    std::string evidence_path, replay_dir, known_path, only_family, only_key, family_filter;
    int seed = 1;
    int W = 8;
    bool replay = false;
    bool thorough = false;
    double budget = 600, t_start = 0;
    double hang_limit = 15;
    Shared *sh = nullptr;
    int wid = -1;  // worker id in a worker
    std::vector<Rec> recs;
    std::vector<Known> knowns;
    std::set<std::string> known_hit;
    std::vector<std::string> samples, notes, assumptions;
    std::map<std::string, uint64_t> fam_cases, fam_evals;
    std::map<std::string, double> fam_time;
    std::map<std::string, double> fam_slow;
    std::map<std::string, std::string> extra;  // raw JSON values
    uint64_t states = 0;      // explicit states (fingerprints) + cases
    uint64_t unreproduced = 0;
    bool exhaustive = true;
    std::string rule;
    FpTable outcomes;
    bool replay_ran = false;
    std::string cur_family;
    int max_viol = 6;
    bool hang_confirmed = false;

    void init(int argc, char **argv, const char *p) {
        prop = p;
        t_start = now();
        const char *e = getenv("VERIF_SEED");
        if (e) seed = atoi(e);
        e = getenv("VERIF_TIER");
        if (e && !strcmp(e, "thorough")) tier = "thorough";
        if ((e = getenv("VERIF_BUDGET"))) budget = atof(e);
        if ((e = getenv("VERIF_WORKERS"))) W = atoi(e);
        if ((e = getenv("VERIF_FAMILY"))) family_filter = e;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--tier") tier = val();
            else if (a == "--evidence") evidence_path = val();
            else if (a == "--replay-dir") replay_dir = val();
            else if (a == "--known") known_path = val();
            else if (a == "--budget") budget = atof(val().c_str());
            else if (a == "--workers") W = atoi(val().c_str());
            else if (a == "--replay-family") { replay = true; only_family = val(); }
            else if (a == "--replay-key") only_key = val();
            else if (a == "--property") prop = val();
        }
        thorough = tier == "thorough";
        if (W > MAXW) W = MAXW;
        if (W < 1) W = 1;
        sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                            MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        outcomes.init(22);
        load_known();
        setvbuf(stdout, nullptr, _IOLBF, 0);
    }
    void load_known() {
        if (known_path.empty()) return;
        FILE *f = fopen(known_path.c_str(), "r");
        if (!f) return;
        char line[4096];
        while (fgets(line, sizeof line, f)) {
            // finding: property=<id> family=<f> match="<substring>" id=<name> ...
            if (strncmp(line, "finding:", 8)) continue;
            Known k;
            auto get = [&](const char *n) -> std::string {
                const char *q = strstr(line, n);
                if (!q) return "";
                q += strlen(n);
                if (*q == '"') {
                    const char *r = strchr(q + 1, '"');
                    return r ? std::string(q + 1, r) : "";
                }
                const char *r = q;
                while (*r && *r != ' ' && *r != '\n') r++;
                return std::string(q, r);
            };
            k.prop = get("property=");
            k.family = get("family=");
            k.substr = get("match=");
            k.id = get("id=");
            if (k.prop == prop && !k.substr.empty()) knowns.push_back(k);
        }
        fclose(f);
    }
    // ---- inside a case -------------------------------------------------------------------------
    void eval(uint64_t n = 1) { local_evals += n; }
    void outcome(uint64_t h) {
        if (local_out++ < 200000) outcomes.insert(h);
    }
    void detail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (wid < 0) return;
        va_list a;
        va_start(a, fmt);
        vsnprintf(sh->slots[wid].detail, sizeof(Slot::detail), fmt, a);
        va_end(a);
    }
    std::string get_detail() { return wid < 0 ? "" : sh->slots[wid].detail; }
    uint64_t local_evals = 0, local_cases = 0, local_out = 0;
    void flush_local() {
        sh->evals += local_evals;
        sh->cases += local_cases;
        local_evals = local_cases = 0;
    }
    bool over_budget() { return now() - t_start > budget; }

    bool want(const std::string &family) {
        if (replay) return family == only_family;
        if (!family_filter.empty() && family.find(family_filter) == std::string::npos) return false;
        return true;
    }
    typedef std::function<void(uint64_t)> CaseFn;
    typedef std::function<std::string(uint64_t)> KeyFn;

    std::string err_path(int w) { return strf("/tmp/mc_%d_%d.err", (int)getpid_root, w); }
    pid_t getpid_root = 0;

    void worker_loop(int w, uint64_t N, const CaseFn &fn, uint64_t chunk, int64_t from, int64_t to, int vfd,
                     const KeyFn &key) {
        wid = w;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int efd = open(err_path(w).c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
        if (efd >= 0) {
            dup2(efd, 2);
            close(efd);
        }
        Slot &s = sh->slots[w];
        auto run_one = [&](uint64_t i) {
            s.detail[0] = 0;
            s.t0 = now();
            s.cur = (int64_t)i;
            try {
                fn(i);
                local_cases++;
            } catch (Violation &v) {
                std::string k = key ? key(i) : strf("idx=%llu", (unsigned long long)i);
                report_to(vfd, k, v.msg, s.detail);
            }
            double took = now() - s.t0, m = sh->slowest;
            while (took > m && !sh->slowest.compare_exchange_weak(m, took)) {
            }
        };
        if (from >= 0) {
            for (int64_t i = from; i < to && !sh->stop; i++) run_one(i);
        }
        while (!sh->stop) {
            uint64_t b = sh->next.fetch_add(chunk);
            if (b >= N) break;
            uint64_t e = b + chunk < N ? b + chunk : N;
            s.chunk_end = e;
            if (over_budget()) {
                sh->capped = 1;
                break;
            }
            for (uint64_t i = b; i < e && !sh->stop; i++) run_one(i);
            flush_local();
        }
        flush_local();
        s.cur = -1;
        _exit(0);
    }
    static std::string clean(std::string s) {
        for (auto &c : s)
            if (c == '\n' || c == '\t' || c == '\r') c = ' ';
        return s;
    }
    void report_to(int vfd, const std::string &key, const std::string &msg, const std::string &det) {
        std::string line = clean(key) + "\t" + clean(msg) + "\t" + clean(det) + "\n";
        ssize_t r = write(vfd, line.data(), line.size());
        (void)r;
        bool kn = false;
        for (auto &k : knowns)
            if (matches(k, cur_family, msg + " " + det)) kn = true;
        if (!kn) {
            if (++sh->nviol >= (uint64_t)max_viol) sh->stop = 1;
        }
    }
    static bool matches(const Known &k, const std::string &fam, const std::string &text) {
        if (!k.family.empty() && k.family != fam) return false;
        // every |-separated piece must occur
        size_t p = 0;
        while (p <= k.substr.size()) {
            size_t q = k.substr.find('|', p);
            if (q == std::string::npos) q = k.substr.size();
            std::string piece = k.substr.substr(p, q - p);
            if (text.find(piece) == std::string::npos) return false;
            p = q + 1;
        }
        return true;
    }
    std::string asan_summary(int w) {
        FILE *f = fopen(err_path(w).c_str(), "r");
        if (!f) return "";
        std::string head, frames;
        char l[1024];
        int n = 0;
        while (fgets(l, sizeof l, f)) {
            if (strstr(l, "ERROR:") || strstr(l, "runtime error") || strstr(l, "Assertion") ||
                strstr(l, "terminate called") || strstr(l, "what():"))
                head += clean(l) + " ";
            const char *in = strstr(l, " in ");
            if (in && strstr(l, "#") && n < 6) {
                std::string fn(in + 4);
                size_t sp = fn.find(' ');
                if (sp != std::string::npos) fn = fn.substr(0, sp);
                frames += (n ? "<" : " at ") + clean(fn);
                n++;
            }
        }
        fclose(f);
        // strip pids / addresses for stable messages
        std::string out;
        for (size_t i = 0; i < head.size(); i++) {
            if (head.compare(i, 2, "==") == 0) {
                size_t j = i + 2;
                while (j < head.size() && isdigit(head[j])) j++;
                if (j > i + 2 && head.compare(j, 2, "==") == 0) {
                    i = j + 1;
                    continue;
                }
            }
            if (head.compare(i, 2, "0x") == 0) {
                size_t j = i + 2;
                while (j < head.size() && isxdigit(head[j])) j++;
                out += "0x.";
                i = j - 1;
                continue;
            }
            out += head[i];
        }
        return out.substr(0, 400) + frames;
    }

    // run one case alone in a fresh process: 0 ok, 1 violation, 2 crash, 3 hang
    int run_alone(const std::function<void()> &body, double limit, std::string &msg) {
        int fd[2];
        if (pipe(fd)) return 0;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            wid = MAXW - 1;
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int efd = open(err_path(wid).c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
            if (efd >= 0) dup2(efd, 2);
            sh->slots[wid].detail[0] = 0;
            try {
                body();
                _exit(0);
            } catch (Violation &v) {
                std::string s = v.msg;
                std::string d = sh->slots[wid].detail;
                if (!d.empty()) s += " [" + d + "]";
                ssize_t r = write(fd[1], s.data(), s.size() > 60000 ? 60000 : s.size());
                (void)r;
                _exit(42);
            }
        }
        close(fd[1]);
        double t = now();
        int st;
        int res = -1;
        while (true) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (now() - t > limit) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                res = 3;
                msg = strf("did not finish within %.0f s", limit) + " [" + sh->slots[MAXW - 1].detail + "]";
                break;
            }
            usleep(500);
        }
        if (res < 0) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) res = 0;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
                res = 1;
                char b[65536];
                ssize_t n = read(fd[0], b, sizeof b);
                msg = clean(std::string(b, n > 0 ? n : 0));
            } else {
                res = 2;
                msg = "crash: " + asan_summary(MAXW - 1);
                if (WIFSIGNALED(st)) msg += strf(" (signal %d)", WTERMSIG(st));
                msg += std::string(" [") + sh->slots[MAXW - 1].detail + "]";
            }
        }
        close(fd[0]);
        unlink(err_path(MAXW - 1).c_str());
        return res;
    }

    void add_record(const std::string &family, const std::string &key, const std::function<void()> &again,
                    const std::string &first_msg) {
        std::string msg;
        int r = run_alone(again, hang_limit * 2, msg);
        if (r == 0) r = run_alone(again, hang_limit * 2, msg);
        if (r == 0) {
            hang_confirmed = false;
            unreproduced++;
            notes.push_back("not reproduced in isolation, not reported: " + family + " " + key + ": " + first_msg);
            fprintf(stdout, "NOTE: not reproduced: %s %s: %s\n", family.c_str(), key.c_str(), first_msg.c_str());
            return;
        }
        Rec rc;
        rc.family = family;
        rc.key = key;
        rc.msg = msg;
        for (auto &k : knowns)
            if (matches(k, family, msg)) {
                rc.known = true;
                rc.known_id = k.id;
            }
        recs.push_back(rc);
    }

    // the one exploration primitive: run fn(i) for all i in [0,N) on W forked workers
    void parallel(const std::string &family, uint64_t N, const CaseFn &fn, const KeyFn &key = nullptr,
                  uint64_t chunk = 1) {
        if (!want(family)) return;
        cur_family = family;
        getpid_root = getpid();
        if (replay) {
            if (only_key.compare(0, 4, "idx=")) return;
            uint64_t i = strtoull(only_key.c_str() + 4, nullptr, 10);
            do_replay(family, [&] { fn(i); });
            return;
        }
        if (recs_unknown() >= max_viol) return;
        double tf = now();
        uint64_t c0 = sh->cases, e0 = sh->evals;
        sh->next = 0;
        sh->slowest = 0;
        sh->stop = 0;
        sh->nviol = recs_unknown();
        std::string vpath = strf("/tmp/mc_%d.viol", (int)getpid());
        int vfd = open(vpath.c_str(), O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600);
        std::vector<pid_t> pids(W);
        auto spawn = [&](int w, int64_t from, int64_t to) {
            fflush(stdout);
            sh->slots[w].cur = -1;
            sh->slots[w].t0 = now();
            pid_t p = fork();
            if (p == 0) worker_loop(w, N, fn, chunk, from, to, vfd, key);
            pids[w] = p;
        };
        int nw = (uint64_t)W < (N + chunk - 1) / chunk ? W : (int)((N + chunk - 1) / chunk);
        if (nw < 1) nw = 1;
        for (int w = 0; w < nw; w++) spawn(w, -1, -1);
        int alive = nw, crashes = 0;
        std::vector<std::pair<uint64_t, std::string>> bad;
        while (alive > 0) {
            bool any = false;
            for (int w = 0; w < nw; w++) {
                if (pids[w] <= 0) continue;
                int st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                Slot &s = sh->slots[w];
                bool hang = false;
                if (r == 0) {
                    if (s.cur >= 0 && now() - s.t0 > hang_limit) {
                        kill(pids[w], SIGKILL);
                        waitpid(pids[w], &st, 0);
                        hang = true;
                    } else
                        continue;
                }
                any = true;
                pids[w] = 0;
                alive--;
                if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                int64_t c = s.cur;
                std::string m = hang ? "hang" : "crash: " + asan_summary(w);
                if (c >= 0) {
                    bad.push_back({(uint64_t)c, m + " [" + s.detail + "]"});
                    bool kn = false;
                    for (auto &k : knowns)
                        if (matches(k, family, m + " [" + s.detail + "]")) kn = true;
                    if (!kn && ++sh->nviol >= (uint64_t)max_viol) sh->stop = 1;
                    if (hang && !kn) sh->stop = 1;  // one confirmed hang is enough
                    crashes++;
                    if (crashes < 2000 && !sh->stop) {
                        int64_t e = s.chunk_end;
                        spawn(w, c + 1, e);
                        alive++;
                    }
                } else if (!sh->stop) {
                    notes.push_back(strf("worker %d ended outside a case", w));
                    exhaustive = false;
                }
            }
            if (!any) usleep(300);
        }
        for (int w = 0; w < nw; w++) unlink(err_path(w).c_str());
        // collect mismatches
        lseek(vfd, 0, SEEK_SET);
        std::string all;
        char b[65536];
        ssize_t n;
        while ((n = read(vfd, b, sizeof b)) > 0) all.append(b, n);
        close(vfd);
        unlink(vpath.c_str());
        size_t p = 0;
        int shown = 0;
        std::set<std::string> seen_known;
        while (p < all.size()) {
            size_t e = all.find('\n', p);
            if (e == std::string::npos) break;
            std::string line = all.substr(p, e - p);
            p = e + 1;
            size_t t1 = line.find('\t'), t2 = line.find('\t', t1 + 1);
            std::string k = line.substr(0, t1), m = line.substr(t1 + 1, t2 - t1 - 1), d = line.substr(t2 + 1);
            bool kn = false;
            for (auto &kk : knowns)
                if (matches(kk, family, m + " " + d)) {
                    kn = true;
                    known_hit.insert(kk.id);
                }
            if (kn) continue;
            if (shown++ >= max_viol) continue;
            if (k.compare(0, 4, "idx=") == 0) {
                uint64_t i = strtoull(k.c_str() + 4, nullptr, 10);
                add_record(family, k, [&, i] { fn(i); }, m + " [" + d + "]");
            } else {
                Rec rc;
                rc.family = family;
                rc.key = k;
                rc.msg = m + " [" + d + "]";
                pending.push_back(rc);
            }
        }
        for (auto &c : bad) {
            bool kn = false;
            for (auto &kk : knowns)
                if (matches(kk, family, c.second)) {
                    kn = true;
                    known_hit.insert(kk.id);
                }
            if (kn) continue;
            if (recs_unknown() >= max_viol) break;
            if (c.second.compare(0, 4, "hang") == 0 && hang_confirmed) continue;
            if (c.second.compare(0, 4, "hang") == 0) hang_confirmed = true;
            std::string k = key ? key(c.first) : strf("idx=%llu", (unsigned long long)c.first);
            uint64_t i = c.first;
            if (!key) add_record(family, k, [&, i] { fn(i); }, c.second);
            else {
                Rec rc;
                rc.family = family;
                rc.key = k;
                rc.msg = c.second;
                pending.push_back(rc);
            }
        }
        if (sh->capped) {
            exhaustive = false;
            notes.push_back(strf("time budget reached in family %s at case %llu of %llu; cases below that completed",
                                 family.c_str(), (unsigned long long)(uint64_t)sh->next, (unsigned long long)N));
            sh->capped = 0;
        }
        fam_cases[family] += sh->cases - c0;
        fam_evals[family] += sh->evals - e0;
        fam_time[family] += now() - tf;
        if (sh->slowest > fam_slow[family]) fam_slow[family] = sh->slowest;
    }
    std::vector<Rec> pending;  // failures with explicit keys (BFS), to be confirmed by the family

    int recs_unknown() {
        int n = 0;
        for (auto &r : recs) n += !r.known;
        return n;
    }
    void do_replay(const std::string &family, const std::function<void()> &body) {
        replay_ran = true;
        getpid_root = getpid();
        std::string msg;
        int r = run_alone(body, hang_limit * 2, msg);
        static const char *nm[] = {"held", "VIOLATED", "CRASHED", "HUNG"};
        printf("REPLAY property=%s family=%s key=%s: %s %s\n", prop.c_str(), family.c_str(), only_key.c_str(),
               nm[r], msg.c_str());
        if (r) {
            Rec rc;
            rc.family = family;
            rc.key = only_key;
            rc.msg = msg;
            recs.push_back(rc);
        }
    }

    // ---- breadth-first search over operation sequences -----------------------------------------
    // run(history, visit): builds a fresh system, applies the operations checking each against the model,
    // and returns the fingerprint of the canonical state reached (0 = do not expand further).
    struct BfsResult {
        uint64_t states = 0, transitions = 0;
        int depth = 0;
        bool complete = true;
    };
    typedef std::vector<uint16_t> Hist;
    typedef std::function<uint64_t(const Hist &)> RunFn;
    static std::string hkey(const Hist &h) {
        std::string s = "ops=";
        for (size_t i = 0; i < h.size(); i++) s += (i ? "," : "") + std::to_string(h[i]);
        return s;
    }
    static Hist parse_hist(const std::string &k) {
        Hist h;
        const char *p = k.c_str() + 4;
        while (*p) {
            h.push_back((uint16_t)strtoul(p, (char **)&p, 10));
            if (*p == ',') p++;
        }
        return h;
    }
    BfsResult bfs(const std::string &family, int nops, int max_depth, const RunFn &run,
                  uint64_t max_states = 1u << 22, const std::function<bool(const Hist &, int)> &enabled = nullptr) {
        BfsResult res;
        if (!want(family)) return res;
        if (replay) {
            cur_family = family;
            Hist h = parse_hist(only_key);
            do_replay(family, [&] { run(h); });
            return res;
        }
        FpTable *seen = new FpTable();
        seen->init(24);
        // frontier in shared memory: records of (len, ops[max_depth])
        size_t rec = (size_t)max_depth + 1;
        uint64_t cap = max_states;
        size_t bytes = cap * rec * 2 + 64;
        auto mk = [&]() {
            void *m = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m == MAP_FAILED) abort();
            return (uint16_t *)m;
        };
        std::vector<Hist> frontier{Hist{}};
        {  // initial state
            std::string m;
            cur_family = family;
            getpid_root = getpid();
            uint64_t *fp = (uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            int r = run_alone([&] { *fp = run(Hist{}); }, hang_limit, m);
            if (r) {
                add_record(family, "ops=", [&] { run(Hist{}); }, m);
                return res;
            }
            seen->insert(*fp);
            munmap(fp, 4096);
        }
        std::atomic<uint64_t> *cnt =
            (std::atomic<uint64_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int d = 0; d < max_depth; d++) {
            uint16_t *nf = mk();
            cnt[0] = 0;
            uint64_t N = (uint64_t)frontier.size() * nops;
            pending.clear();
            bool last = d + 1 == max_depth;
            auto hist_of = [&](uint64_t i) {
                Hist h = frontier[i / nops];
                h.push_back((uint16_t)(i % nops));
                return h;
            };
            parallel(
                family, N,
                [&](uint64_t i) {
                    Hist h = hist_of(i);
                    if (enabled && !enabled(frontier[i / nops], (int)(i % nops))) return;
                    cnt[1]++;
                    uint64_t fp = run(h);
                    outcome(fp);
                    if (fp == 0) return;
                    if (seen->insert(fp) && !last) {
                        uint64_t k = cnt[0]++;
                        if (k < cap) {
                            uint16_t *q = nf + k * rec;
                            q[0] = (uint16_t)h.size();
                            for (size_t j = 0; j < h.size(); j++) q[1 + j] = h[j];
                        }
                    }
                },
                [&](uint64_t i) { return hkey(hist_of(i)); }, 16);
            auto pend = pending;
            pending.clear();
            for (auto &r : pend) {
                Hist h = parse_hist(r.key);
                if (recs_unknown() >= max_viol) break;
                add_record(family, r.key, [&] { run(h); }, r.msg);
            }
            res.transitions = cnt[1];
            res.depth = d + 1;
            uint64_t k = cnt[0];
            if (k > cap) {
                k = cap;
                exhaustive = false;
                notes.push_back(strf("state cap %llu reached in family %s", (unsigned long long)cap, family.c_str()));
            }
            std::vector<Hist> nfv;
            for (uint64_t j = 0; j < k; j++) {
                uint16_t *q = nf + j * rec;
                nfv.push_back(Hist(q + 1, q + 1 + q[0]));
            }
            munmap(nf, bytes);
            frontier.swap(nfv);
            if (frontier.empty() && !last) {
                notes.push_back(strf("family %s: state space closed at depth %d", family.c_str(), d + 1));
                break;
            }
            if (over_budget() || recs_unknown() >= max_viol) {
                if (!last) exhaustive = false;
                break;
            }
        }
        res.states = seen->count();
        states += res.states;
        bfs_info.push_back(strf("%s: depth %d, %d operations, %llu distinct states, %llu transitions", family.c_str(),
                                res.depth, nops, (unsigned long long)res.states, (unsigned long long)res.transitions));
        munmap(cnt, 4096);
        munmap((void *)seen->t, (seen->mask + 1 + 8) * 8);
        delete seen;
        return res;
    }
    std::vector<std::string> bfs_info;

    // ---- end ------------------------------------------------------------------------------------
    static std::string js(const std::string &s) {
        std::string o = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += c;
            } else if (c < 32 || c > 126)
                o += strf("\\u%04x", c);
            else
                o += c;
        }
        return o + "\"";
    }
    int finish() {
        if (replay) {
            if (!replay_ran) {
                printf("REPLAY: no family %s in this check at this tier\n", only_family.c_str());
                return 2;
            }
            return recs.empty() ? 0 : 1;
        }
        int nv = 0;
        std::set<std::string> printed;
        for (auto &r : recs) {
            if (r.known) {
                known_hit.insert(r.known_id);
                continue;
            }
            nv++;
            std::string path = strf("%s/%s_%d.json", replay_dir.c_str(), prop.c_str(), nv);
            FILE *f = fopen(path.c_str(), "w");
            if (f) {
                fprintf(f, "{\"property\": %s, \"tier\": %s, \"family\": %s, \"key\": %s, \"message\": %s}\n",
                        js(prop).c_str(), js(tier).c_str(), js(r.family).c_str(), js(r.key).c_str(),
                        js(r.msg).c_str());
                fclose(f);
            }
            printf("VIOLATION property=%s replay=%s family=%s %s: %s\n", prop.c_str(), path.c_str(),
                   r.family.c_str(), r.key.c_str(), r.msg.substr(0, 700).c_str());
        }
        for (auto &k : known_hit) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.c_str());
        uint64_t cases = sh->cases, evals = sh->evals;
        if (!evidence_path.empty()) {
            FILE *f = fopen(evidence_path.c_str(), "w");
            if (f) {
                fprintf(f, "{\"property\": %s, \"tier\": %s, \"seed\": %d, \"level\": %s,\n \"coverage\": {",
                        js(prop).c_str(), js(tier).c_str(), seed, js(level).c_str());
                uint64_t outs = outcomes.count();
                if (level == "model_checking")
                    fprintf(f,
                            "\"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu,\n  ",
                            (unsigned long long)(states + outs), (unsigned long long)evals,
                            (unsigned long long)cases);
                else
                    fprintf(f, "\"evaluations\": %llu, \"distinct_nontrivial\": %llu,\n  ",
                            (unsigned long long)evals, (unsigned long long)outs);
                fprintf(f, "\"cases\": %llu, \"distinct_outcomes\": %llu, \"exhaustive\": %s,\n  \"rule\": %s,\n",
                        (unsigned long long)cases, (unsigned long long)outs, exhaustive ? "true" : "false",
                        js(rule).c_str());
                auto arr = [&](const char *n, const std::vector<std::string> &v) {
                    fprintf(f, "  \"%s\": [", n);
                    for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s%s", i ? ", " : "", js(v[i]).c_str());
                    fprintf(f, "],\n");
                };
                arr("searches", bfs_info);
                arr("notes", notes);
                for (auto &x : extra) fprintf(f, "  %s: %s,\n", js(x.first).c_str(), x.second.c_str());
                fprintf(f, "  \"families\": {");
                bool first = true;
                for (auto &x : fam_cases) {
                    fprintf(f, "%s%s: {\"cases\": %llu, \"checked_operations\": %llu, \"seconds\": %.2f}",
                            first ? "" : ", ", js(x.first).c_str(), (unsigned long long)x.second,
                            (unsigned long long)fam_evals[x.first], fam_time[x.first]);
                    first = false;
                }
                fprintf(f, "},\n  \"samples\": [");
                if (samples.empty()) samples.push_back("see families");
                for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", js(samples[i]).c_str());
                fprintf(f, "]},\n \"assumptions\": [");
                for (size_t i = 0; i < assumptions.size(); i++)
                    fprintf(f, "%s%s", i ? ", " : "", js(assumptions[i]).c_str());
                fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", now() - t_start, nv);
                fclose(f);
            }
        }
        printf("%s %s: %llu cases, %llu checked operations, %llu distinct outcomes, %llu search states, %.1f s, %d violations%s\n",
               prop.c_str(), tier.c_str(), (unsigned long long)cases, (unsigned long long)evals,
               (unsigned long long)outcomes.count(), (unsigned long long)states, now() - t_start, nv,
               exhaustive ? "" : " (capped)");
        for (auto &s : bfs_info) printf("  %s\n", s.c_str());
        for (auto &x : fam_cases)
            printf("  family %s: %llu cases, %llu ops, %.2f s, slowest case %.2f s\n", x.first.c_str(), (unsigned long long)x.second,
                   (unsigned long long)fam_evals[x.first], fam_time[x.first], fam_slow[x.first]);
        for (auto &s : notes) printf("  note: %s\n", s.c_str());
        return nv ? 1 : 0;
    }
};
inline Engine &E() {
    static Engine e;
    return e;
}
}  // namespace mc
