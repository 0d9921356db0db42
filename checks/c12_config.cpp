// C12: replays every numbered execution under every build configuration and instruction-set level and
// compares the transcripts.
#include <dlfcn.h>
#include "../lib/mc.hpp"
using namespace mc;
typedef uint64_t (*CountFn)(int, int);
typedef const char *(*FamFn)(int);
typedef uint64_t (*CaseF)(int, uint64_t, int, int, uint64_t *, char **);
struct Cfg {
    std::string name;
    int isa;
    CaseF run;
};
int main(int argc, char **argv) {
    auto &e = E();
    e.init(argc, argv, "C12");
    std::vector<Cfg> cfg;
    CountFn count = nullptr;
    FamFn fam = nullptr;
    std::string lst = std::string(argv[0]) + ".libs";
    FILE *f = fopen(lst.c_str(), "r");
    char name[200], path[2000];
    int isa;
    while (f && fscanf(f, "%199s %d %1999s", name, &isa, path) == 3) {
        void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        if (!h) {
            fprintf(stderr, "%s\n", dlerror());
            return 2;
        }
        if (!count) {
            count = (CountFn)dlsym(h, "c12_count");
            fam = (FamFn)dlsym(h, "c12_family");
        }
        cfg.push_back({name, isa, (CaseF)dlsym(h, "c12_case")});
    }
    if (cfg.size() < 2) return 2;
    std::string js = "[";
    for (auto &c : cfg) js += (js.size() > 1 ? ", \"" : "\"") + c.name + "\"";
    e.extra["configurations"] = js + "]";
    e.rule = "an outcome is one distinct transcript (hash of all returned values and serialized bytes of one execution)";
    for (int k = 0; fam(k); k++) {
        uint64_t n = count(k, e.thorough);
        std::string fn = fam(k);
        if (e.samples.size() < 5) e.samples.push_back(strf("%s: execution %llu of %llu", fn.c_str(), (unsigned long long)n / 2, (unsigned long long)n));
        e.parallel(fn, n, [&](uint64_t i) {
            uint64_t h0 = 0;
            for (size_t c = 0; c < cfg.size(); c++) {
                uint64_t h = 0;
                e.detail("%s execution %llu in configuration %s", fn.c_str(), (unsigned long long)i, cfg[c].name.c_str());
                uint64_t m = cfg[c].run(k, i, cfg[c].isa, e.thorough, &h, nullptr);
                e.eval(m);
                if (c == 0) {
                    h0 = h;
                    e.outcome(h);
                } else if (h != h0) {
                    char *a = nullptr, *b = nullptr;
                    cfg[0].run(k, i, cfg[0].isa, e.thorough, &h0, &a);
                    cfg[c].run(k, i, cfg[c].isa, e.thorough, &h, &b);
                    // first differing line
                    const char *p = a, *q = b;
                    std::string la, lb;
                    while (*p || *q) {
                        const char *pe = strchrnul(p, '\n'), *qe = strchrnul(q, '\n');
                        la.assign(p, pe);
                        lb.assign(q, qe);
                        if (la != lb) break;
                        p = *pe ? pe + 1 : pe;
                        q = *qe ? qe + 1 : qe;
                        la = lb = "(beyond the recorded text)";
                    }
                    fail("configuration %s gives \"%s\", configuration %s gives \"%s\"", cfg[0].name.c_str(), la.c_str(), cfg[c].name.c_str(), lb.c_str());
                }
            }
        }, nullptr, 2);
    }
    return e.finish();
}
