// Controlled scheduler for library code compiled with -fsanitize=thread: this file *is* the runtime the
// instrumentation calls.  Threads are fibers; a switch can happen before every atomic operation, and all
// schedules are enumerated depth-first with sleep sets.  A vector-clock monitor that honours the memory
// orders used reports every pair of conflicting plain accesses not ordered by happens-before.
#pragma once
#include <ucontext.h>
#include <unordered_map>
#include <vector>
#include <roaring/memory.h>
#include "mc.hpp"
extern "C" char __data_start, _end;
namespace sx {
static const int MAXT = 4;  // thread 0 is the main thread
struct VC {
    uint32_t c[MAXT] = {0, 0, 0, 0};
    void join(const VC &o) {
        for (int i = 0; i < MAXT; i++)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
struct Shadow {
    uint32_t gen;
    uint8_t wt, freed;
    uint32_t wc;
    uint32_t r[MAXT];
};
struct Pending {
    const void *addr = nullptr;
    bool load = false;
    bool dep(const Pending &o) const { return addr && addr == o.addr && !(load && o.load); }
};
struct Fiber {
    ucontext_t ctx;
    char *stack = nullptr;
    bool done = false, started = false;
    std::function<void()> body;
    Pending pend;
    VC C, A, Rf;  // clock; acquired by relaxed reads, waiting for a fence; at the last release fence
    const char *op = "start";
};
struct Node {
    std::vector<int> cand;  // threads to try, in order
    size_t pick = 0;
    std::vector<std::pair<int, Pending>> sleep;
};
static const size_t STACK = 256 << 10;
static char *const ARENA = (char *)0x500000000000ull;
static const size_t ARENA_SIZE = 48u << 20;
struct Block {
    uint64_t magic, size, kind, pad;
};
struct World {
    Fiber f[MAXT];
    int n = 0, cur = 0;
    bool active = false, aborted = false, pruned = false, truncated = false;
    std::string err;
    std::vector<Node> nodes;
    size_t depth = 0;
    int bound = -1, preempts = 0;  // preemption bound (-1: none, then sleep sets prune)
    std::vector<std::pair<int, Pending>> sleep;
    size_t top = 0;
    int64_t live = 0;
    uint32_t gen = 1;
    std::unordered_map<const void *, VC> sync;
    std::unordered_map<uint64_t, Shadow> other;
    Shadow *shadow = nullptr;
    uint64_t accesses = 0, atomics = 0, foreign = 0;
    void init() {
        if (shadow) return;
        void *p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (p != ARENA) abort();
        shadow = (Shadow *)mmap(nullptr, ARENA_SIZE * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (shadow == MAP_FAILED) abort();
        for (int i = 1; i < MAXT; i++) f[i].stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    bool on_stack(const char *p) const {
        for (int i = 1; i < MAXT; i++)
            if (p >= f[i].stack && p < f[i].stack + STACK) return true;
        return false;
    }
};
inline World &W() {
    static World *w = new World;
    return *w;
}
[[noreturn]] inline void stop(const std::string &m) { throw mc::Violation{m}; }
inline void access(const void *addr, size_t n, bool write) {
    World &w = W();
    if (!w.active || w.aborted) return;
    w.accesses++;
    const char *p = (const char *)addr;
    bool arena = p >= ARENA && p < ARENA + ARENA_SIZE;
    // outside the arena only static storage is tracked: the harness's own heap and the stacks are private
    if (!arena && (p < &__data_start || p >= &_end)) return;
    if (!arena && w.n == 0) return;
    int t = w.cur;
    Fiber &me = w.f[t];
    uint32_t clk = me.C.c[t];
    for (size_t i = 0; i < n; i++) {
        Shadow &s = arena ? w.shadow[p + i - ARENA] : w.other[(uint64_t)(p + i)];
        if (s.gen != w.gen) {
            memset(&s, 0, sizeof s);
            s.gen = w.gen;
        }
        if (s.freed) stop(mc::strf("thread %d, in %s, %s memory already released by thread %d", t, me.op, write ? "writes" : "reads", s.wt));
        if (s.wc && s.wt != t && me.C.c[s.wt] < s.wc)
            stop(mc::strf("data race: thread %d, in %s, %s %s that thread %d wrote with no ordering", t, me.op, write ? "writes" : "reads",
                          arena ? "library memory" : "memory", s.wt));
        if (write) {
            for (int u = 0; u < MAXT; u++)
                if (u != t && s.r[u] && me.C.c[u] < s.r[u])
                    stop(mc::strf("data race: thread %d, in %s, writes %s that thread %d read with no ordering", t, me.op,
                                  arena ? "library memory" : "memory", u));
            s.wt = (uint8_t)t;
            s.wc = clk ? clk : 1;
            memset(s.r, 0, sizeof s.r);
        } else
            s.r[t] = clk ? clk : 1;
    }
}
inline void switch_to(int t) {
    World &w = W();
    int from = w.cur;
    if (from == t) return;
    w.cur = t;
    swapcontext(&w.f[from].ctx, &w.f[t].ctx);
}
// choose who runs next among the unfinished threads; called by the running thread (0 = main at the start)
inline void schedule() {
    World &w = W();
    std::vector<int> en;
    int me = w.cur;
    if (me && !w.f[me].done) en.push_back(me);
    for (int i = 1; i <= w.n; i++)
        if (i != me && !w.f[i].done) en.push_back(i);
    if (en.empty() || w.aborted) {
        switch_to(0);
        return;
    }
    if (w.depth == w.nodes.size()) {
        Node nd;
        if (w.bound < 0) nd.sleep = w.sleep;
        bool only_me = w.bound >= 0 && w.preempts >= w.bound && en[0] == me;
        for (int t : en) {
            if (only_me && t != me) continue;
            bool asleep = false;
            for (auto &s : nd.sleep) asleep |= s.first == t;
            if (!asleep) nd.cand.push_back(t);
        }
        if (nd.cand.empty()) {  // every continuation is a reordering of one already explored
            w.pruned = w.aborted = true;
            switch_to(0);
            return;
        }
        w.nodes.push_back(nd);
    }
    Node &nd = w.nodes[w.depth++];
    int t = nd.cand[nd.pick];
    if (me && !w.f[me].done && t != me) w.preempts++;
    // threads tried before at this node sleep until something dependent happens
    std::vector<std::pair<int, Pending>> sl;
    Pending &go = w.f[t].pend;
    for (auto &s : nd.sleep)
        if (s.first != t && !s.second.dep(go)) sl.push_back(s);
    for (size_t i = 0; i < nd.pick; i++) {
        int u = nd.cand[i];
        if (!w.f[u].pend.dep(go)) sl.push_back({u, w.f[u].pend});
    }
    w.sleep = sl;
    switch_to(t);
}
inline void point(const void *addr, bool load) {
    World &w = W();
    if (!w.active || !w.cur || w.aborted) return;
    w.atomics++;
    w.f[w.cur].pend.addr = addr;
    w.f[w.cur].pend.load = load;
    schedule();
}
inline void entry() {
    World &w = W();
    int me = w.cur;
    try {
        w.f[me].body();
    } catch (mc::Violation &v) {
        if (!w.aborted) w.err = v.msg;
        w.aborted = true;
    }
    w.f[me].done = true;
    schedule();
    abort();
}
inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
inline void a_load(const void *p, int mo) {
    World &w = W();
    if (!w.active) return;
    Fiber &f = w.f[w.cur];
    VC &s = w.sync[p];
    if (acq(mo)) f.C.join(s);
    else f.A.join(s);
}
inline void a_store(const void *p, int mo, bool rmw) {
    World &w = W();
    if (!w.active) return;
    Fiber &f = w.f[w.cur];
    VC &s = w.sync[p];
    VC add = rel(mo) ? f.C : f.Rf;
    if (rmw) s.join(add);
    else s = add;
    f.C.c[w.cur]++;
}
inline void fence(int mo) {
    World &w = W();
    if (!w.active) return;
    Fiber &f = w.f[w.cur];
    if (acq(mo)) f.C.join(f.A);
    if (rel(mo)) {
        f.Rf = f.C;
        f.C.c[w.cur]++;
    }
}
// an atomic access also has to target live memory
inline void touch_atomic(const void *addr, size_t n) {
    World &w = W();
    if (!w.active || w.aborted) return;
    const char *p = (const char *)addr;
    if (p < ARENA || p >= ARENA + ARENA_SIZE) return;
    for (size_t i = 0; i < n; i++) {
        Shadow &s = w.shadow[p + i - ARENA];
        if (s.gen == w.gen && s.freed) stop(mc::strf("thread %d, in %s, uses a counter already released by thread %d", w.cur, w.f[w.cur].op, s.wt));
        if (s.gen == w.gen && s.wc && s.wt != w.cur && w.f[w.cur].C.c[s.wt] < s.wc)
            stop(mc::strf("data race: thread %d, in %s, uses a counter that thread %d is initializing", w.cur, w.f[w.cur].op, s.wt));
    }
}
// ---- one execution: main builds, threads run, main checks --------------------------------------
inline void begin() {
    World &w = W();
    w.init();
    w.gen++;
    w.top = 0;
    w.live = 0;
    w.n = 0;
    w.cur = 0;
    w.aborted = w.pruned = false;
    w.err.clear();
    w.sync.clear();
    w.other.clear();
    w.depth = 0;
    w.preempts = 0;
    w.sleep.clear();
    for (auto &f : w.f) {
        f.C = VC();
        f.A = VC();
        f.Rf = VC();
        f.done = false;
        f.pend = Pending();
        f.op = "setup";
    }
    w.f[0].C.c[0] = 1;
    w.active = true;
}
// runs the bodies as threads 1..n; returns false if this schedule was pruned as redundant
inline bool run_threads(const std::vector<std::function<void()>> &bodies) {
    World &w = W();
    w.n = (int)bodies.size();
    for (int i = 1; i <= w.n; i++) {
        Fiber &f = w.f[i];
        f.body = bodies[i - 1];
        f.C = w.f[0].C;
        f.C.c[i] = 1;
        f.op = "start";
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack;
        f.ctx.uc_stack.ss_size = STACK;
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, (void (*)())entry, 0);
    }
    w.f[0].C.c[0]++;
    schedule();
    w.cur = 0;
    if (w.pruned) {
        w.active = false;
        return false;
    }
    if (w.aborted) {
        w.active = false;
        throw mc::Violation{w.err};
    }
    for (int i = 1; i <= w.n; i++) w.f[0].C.join(w.f[i].C);
    w.f[0].op = "teardown";
    return true;
}
inline void end() { W().active = false; }
struct Stats {
    uint64_t schedules = 0, pruned = 0;
    size_t longest = 0;
};
// enumerates every schedule of exec (which calls begin .. run_threads .. end)
inline Stats explore(const std::function<bool()> &exec, uint64_t max = 200000) {
    World &w = W();
    Stats st;
    w.nodes.clear();
    for (;;) {
        bool full = exec();
        if (full) st.schedules++;
        else st.pruned++;
        st.longest = std::max(st.longest, w.nodes.size());
        while (!w.nodes.empty() && w.nodes.back().pick + 1 >= w.nodes.back().cand.size()) w.nodes.pop_back();
        if (w.nodes.empty()) break;
        w.nodes.back().pick++;
        if (st.schedules + st.pruned >= max) {
            w.truncated = true;
            break;
        }
    }
    return st;
}
// replay one schedule: the picks of every node
inline std::string sched_str() {
    std::string s;
    for (auto &n : W().nodes) s += (char)('0' + n.cand[n.pick]);
    return s;
}
}  // namespace sx
