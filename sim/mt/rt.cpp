#include "rt.h"
#include <atomic>
#include <cerrno>
#include <climits>
namespace __cxxabiv1 { extern "C" char *__cxa_demangle(const char *, char *, size_t *, int *); }
namespace abi = __cxxabiv1;
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdarg>

#define RT __attribute__((noinline))
namespace mt {
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
static const int MAXT = 240, SLOTS = 512;
static const u64 HEAP = 0x100000000000ULL, HEAPSZ = 256u << 20, STK = 0x110000000000ULL, STKSZ = 256u << 10, SHADOW = 0x200000000000ULL, PCS = 0x280000000000ULL, FREED = 0x300000000000ULL;
static const u64 NEVER = ~0ULL, IDLE = ~0ULL - 1;
struct VC { u32 c[MAXT]; };
enum St { RUN, BLOCK, SLEEP, DONE };
struct Th {
    int id; St st; pthread_t real; bool sut, detached, joined, has_real; void *(*fn)(void *); void *arg, *ret; std::function<void()> *hfn;
    const void *on; u64 wake; bool timedout, woken; std::atomic<int> baton; VC vc; int in_sut, rt, nofault; u64 prio; int slot; u64 stk_lo, stk_top, stk_low; bool stalled;
    std::vector<std::pair<void (*)(void *), void *>> *dtors;
};
static Th *T[MAXT]; static int nT; static thread_local Th *me;
static bool active = false, abandoned = false, pinned = false; static std::atomic<int> main_done;
static sim::Ctx *C; static std::string P; static Stats S; static Faults F; static bool faults_on;
static u64 vnow, step, next_dec, seqno, seed, last_adv, cap, syncs; static int slot_base = 0;
static u64 nthreads_sut, heap_top, heap_peak;
// policy
static int policy; static u32 p_sync, p_mem; static sim::Rng rng(1); static std::vector<u64> changes; static size_t change_i;
static bool replaying; static std::vector<std::pair<u64, int>> rec; static size_t rec_i; static bool spurious_on;
static bool race_seen, uaf_seen, races_on; void reset_locks();
// glibc entry points
template <class T> static T real(const char *n) { T f = (T)dlsym(RTLD_NEXT, n); return f; }
static long rawcall(long n, long a, long b, long c, long d, long e, long f) { long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
static void fwait(std::atomic<int> *w, int v) { rawcall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(std::atomic<int> *w) { rawcall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
struct Rt { Th *t; Rt() { t = me; if (t) t->rt++; } ~Rt() { if (t) t->rt--; } };
static inline bool on() { return active && me && !me->rt; }

// ---- shadow memory ----
struct Slot { u32 clk; u8 tid, mask, flags, pad; };  // flags: 1 write, 2 atomic
extern "C" char __data_start, _end;
static u64 glob_lo, glob_hi; static Slot *gshadow; static u32 *gpcs; static char *exe_base;
static inline Slot *shadow_of(u64 a, u32 **pcs) {
    if (a >= HEAP && a < HEAP + HEAPSZ) { u64 w = (a - HEAP) >> 3; *pcs = (u32 *)PCS + w * 4; return (Slot *)SHADOW + w * 4; }
    if (a >= STK && a < STK + (u64)SLOTS * STKSZ) { u64 w = (HEAPSZ >> 3) + ((a - STK) >> 3); *pcs = (u32 *)PCS + w * 4; return (Slot *)SHADOW + w * 4; }
    if (a >= glob_lo && a < glob_hi) { u64 w = (a - glob_lo) >> 3; *pcs = gpcs + w * 4; return gshadow + w * 4; }
    return nullptr;
}
bool in_arena(const void *p) { return (u64)p >= HEAP && (u64)p < HEAP + HEAPSZ; }
static std::string sym(u32 off) {
    Dl_info di; if (!off || !dladdr(exe_base + off, &di) || !di.dli_sname) return "?";
    int st; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); std::string s = d ? d : di.dli_sname; free(d);
    size_t k = s.find('('); if (k != std::string::npos && k > 0) s = s.substr(0, k); if (s.size() > 90) s = s.substr(0, 90) + ".."; return s;
}
void fail(const std::string &cls, const std::string &msg) { Rt r; C->fail(P, cls, msg); }
static RT void report_race(u64 a, Th *t, u32 pc, bool w, const Slot &s, u32 opc) {
    if (race_seen || !races_on) return; race_seen = true;
    const char *where = a >= glob_lo && a < glob_hi ? "global" : a >= STK && a < STK + (u64)SLOTS * STKSZ ? "stack" : "heap";
    fail("data-race", std::string(w ? "write" : "read") + " in " + sym(pc) + " by thread " + std::to_string(t->id) + " races with " + ((s.flags & 1) ? "write" : "read") + " in " + sym(opc) + " by thread " + std::to_string(s.tid) + " (" + where + " memory)");
}
static RT void report_uaf(Th *t, u32 pc, bool w) { if (uaf_seen) return; uaf_seen = true; fail("use-after-free", std::string(w ? "write" : "read") + " of freed memory in " + sym(pc) + " by thread " + std::to_string(t->id)); }
static inline void access1(Th *t, u64 a, unsigned n, bool w, bool at, void *pcv) {
    u32 *pcs; Slot *s = shadow_of(a, &pcs); if (!s) return;
    u32 pc = (u32)((char *)pcv - exe_base);
    u8 mask = (u8)(((1u << n) - 1) << (a & 7)), fl = (u8)((w ? 1 : 0) | (at ? 2 : 0));
    if (a < STK) { if (a >= HEAP && ((u8 *)FREED)[(a - HEAP) >> 3]) { report_uaf(t, pc, w); return; } }
    else { Th *o = T[0]; (void)o; if (a >= t->stk_lo && a < t->stk_top) { if (a < t->stk_low) t->stk_low = a; } else for (int i = 0; i < nT; i++) if (a >= T[i]->stk_lo && a < T[i]->stk_top) { if (a < T[i]->stk_low) T[i]->stk_low = a; break; } }
    int put = -1, ev = -1;
    for (int i = 0; i < 4; i++) {
        if (!s[i].clk) { if (put < 0) put = i; continue; }
        bool hb = s[i].clk <= t->vc.c[s[i].tid];
        if (s[i].tid != t->id && (s[i].mask & mask) && ((s[i].flags | fl) & 1) && !(s[i].flags & fl & 2) && !hb) report_race(a, t, pc, w, s[i], pcs[i]);
        if ((s[i].tid == t->id || hb) && (s[i].mask & ~mask) == 0 && ((s[i].flags & 1) <= (fl & 1)) && ((s[i].flags & 2) >= (fl & 2))) { if (put < 0 || s[put].clk == 0) put = i; else if (s[i].tid == t->id) s[i].clk = 0; }
        else if (hb && ev < 0 && !(s[i].flags & 1)) ev = i;
    }
    if (put < 0) put = ev >= 0 ? ev : (int)(t->vc.c[t->id] & 3);
    s[put] = Slot{t->vc.c[t->id], (u8)t->id, mask, fl, 0}; pcs[put] = pc;
}
static inline void touch(Th *t, u64 a, u64 n, bool w, bool at, void *pc) {
    S.accesses++;
    if (n <= 8 && ((a & 7) + n) <= 8) { access1(t, a, (unsigned)n, w, at, pc); return; }
    while (n) { unsigned k = 8 - (a & 7); if (k > n) k = (unsigned)n; access1(t, a, k, w, at, pc); a += k; n -= k; }
}

// ---- vector clocks of synchronisation objects ----
struct SyncTab { static const int N = 16384; const void *key[N]; VC *val[N]; std::vector<int> used; std::vector<VC *> pool; size_t pi = 0;
    VC *get(const void *k, bool create) { u64 h = sim::mix64((u64)k) % N; while (key[h] && key[h] != k) h = (h + 1) % N; if (key[h]) return val[h]; if (!create || used.size() > N / 2) return create ? pool[0] : nullptr; if (pi == pool.size()) pool.push_back(new VC()); VC *v = pool[pi++]; memset(v, 0, sizeof *v); key[h] = k; val[h] = v; used.push_back((int)h); return v; }
    void reset() { for (int h : used) key[h] = nullptr; used.clear(); pi = 0; } };
static SyncTab *sync_tab;
static inline void vjoin(VC &a, const VC &b) { for (int i = 0; i < nT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(const void *k) { VC *v = sync_tab->get(k, false); if (v) vjoin(me->vc, *v); }
static void release(const void *k, bool merge = true) { VC *v = sync_tab->get(k, true); if (merge) vjoin(*v, me->vc); else *v = me->vc; me->vc.c[me->id]++; }

// ---- scheduling ----
static void park() { for (;;) { std::atomic<int> z{0}; fwait(&z, 0); } }
[[noreturn]] static void abandon() { abandoned = true; active = false; main_done = 1; fwake(&main_done); park(); __builtin_unreachable(); }
static std::string who_waits() { std::string s; for (int i = 0; i < nT; i++) if (T[i]->st == BLOCK) s += " " + std::to_string(i); return s; }
static void transfer(Th *n) {
    Th *m = me; S.switches++; S.sched_hash = sim::mix64(S.sched_hash ^ ((u64)n->id << 32) ^ (u64)m->id);
    m->baton = 0; n->baton = 1; fwake(&n->baton);
    if (m->st == DONE) return;
    while (m->baton.load() == 0) fwait(&m->baton, 0);
}
static void advance_time(bool forced) {
    u64 w = NEVER; for (int i = 0; i < nT; i++) if ((T[i]->st == SLEEP || T[i]->st == BLOCK) && T[i]->wake < w) w = T[i]->wake;
    if (w == NEVER || (forced && w == IDLE)) { last_adv = step; syncs = 0; return; }
    if (w != IDLE && w > vnow) vnow = w;
    for (int i = 0; i < nT; i++) if ((T[i]->st == SLEEP || T[i]->st == BLOCK) && T[i]->wake <= (w == IDLE ? IDLE : vnow)) { if (T[i]->st == BLOCK) T[i]->timedout = true; T[i]->st = RUN; T[i]->wake = NEVER; T[i]->on = nullptr; if (w == IDLE) break; }
    last_adv = step; syncs = 0;
}
static int policy_pick(int dflt) {
    if (policy == 1) { int b = -1; for (int i = 0; i < nT; i++) if (T[i]->st == RUN && (b < 0 || T[i]->prio > T[b]->prio)) b = i; return b; }
    int r[MAXT], k = 0; for (int i = 0; i < nT; i++) if (T[i]->st == RUN) r[k++] = i;
    return r[rng.below(k)];
}
static void schedule_next() { // when the next memory access is a decision
    if (replaying) { next_dec = rec_i < rec.size() ? rec[rec_i].first : NEVER; return; }
    if (policy == 1) { next_dec = change_i < changes.size() ? changes[change_i] : NEVER; return; }
    if (!p_mem) { next_dec = NEVER; return; }
    next_dec = step + 1 + rng.below(2 * (u64)p_mem);
}
// kind 0: memory access, 1: synchronisation, 2: current thread cannot go on
static RT void decide(int kind) {
    Th *m = me; m->rt++;
    if (step > cap) { fail("no-progress", "the run did not end within its step budget; blocked threads:" + who_waits()); abandon(); }
    if (kind) syncs++;
    if (syncs > 20000 || step - last_adv > 60000000) { advance_time(true); if (policy == 1 && m->st == RUN) m->prio = 1 + rng.below(900); }  // somebody spins
    for (;;) {
        int any = -1; for (int i = 0; i < nT && any < 0; i++) if (T[i]->st == RUN) any = i;
        if (any >= 0) break;
        u64 w = NEVER; for (int i = 0; i < nT; i++) if (T[i]->st != DONE && T[i]->wake < w) w = T[i]->wake;
        if (w == NEVER) {
            bool alldone = true; for (int i = 0; i < nT; i++) if (T[i]->st != DONE) alldone = false;
            if (alldone) { active = false; main_done = 1; fwake(&main_done); m->rt--; return; }
            if (T[0]->st == DONE) { fail("leaked-thread", "threads are still blocked after everything ended:" + who_waits()); abandon(); }
            fail("deadlock", "no thread can run and no timer is pending; blocked threads:" + who_waits()); abandon();
        }
        advance_time(false);
    }
    int d = m->id;
    if (m->st != RUN) { d = -1; for (int k = 1; k <= nT && d < 0; k++) if (T[(m->id + k) % nT]->st == RUN) d = (m->id + k) % nT; }
    int n = d;
    if (replaying) {
        while (rec_i < rec.size() && rec[rec_i].first < step) rec_i++;
        if (rec_i < rec.size() && rec[rec_i].first == step) { int x = rec[rec_i++].second; if (x < nT && T[x]->st == RUN) n = x; }
    } else if (policy == 1) {
        while (change_i < changes.size() && changes[change_i] <= step) { m->prio = change_i + 1; change_i++; }
        n = policy_pick(d);
    } else if (policy == 2) { n = kind == 2 ? policy_pick(d) : d; if (kind == 1 && rng.below(1000) < 5) n = policy_pick(d); }
    else if (kind == 2 || kind == 0 || rng.below(1000) < p_sync) n = policy_pick(d);
    if (n != d) rec.size() < 200000 && !replaying ? rec.push_back({step, n}) : void();
    schedule_next();
    if (n != m->id) transfer(T[n]);
    m->rt--;
}
static inline void mem_point() { if (++step >= next_dec) decide(0); }
static void sync_point() { Th *m = me; if (!active || !m || m->rt) return; ++step; decide(1); }
static void block_on(const void *k, u64 wake = NEVER) { me->st = BLOCK; me->on = k; me->wake = wake; me->timedout = false; ++step; decide(2); }
static int wake_on(const void *k, int n) {
    int c = 0; std::vector<int> w; for (int i = 0; i < nT; i++) if (T[i]->st == BLOCK && T[i]->on == k) w.push_back(i);
    while (!w.empty() && c < n) { size_t j = n == INT_MAX ? 0 : sim::mix64(seed ^ step ^ 0x77aa) % w.size(); Th *t = T[w[j]]; t->st = RUN; t->on = nullptr; t->wake = NEVER; t->woken = true; w.erase(w.begin() + j); c++; }
    return c;
}
static void sleep_until(u64 w) { me->st = SLEEP; me->wake = w; ++step; decide(2); }

// ---- memory ----
struct Hdr { u64 size, magic; }; static const u64 MAGIC = 0x51a7ab1e51a7ab1eULL, GONE = 0xdeadf4eedeadf4eeULL;
static void *arena_alloc(size_t n) {
    Th *m = me; Rt r; u64 k = m->nofault || !faults_on ? 0 : S.allocs++;
    if (faults_on && !m->nofault && std::find(F.alloc_fail.begin(), F.alloc_fail.end(), k) != F.alloc_fail.end()) { S.alloc_fails++; S.allocs_failed.push_back({m->id, seqno++, vnow, m->sut}); C->ev("fault alloc " + std::to_string(k) + " thread " + std::to_string(m->id)); return nullptr; }
    u64 need = ((n + 15) & ~15ULL) + sizeof(Hdr); if (heap_top + need > HEAP + HEAPSZ) return malloc(n ? n : 1);
    Hdr *h = (Hdr *)heap_top; heap_top += need; if (heap_top > heap_peak) heap_peak = heap_top; h->size = n; h->magic = MAGIC;
    memset(h + 1, 0xa5, need - sizeof(Hdr)); return h + 1;
}
static void arena_free(void *p, void *pc) {
    Hdr *h = (Hdr *)p - 1; Rt r;
    if (h->magic != MAGIC) { if (active && me) fail(h->magic == GONE ? "double-free" : "bad-free", "memory released twice or never allocated, by thread " + std::to_string(me->id) + " in " + sym((u32)((char *)pc - exe_base))); return; }
    if (active && me) for (u64 a = (u64)p; a < (u64)p + h->size; a += 8) access1(me, a, (unsigned)std::min<u64>(8, (u64)p + h->size - a), true, false, pc);
    h->magic = GONE; memset((u8 *)FREED + (((u64)p - HEAP) >> 3), 1, (h->size + 7) / 8 + (h->size == 0)); memset(p, 0xdb, h->size);
}

// ---- threads ----
static void *tramp(void *v) {
    Th *t = (Th *)v; me = t; t->rt = 1; while (t->baton.load() == 0) fwait(&t->baton, 0); t->rt = 0;
    if (t->hfn) (*t->hfn)(); else t->ret = t->fn(t->arg);
    while (t->dtors && !t->dtors->empty()) { auto d = t->dtors->back(); t->dtors->pop_back(); d.first(d.second); }
    t->rt++; release(t); t->st = DONE; wake_on(t, INT_MAX); C->ev("end " + std::to_string(t->id)); ++step; t->rt--; decide(2); t->rt++; me = nullptr; return nullptr;
}
static Th *new_thread(bool sut) {
    if (nT >= MAXT || slot_base + nT >= SLOTS) return nullptr;
    Th *t = T[nT]; delete t->dtors; delete t->hfn; t->dtors = nullptr; t->hfn = nullptr; t->id = nT; t->st = RUN; t->sut = sut; t->detached = t->joined = false; t->fn = nullptr; t->arg = t->ret = nullptr; t->on = nullptr; t->wake = NEVER; t->baton = 0; memset(&t->vc, 0, sizeof t->vc); t->in_sut = sut ? 1 : 0; t->rt = 0; t->nofault = 0; t->has_real = false;
    t->slot = slot_base + nT; t->stk_lo = STK + (u64)t->slot * STKSZ; t->stk_top = t->stk_lo + STKSZ; t->stk_low = t->stk_top; nT++;
    if (me) { t->vc = me->vc; me->vc.c[me->id]++; } t->vc.c[t->id] = 1; t->prio = 1000 + (sim::mix64(seed ^ (0x9900 + t->id)) >> 12);
    return t;
}
static void start_real(Th *t) {
    static auto rc = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, (void *)(t->stk_lo + 4096), STKSZ - 4096);
    int r = rc(&t->real, &a, tramp, t); pthread_attr_destroy(&a); if (r) { fprintf(stderr, "cannot create a real thread: %d\n", r); _exit(3); } t->has_real = true;
}
void init() {
    auto mm = [](u64 a, u64 n) { void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)a) { fprintf(stderr, "cannot map the simulated memory\n"); _exit(3); } };
    mm(HEAP, HEAPSZ); mm(STK, (u64)SLOTS * STKSZ); u64 words = (HEAPSZ >> 3) + (((u64)SLOTS * STKSZ) >> 3); mm(SHADOW, words * 4 * sizeof(Slot)); mm(PCS, words * 16); mm(FREED, HEAPSZ >> 3);
    glob_lo = (u64)&__data_start & ~7ULL; glob_hi = ((u64)&_end + 7) & ~7ULL; u64 gw = (glob_hi - glob_lo) >> 3; gshadow = (Slot *)calloc(gw * 4, sizeof(Slot)); gpcs = (u32 *)calloc(gw * 4, 4);
    Dl_info di; dladdr((void *)&init, &di); exe_base = (char *)di.dli_fbase;
    for (int i = 0; i < MAXT; i++) T[i] = new Th(); sync_tab = new SyncTab(); memset(sync_tab->key, 0, sizeof sync_tab->key); sync_tab->pool.push_back(new VC());
    pthread_t t; static auto rc = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create"); static auto rj = real<int (*)(pthread_t, void **)>("pthread_join");
    rc(&t, nullptr, [](void *) -> void * { return nullptr; }, nullptr); rj(t, nullptr);   // glibc's single-threaded shortcuts are off from here on
    if (getenv("VERIF_CPU")) { cpu_set_t have, s; CPU_ZERO(&s); if (!sched_getaffinity(0, sizeof have, &have)) { int n = CPU_COUNT(&have), k = atoi(getenv("VERIF_CPU")) % (n ? n : 1); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &have) && k-- == 0) { CPU_SET(i, &s); sched_setaffinity(0, sizeof s, &s); break; } } }
}
static void reset_memory() {
    u64 n = (heap_peak - HEAP) >> 3; if (heap_peak) { memset((void *)SHADOW, 0, n * 4 * sizeof(Slot)); memset((void *)FREED, 0, n); }
    for (int i = 0; i < nT; i++) { u64 lo = T[i]->stk_low & ~7ULL; if (lo < T[i]->stk_top) { u64 w = (HEAPSZ >> 3) + ((lo - STK) >> 3); memset((Slot *)SHADOW + w * 4, 0, ((T[i]->stk_top - lo) >> 3) * 4 * sizeof(Slot)); } }
    memset(gshadow, 0, ((glob_hi - glob_lo) >> 3) * 4 * sizeof(Slot)); heap_top = HEAP; heap_peak = HEAP; sync_tab->reset(); reset_locks();
}
bool run(sim::Ctx &c, const sim::Plan &p, const Faults &f, std::function<void()> fn, const std::string &prop) {
    if (!heap_top) heap_top = heap_peak = HEAP;
    C = &c; P = prop; F = f; S = Stats(); faults_on = false; vnow = 1000000000ULL; step = 0; seqno = 1; last_adv = 0; syncs = 0; nthreads_sut = 0; race_seen = uaf_seen = false; races_on = prop != "C25"; nT = 0; abandoned = false; main_done = 0;
    seed = p.cu("sseed", 1); rng = sim::Rng(seed); policy = (int)p.cu("policy"); p_sync = (u32)p.cu("psync", 200); p_mem = (u32)p.cu("pmem", 0); cap = p.cu("cap", 400000000); spurious_on = p.cu("spurious", 0);
    changes.clear(); change_i = 0; u64 span = p.cu("pctspan", 4000); for (u64 i = 0; i < p.cu("pctd", 0); i++) changes.push_back(1 + rng.below(span)); std::sort(changes.begin(), changes.end());
    rec.clear(); rec_i = 0; replaying = p.cs("sched") == "recorded"; if (replaying) for (auto &l : p.ops) if (l.s(0) == "sw") rec.push_back({l.u(1), (int)l.u(2)});
    std::stable_sort(rec.begin(), rec.end());
    Th *t = new_thread(false); if (!t) { fprintf(stderr, "out of thread slots\n"); _exit(3); } t->hfn = new std::function<void()>(fn); schedule_next();
    start_real(t); active = true; t->baton = 1; fwake(&t->baton);
    while (!main_done.load()) fwait(&main_done, 0);
    active = false;
    static auto rj = real<int (*)(pthread_t, void **)>("pthread_join");
    if (!abandoned) for (int i = 0; i < nT; i++) if (T[i]->has_real) rj(T[i]->real, nullptr);
    S.steps = step; c.simtime_ns += vnow - 1000000000ULL; bool ok = !abandoned;
    reset_memory();
    if (abandoned) { slot_base += nT; for (int i = 0; i < nT; i++) T[i] = new Th(); }
    c.ev("sched " + std::to_string(S.sched_hash) + " steps " + std::to_string(step));
    c.count("fault_thread_start_failure", S.thread_fails); c.count("fault_allocation_failure", S.alloc_fails); c.count("fault_late_thread_start", S.delays); c.count("fault_spurious_wakeup", S.spurious); c.count("context_switches", S.switches); c.count("threads", nT); c.count("memory_accesses", S.accesses);
    return ok;
}
std::string schedule_text() { std::string s; for (auto &x : rec) s += "sw " + std::to_string(x.first) + " " + std::to_string(x.second) + "\n"; return s; }
int spawn(std::function<void()> fn) { Rt r; Th *t = new_thread(false); if (!t) return -1; t->hfn = new std::function<void()>(fn); start_real(t); return t->id; }
void join(int id) { if (id < 0) return; Th *m = me; m->rt++; while (T[id]->st != DONE) block_on(T[id]); acquire(T[id]); m->rt--; }
void sleep_ns(u64 ns) { Th *m = me; if (!active || !m) return; m->rt++; sleep_until(vnow + ns); m->rt--; }
void quiesce() { Th *m = me; m->rt++; sleep_until(IDLE); m->rt--; }
u64 now() { return vnow; }
u64 seq() { return seqno++; }
int self() { return me ? me->id : -1; }
bool sut_thread() { return me && me->sut; }
void arm_faults(bool o) { faults_on = o; }
Stats &stats() { return S; }
u64 heap_mark() { return (u64)heap_top; }
int live_since(u64 mark, u64 &bytes) { int n = 0; bytes = 0; for (u64 a = mark; a < (u64)heap_top;) { Hdr *h = (Hdr *)a; if (h->magic == MAGIC) { n++; bytes += h->size; } else if (h->magic != GONE) break; a += ((h->size + 15) & ~15ULL) + sizeof(Hdr); } return n; }
int live_sut_threads() { int n = 0; for (int i = 0; i < nT; i++) n += T[i]->sut && T[i]->st != DONE; return n; }
int unjoined_sut_threads() { int n = 0; for (int i = 0; i < nT; i++) n += T[i]->sut && !T[i]->joined && !T[i]->detached; return n; }
void enter_sut() { if (me) me->in_sut++; } void leave_sut() { if (me) me->in_sut--; }
NoFault::NoFault() { if (me) me->nofault++; } NoFault::~NoFault() { if (me) me->nofault--; }
NoSut::NoSut() { n = me ? me->in_sut : 0; if (me) me->in_sut = 0; } NoSut::~NoSut() { if (me) me->in_sut = n; }
u64 aux(u64 salt) { return sim::mix64(seed * 31 + salt); }
static inline bool sutmem() { return active && me && !me->rt && me->in_sut > 0; }

// ---- synchronisation objects ----
struct Mx { const void *k; int owner, count, readers; }; 
}
using namespace mt;
namespace { struct MxTab { static const int N = 4096; Mx e[N]; std::vector<int> used; Mx &get(const void *k) { u64 h = sim::mix64((u64)k) % N; while (e[h].k && e[h].k != k) h = (h + 1) % N; if (!e[h].k) { e[h] = Mx{k, -1, 0, 0}; used.push_back((int)h); } return e[h]; } void reset() { for (int h : used) e[h].k = nullptr; used.clear(); } }; MxTab mx; }
namespace mt { void reset_locks() { mx.reset(); } }
#define PC __builtin_return_address(0)
static inline void chk(const void *k, void *pc) { if (sutmem()) { Th *m = me; m->rt++; access1(m, (u64)k & ~7ULL, 8, true, true, pc); m->rt--; } }
static int lock_mutex(pthread_mutex_t *m, u64 wake, bool tr, void *pc) {
    sync_point(); chk(m, pc); Th *t = me; t->rt++; Mx &x0 = mx.get(m); int kind = m->__data.__kind & 3, rc = 0;
    (void)x0;
    for (;;) {
        Mx &x = mx.get(m);
        if (x.owner < 0) { x.owner = t->id; x.count = 1; acquire(m); break; }
        if (x.owner == t->id) { if (kind == PTHREAD_MUTEX_RECURSIVE) { x.count++; break; } if (tr) { rc = EBUSY; break; } if (kind == PTHREAD_MUTEX_ERRORCHECK) { rc = EDEADLK; break; } }
        if (tr) { rc = EBUSY; break; }
        block_on(m, wake); if (t->timedout) { rc = ETIMEDOUT; break; }
    }
    t->rt--; return rc;
}
static int unlock_mutex(pthread_mutex_t *m, void *pc) {
    chk(m, pc); Th *t = me; t->rt++; Mx &x = mx.get(m);
    if (x.owner != t->id) fail("lock-misuse", "a mutex was unlocked by a thread that does not hold it");
    else if (--x.count == 0) { x.owner = -1; release(m); wake_on(m, INT_MAX); }
    t->rt--; sync_point(); return 0;
}
static u64 abs_ns(clockid_t c, const struct timespec *ts) { (void)c; return ts->tv_sec < 0 ? 0 : (u64)ts->tv_sec * 1000000000ULL + (u64)ts->tv_nsec; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, u64 wake, void *pc) {
    chk(c, pc); Th *t = me; t->rt++; Mx &x = mx.get(m); if (x.owner != t->id) fail("lock-misuse", "condition wait without holding the mutex"); int cnt = x.count; x.owner = -1; x.count = 0; release(m); wake_on(m, INT_MAX);
    if (spurious_on && sim::mix64(seed ^ step ^ 0x5b) % 16 == 0) { S.spurious++; t->woken = true; t->timedout = false; ++step; t->rt--; sync_point(); t->rt++; }
    else block_on(c, wake);
    bool to = t->timedout; t->rt--; lock_mutex(m, NEVER, false, pc); mx.get(m).count = cnt; t->rt++; acquire(c); t->rt--; return to ? ETIMEDOUT : 0;
}
static long rawret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
extern "C" {
int __cxa_thread_atexit(void (*d)(void *), void *o, void *dso);
int pthread_mutex_lock(pthread_mutex_t *m) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return on() ? lock_mutex(m, NEVER, false, PC) : r(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return on() ? lock_mutex(m, NEVER, true, PC) : r(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { static auto r = real<int (*)(pthread_mutex_t *, const struct timespec *)>("pthread_mutex_timedlock"); return on() ? lock_mutex(m, abs_ns(CLOCK_REALTIME, ts), false, PC) : r(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { static auto r = real<int (*)(pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_mutex_clocklock"); return on() ? lock_mutex(m, abs_ns(c, ts), false, PC) : r(m, c, ts); }
int pthread_mutex_unlock(pthread_mutex_t *m) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return on() ? unlock_mutex(m, PC) : r(m); }
int pthread_mutex_destroy(pthread_mutex_t *m) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_destroy"); if (on()) { Rt g; Mx &x = mx.get(m); if (x.owner >= 0) fail("lock-misuse", "a locked mutex was destroyed"); x.owner = -1; return 0; } return r(m); }
static int rw(pthread_rwlock_t *l, bool wr, bool tr, u64 wake, void *pc) {
    sync_point(); chk(l, pc); Th *t = me; t->rt++; int rc = 0;
    for (;;) { Mx &x = mx.get(l); if (x.owner < 0 && (!wr || x.readers == 0)) { if (wr) x.owner = t->id; else x.readers++; acquire(l); if (wr) acquire((char *)l + 1); break; } if (tr) { rc = EBUSY; break; } block_on(l, wake); if (t->timedout) { rc = ETIMEDOUT; break; } }
    t->rt--; return rc;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock"); return on() ? rw(l, false, false, NEVER, PC) : r(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock"); return on() ? rw(l, true, false, NEVER, PC) : r(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock"); return on() ? rw(l, false, true, NEVER, PC) : r(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock"); return on() ? rw(l, true, true, NEVER, PC) : r(l); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock"); if (!on()) return r(l);
    chk(l, PC); Th *t = me; t->rt++; Mx &x = mx.get(l);
    if (x.owner == t->id) { x.owner = -1; release(l); } else if (x.readers > 0) { x.readers--; release((char *)l + 1); } else fail("lock-misuse", "a lock was released by a thread that does not hold it");
    wake_on(l, INT_MAX); t->rt--; sync_point(); return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { static auto r = real<int (*)(pthread_rwlock_t *, const pthread_rwlockattr_t *)>("pthread_rwlock_init"); return r(l, a); }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_destroy"); return on() ? 0 : r(l); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait"); return on() ? cond_wait(c, m, NEVER, PC) : r(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait"); return on() ? cond_wait(c, m, abs_ns(CLOCK_REALTIME, ts), PC) : r(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait"); return on() ? cond_wait(c, m, abs_ns(k, ts), PC) : r(c, m, k, ts); }
int pthread_cond_signal(pthread_cond_t *c) { static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal"); if (!on()) return r(c); chk(c, PC); { Rt g; release(c); wake_on(c, 1); } sync_point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast"); if (!on()) return r(c); chk(c, PC); { Rt g; release(c); wake_on(c, INT_MAX); } sync_point(); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_destroy"); return on() ? 0 : r(c); }
int pthread_once(pthread_once_t *o, void (*fn)()) {
    static auto r = real<int (*)(pthread_once_t *, void (*)())>("pthread_once"); if (!on()) return r(o, fn);
    sync_point(); Th *t = me; t->rt++; chk(o, PC);
    while (*o == 1) block_on(o);
    if (*o == 2) { acquire(o); t->rt--; return 0; }
    acquire(o); *o = 1; t->rt--;
    try { fn(); } catch (...) { Rt g; *o = 0; release(o); wake_on(o, INT_MAX); throw; }
    { Rt g; *o = 2; release(o); wake_on(o, INT_MAX); } sync_point(); return 0;
}
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create"); if (!on()) return r(out, a, fn, arg);
    sync_point(); Th *m = me; u64 k = faults_on ? nthreads_sut++ : 0;
    { Rt g; S.threads++;
      if (faults_on && std::find(F.thread_fail.begin(), F.thread_fail.end(), k) != F.thread_fail.end()) { S.thread_fails++; S.threads_failed.push_back({m->id, seqno++}); C->ev("fault thread " + std::to_string(k)); return EAGAIN; }
      Th *t = new_thread(true); if (!t) return EAGAIN; t->fn = fn; t->arg = arg;
      int ds = 0; if (a && !pthread_attr_getdetachstate(a, &ds) && ds == PTHREAD_CREATE_DETACHED) t->detached = true;
      if (faults_on) for (auto &d : F.thread_delay) if (d.first == k) { t->st = SLEEP; t->wake = vnow + d.second; S.delays++; }
      start_real(t); *out = t->real; C->ev("thread " + std::to_string(t->id) + " by " + std::to_string(m->id)); }
    sync_point(); return 0;
}
static Th *find_thread(pthread_t p) { for (int i = 0; i < nT; i++) if (T[i]->has_real && T[i]->sut && pthread_equal(T[i]->real, p) && !T[i]->joined) return T[i]; return nullptr; }
int pthread_join(pthread_t p, void **ret) {
    static auto r = real<int (*)(pthread_t, void **)>("pthread_join"); if (!on()) return r(p, ret);
    sync_point(); Rt g; Th *t = find_thread(p); if (!t || t->detached) return ESRCH; if (t == me) return EDEADLK;
    t->joined = true; while (t->st != DONE) block_on(t); acquire(t); if (ret) *ret = t->ret; return 0;
}
int pthread_detach(pthread_t p) { static auto r = real<int (*)(pthread_t)>("pthread_detach"); if (!on()) return r(p); sync_point(); Rt g; Th *t = find_thread(p); if (!t) return ESRCH; t->detached = true; return 0; }
int sched_yield() { static auto r = real<int (*)()>("sched_yield"); if (!on()) return r(); Rt g; sleep_until(vnow + 1000); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { static auto r = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep"); if (!on()) return r(a, b); sleep_ns(abs_ns(0, a)); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { static auto r = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep"); if (!on()) return r(c, fl, a, b); Rt g; u64 w = abs_ns(c, a); if (!(fl & TIMER_ABSTIME)) w += vnow; if (w > vnow) sleep_until(w); return 0; }
int usleep(useconds_t u) { static auto r = real<int (*)(useconds_t)>("usleep"); if (!on()) return r(u); sleep_ns((u64)u * 1000); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { static auto r = real<int (*)(clockid_t, struct timespec *)>("clock_gettime"); if (!on()) return r(c, t); t->tv_sec = (time_t)(vnow / 1000000000ULL); t->tv_nsec = (long)(vnow % 1000000000ULL); return 0; }
int gettimeofday(struct timeval *t, void *z) { static auto r = real<int (*)(struct timeval *, void *)>("gettimeofday"); if (!on()) return r(t, z); t->tv_sec = (time_t)(vnow / 1000000000ULL); t->tv_usec = (suseconds_t)(vnow % 1000000000ULL / 1000); return 0; }
time_t time(time_t *t) { static auto r = real<time_t (*)(time_t *)>("time"); if (!on()) return r(t); time_t v = (time_t)(vnow / 1000000000ULL); if (t) *t = v; return v; }
int get_nprocs() { return 4; }
static long futex_wait(u32 *a, u32 val, u64 wake) { Th *m = me; sync_point(); m->rt++; long rc = 0; if (*a != val) rc = -EAGAIN; else if (spurious_on && sim::mix64(seed ^ step ^ 0x5c) % 16 == 0) { S.spurious++; } else { block_on(a, wake); if (m->timedout) rc = -ETIMEDOUT; } acquire(a); m->rt--; return rc; }
static long futex_wake(u32 *a, int n) { long k; { Rt g; release(a); k = wake_on(a, n); } sync_point(); return k; }
long syscall(long n, ...) {
    va_list v; va_start(v, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(v, long); va_end(v);
    if (n == SYS_futex && on()) {
        int op = (int)a[1] & 127; long r = -ENOSYS;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { u64 w = NEVER; if (a[3]) { w = abs_ns(0, (const struct timespec *)a[3]); if (op == FUTEX_WAIT) w += vnow; } r = futex_wait((u32 *)a[0], (u32)a[2], w); }
        else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) r = futex_wake((u32 *)a[0], (int)a[2]);
        if (r < 0) { errno = (int)-r; return -1; } return r;
    }
    long r = rawcall(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned *a, unsigned v, bool to, long s, long ns) { if (!on()) { sched_yield(); return true; } u64 w = to ? (s < 0 ? vnow : (u64)s * 1000000000ULL + (u64)ns) : NEVER; return futex_wait(a, v, w) != -ETIMEDOUT; }
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned *a, unsigned v, bool to, long s, long ns) { if (!on()) { sched_yield(); return true; } u64 w = to ? (s < 0 ? vnow : (u64)s * 1000000000ULL + (u64)ns) : NEVER; return futex_wait(a, v, w) != -ETIMEDOUT; }
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *a) { if (on()) futex_wake(a, INT_MAX); }
int sem_wait(sem_t *s) { static auto r = real<int (*)(sem_t *)>("sem_wait"); if (!on()) return r(s); sync_point(); Rt g; int v; while (sem_getvalue(s, &v) == 0 && v <= 0) block_on(s); static auto tr = real<int (*)(sem_t *)>("sem_trywait"); tr(s); acquire(s); return 0; }
int sem_post(sem_t *s) { static auto r = real<int (*)(sem_t *)>("sem_post"); if (!on()) return r(s); { Rt g; r(s); release(s); wake_on(s, INT_MAX); } sync_point(); return 0; }
int __cxa_guard_acquire(u64 *g) {
    if (!on()) { if (*(volatile char *)g) return 0; return 1; }
    sync_point(); Rt r; while (!*(char *)g && ((char *)g)[1]) block_on(g);
    acquire(g); if (*(char *)g) return 0; ((char *)g)[1] = 1; return 1;
}
void __cxa_guard_release(u64 *g) { *(char *)g = 1; ((char *)g)[1] = 0; if (on()) { { Rt r; release(g); wake_on(g, INT_MAX); } sync_point(); } }
void __cxa_guard_abort(u64 *g) { ((char *)g)[1] = 0; if (on()) { { Rt r; release(g); wake_on(g, INT_MAX); } sync_point(); } }
int __cxa_thread_atexit_impl(void (*d)(void *), void *o, void *dso) { return __cxa_thread_atexit(d, o, dso); }   // Rust's thread locals
ssize_t getrandom(void *p, size_t n, unsigned fl) { if (!on()) return rawret(rawcall(SYS_getrandom, (long)p, (long)n, fl, 0, 0, 0)); static u64 k; for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = (u8)sim::mix64(seed ^ ++k); return (ssize_t)n; }   // seeds of hash maps
int __cxa_thread_atexit(void (*d)(void *), void *o, void *dso) {
    typedef int (*fn)(void (*)(void *), void *, void *); static fn r = real<fn>("__cxa_thread_atexit_impl");
    if (active && me) { Rt g; if (!me->dtors) me->dtors = new std::vector<std::pair<void (*)(void *), void *>>(); me->dtors->push_back({d, o}); return 0; }
    return r ? r(d, o, dso) : 0;
}
}
void *operator new(size_t n) { void *p = sutmem() ? arena_alloc(n) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sutmem() ? arena_alloc(n) : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
static inline void del(void *p, void *pc) { if (!p) return; if (in_arena(p)) arena_free(p, pc); else free(p); }
void operator delete(void *p) noexcept { del(p, PC); }
void operator delete[](void *p) noexcept { del(p, PC); }
void operator delete(void *p, size_t) noexcept { del(p, PC); }
void operator delete[](void *p, size_t) noexcept { del(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del(p, PC); }

// ---- compiler instrumentation ----
static inline __attribute__((always_inline)) void acc(void *p, size_t n, bool w, void *pc) { if (!active) return; Th *m = me; if (!m || m->rt || m->in_sut <= 0) return; mem_point(); if (!races_on) { S.accesses++; return; } if (active) touch(m, (u64)p, n, w, false, pc); }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false, PC); } void __tsan_write##n(void *p) { acc(p, n, true, PC); } void __tsan_unaligned_read##n(void *p) { acc(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { acc(p, n, true, PC); } void __tsan_read_write##n(void *p) { acc(p, n, false, PC); acc(p, n, true, PC); } void __tsan_unaligned_read_write##n(void *p) { acc(p, n, false, PC); acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false, PC); } void __tsan_write_range(void *p, size_t n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) acc(p, 8, true, PC); } void __tsan_vptr_read(void **p) { acc(p, 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { acc((void *)s, n, false, PC); acc(d, n, true, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { acc((void *)s, n, false, PC); acc(d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) acc(d, n, true, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) { if (active && me && !me->rt) { sync_point(); Rt r; static char fence; acquire(&fence); release(&fence); } }
void __tsan_atomic_signal_fence(int) {}
}
enum { RLX, CONSUME, ACQ, REL, ACQREL, SEQ };
static inline bool is_acq(int mo) { return mo == CONSUME || mo == ACQ || mo == ACQREL || mo == SEQ; }
static inline bool is_rel(int mo) { return mo == REL || mo == ACQREL || mo == SEQ; }
static inline bool at_begin(void *p, size_t n, bool w, void *pc) { if (!active || !me || me->rt) return false; if (me->in_sut > 0) { sync_point(); if (!active) return false; } Rt r; touch(me, (u64)p, n, w, true, pc); return true; }
static inline void at_end(void *p, int mo, bool load, bool store) { Rt r; if (load && is_acq(mo)) acquire(p); if (store) { if (is_rel(mo)) release(p, load); } }
template <class T> static T a_load(const volatile T *p, int mo, void *pc) { bool s = at_begin((void *)p, sizeof(T), false, pc); T v = *p; if (s) at_end((void *)p, mo, true, false); return v; }
template <class T> static void a_store(volatile T *p, T v, int mo, void *pc) { bool s = at_begin((void *)p, sizeof(T), true, pc); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); if (s) at_end((void *)p, mo, false, true); }
template <class T, class Fn> static T a_rmw(volatile T *p, int mo, void *pc, Fn f) { bool s = at_begin((void *)p, sizeof(T), true, pc); T o = f(p); if (s) at_end((void *)p, mo, true, true); return o; }
template <class T> static bool a_cas(volatile T *p, T *e, T v, int mo, int fmo, void *pc) { bool s = at_begin((void *)p, sizeof(T), true, pc); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (s) { if (ok) at_end((void *)p, mo, true, true); else at_end((void *)p, fmo, true, false); } return ok; }
#define AT(n, T) extern "C" { T __tsan_atomic##n##_load(const volatile T *p, int mo) { return a_load<T>(p, mo, PC); } void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&](volatile T *q) { return __atomic_exchange_n(q, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&](volatile T *q) { return __atomic_fetch_add(q, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&](volatile T *q) { return __atomic_fetch_sub(q, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&](volatile T *q) { return __atomic_fetch_and(q, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&](volatile T *q) { return __atomic_fetch_or(q, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&](volatile T *q) { return __atomic_fetch_xor(q, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&](volatile T *q) { return __atomic_fetch_nand(q, v, __ATOMIC_SEQ_CST); }); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int f) { return a_cas<T>(p, e, v, mo, f, PC); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { return a_cas<T>(p, e, v, mo, f, PC); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int mo, int f) { a_cas<T>(p, &e, v, mo, f, PC); return e; } }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
