// Deterministic simulation runtime.  Compiled WITHOUT -fsanitize=thread; the code under test is compiled with
// it and linked against the __tsan_* entry points below instead of libtsan.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <new>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

#define likely(x) __builtin_expect(!!(x),1)
#define unlikely(x) __builtin_expect(!!(x),0)
typedef uintptr_t U;

SimCfg g_cfg;
Result* g_res;

// ------------------------------------------------------------------------------------------------ layout
static const U ARENA = 0x100000000000ull; static const U ARENA_SZ = 512ull<<20;
static const U STKS  = 0x110000000000ull; static const U STK_SZ = 512ull<<10;
static const U ASH   = 0x120000000000ull;                 // addressability shadow of the arena, 1 byte / 8
static const U RSH   = 0x130000000000ull;                 // race shadow of the arena, 64 byte / 8
static const U GSH   = 0x140000000000ull;                 // race shadow of globals
static const int MAXT = 32;
extern "C" { extern char __data_start; extern char _end; }
static U G_LO, G_HI;

// ------------------------------------------------------------------------------------------------ rng
struct Rng { uint64_t s; };
static inline uint64_t rnext(Rng& r) { uint64_t z = (r.s += 0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static inline double runit(Rng& r) { return (rnext(r)>>11) * (1.0/9007199254740992.0); }
static inline uint64_t rbelow(Rng& r, uint64_t n) { return n ? rnext(r) % n : 0; }
static inline uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); return h * 0xff51afd7ed558ccdull; }

// ------------------------------------------------------------------------------------------------ threads
struct VC { uint32_t c[MAXT]; };
enum { T_FREE=0, T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_FUTEX, T_GUARD, T_RW, T_SEM, T_DONE };
struct Thr {
    int tid, status;
    uint32_t fx;
    pthread_t real;
    void* (*fn)(void*); void* arg; void* ret;
    uint64_t lstep, next_pt, last_sw, idle;
    uint64_t wake_at;            // virtual monotonic deadline, 0 = none
    uint64_t spur_at;            // gstep at which a spurious wake fires, 0 = none
    U wobj; int signaled, timedout;
    uint64_t stall_until;
    int64_t prio;
    int detached, joined, dying;
    U stk_lo;
    VC vc, acqp, relf;   // clock; what relaxed loads have seen; clock at the last release fence
    const Decision* rd; const Decision* rd_end;  // replay cursor
    uint64_t condseq;
};
static Thr T[MAXT];
static int NT;                      // slots ever used
static __thread Thr* self;
static int g_active;
static uint64_t gstep, vtime, memsteps, nswitch, condseq_ctr, thr_started; static int create_failures;
static int64_t rt_off; static const uint64_t RT_BASE = 1700000000ull*1000000000ull;
static Rng srng, lrng, rdrng;
static int quiet_depth;
static Thr* exiting;
static int pct_left; static uint64_t pct_pts[64]; static int npct;
static int starve_victim; static uint64_t starve_until;
static int g_calm;
static const uint64_t FAIR_MEM = 200000, FAIR_SYNC = 3000;
static int64_t pct_low;

static void early(void);
static int (*r_create)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
static int (*r_join)(pthread_t, void**);
static int (*r_detach)(pthread_t);
static int (*r_mlock)(pthread_mutex_t*); static int (*r_munlock)(pthread_mutex_t*); static int (*r_mtry)(pthread_mutex_t*);
static int (*r_cgt)(clockid_t, struct timespec*);
static long (*r_syscall)(long, ...);

static long fut(uint32_t* a, int op, uint32_t v) {
    long ret; register long r10 __asm__("r10") = 0; register long r8 __asm__("r8") = 0; register long r9 __asm__("r9") = 0;
    __asm__ volatile("syscall":"=a"(ret):"a"((long)SYS_futex),"D"(a),"S"((long)(op|FUTEX_PRIVATE_FLAG)),"d"((long)v),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
    return ret;
}

static inline void ev(uint64_t x) { g_res->hash = mixh(g_res->hash, x); g_res->events++; }

static void finish_child(void) {
    g_res->gsteps = gstep; g_res->memsteps = memsteps; g_res->switches = nswitch; g_res->vtime_ns = vtime; g_res->maxthreads = NT;
    __sync_synchronize();
    g_res->done = 1;
}
extern "C" void rt_violation(const char* cls, const char* fmt, ...) {
    if (!g_res->verdict) {
        g_res->verdict = 1;
        snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
        va_list ap; va_start(ap, fmt); vsnprintf(g_res->msg, MSGSZ, fmt, ap); va_end(ap);
        uint64_t h = 1469598103934665603ull; for (const char* p = cls; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
        ev(h); 
    }
    finish_child();
    _exit(0);
}
extern "C" void rt_end_run(void) { ev(0xE4D); finish_child(); _exit(0); }
static void internal_error(const char* m) {
    snprintf(g_res->msg, MSGSZ, "internal: %s", m);
    snprintf(g_res->cls, sizeof g_res->cls, "internal");
    g_res->verdict = 2; finish_child(); _exit(0);
}

static void describe_threads(char* buf, size_t n) {
    static const char* nm[] = {"free","runnable","lock","condwait","join","sleep","futex","guard","rwlock","sem","done"};
    size_t o = 0; buf[0]=0;
    for (int i=0;i<NT && o+40<n;i++) if (T[i].status!=T_FREE && T[i].status!=T_DONE)
        o += snprintf(buf+o, n-o, "%s%s%d=%s", o?",":"", i==0?"caller":"thread", i, nm[T[i].status]);
}

// ------------------------------------------------------------------------------------------------ scheduling
static inline void rec(int kind, int64_t arg) {
    if (g_res->ndec < MAXDEC) { Decision& d = g_res->dec[g_res->ndec++]; d.lstep = self->lstep; d.tid = self->tid; d.kind = kind; d.arg = arg; d.pad = 0; }
    else g_res->dec_overflow = 1;
}
static inline uint64_t next_rd_pt(Thr* t) { return t->rd < t->rd_end ? t->rd->lstep : ~0ull; }
// replay: fetch decision of the given kind at the current step of self
static int rd_get(int kind, int64_t* arg) {
    Thr* t = self;
    while (t->rd < t->rd_end && t->rd->lstep < t->lstep) t->rd++;
    for (const Decision* d = t->rd; d < t->rd_end && d->lstep == t->lstep; d++) if (d->kind == kind) { *arg = d->arg; return 1; }
    return 0;
}
static void draw_next_mem(Thr* t) {
    if (g_cfg.replay) { t->next_pt = ~0ull; 
        const Decision* d = t->rd; while (d < t->rd_end && d->lstep <= t->lstep) d++;
        if (d < t->rd_end) t->next_pt = d->lstep;
        return; }
    double p = g_calm ? 0 : g_cfg.p_mem;
    if (p <= 0) { t->next_pt = ~0ull; return; }
    double u = runit(srng); uint64_t k = 1; 
    // geometric
    double l = __builtin_log(1-u)/__builtin_log(1-p); if (l > 1e9) l = 1e9; k += (uint64_t)l;
    t->next_pt = t->lstep + k;
}
static inline bool selectable(Thr* t) {
    return t->status == T_RUN;
}
static void fire_timers(void) {
    for (int i=0;i<NT;i++) { Thr* t=&T[i];
        if (t->status!=T_FREE && t->status!=T_DONE && t->status!=T_RUN) {
            if (t->wake_at && vtime >= t->wake_at) { t->timedout = 1; t->status = T_RUN; t->wake_at = 0; }
            else if (t->status==T_COND && t->spur_at && gstep >= t->spur_at) { t->spur_at = 0; t->status = T_RUN; t->signaled = 2; g_res->faults[FK_SPURIOUS]++; }
        } }
}
static int default_target(void) {
    if (self->status == T_RUN) return self->tid;
    for (int k=1;k<=NT;k++) { int i=(self->tid+k)%NT; if (T[i].status==T_RUN) return i; }
    return -1;
}
static int count_run(int* arr) { int n=0; for (int i=0;i<NT;i++) if (T[i].status==T_RUN) arr[n++]=i; return n; }

static int choose(bool sync) {
    int arr[MAXT]; int n = count_run(arr);
    bool selfrun = self->status == T_RUN;
    if (n == 1) return arr[0];
    if (g_calm || quiet_depth) {           // fair random
        if (selfrun && runit(srng) < 0.7) return self->tid;
        return arr[rbelow(srng,n)];
    }
    // stalls: exclude stalled threads when something else can run
    int brr[MAXT], m=0; for (int i=0;i<n;i++) if (T[arr[i]].stall_until <= gstep) brr[m++]=arr[i];
    if (m == 0) { m=n; for (int i=0;i<n;i++) brr[i]=arr[i]; }
    bool selfok=false; for (int i=0;i<m;i++) if (brr[i]==self->tid) selfok=true;
    if (g_cfg.p_stall > 0 && sync && runit(srng) < g_cfg.p_stall) {
        int v = brr[rbelow(srng,m)]; T[v].stall_until = gstep + 1 + rbelow(srng, g_cfg.stall_len); g_res->faults[FK_STALL]++;
        if (m>1) { int mm=0; for (int i=0;i<m;i++) if (brr[i]!=v) brr[mm++]=brr[i]; m=mm; if (v==self->tid) selfok=false; }
    }
    switch (g_cfg.strategy) {
    case ST_PCT: {
        int best=brr[0]; for (int i=1;i<m;i++) if (T[brr[i]].prio > T[best].prio) best=brr[i];
        return best; }
    case ST_STARVE: {
        if (gstep >= starve_until) { starve_victim = rbelow(srng, NT); starve_until = gstep + 1 + rbelow(srng, 400); }
        int mm=0; for (int i=0;i<m;i++) if (brr[i]!=starve_victim) brr[mm++]=brr[i];
        if (mm) { m=mm; if (self->tid==starve_victim) selfok=false; }
        if (selfok && runit(srng) >= g_cfg.p_switch) return self->tid;
        return brr[rbelow(srng,m)]; }
    case ST_RR: {
        for (int k=1;k<=NT;k++) { int i=(self->tid+k)%NT; for (int j=0;j<m;j++) if (brr[j]==i) return i; }
        return brr[0]; }
    case ST_BURST: {
        // long solo stretches, then a storm
        double p = ((gstep>>7)&3)==0 ? 0.9 : 0.02;
        if (selfok && runit(srng) >= p) return self->tid;
        return brr[rbelow(srng,m)]; }
    default:
        if (selfok && runit(srng) >= (sync ? g_cfg.p_switch : 0.0)) return self->tid;
        if (!sync && selfok && m>1) { int k=rbelow(srng,m-1); for (int i=0,j=0;i<m;i++) if (brr[i]!=self->tid) { if (j==k) return brr[i]; j++; } }
        return brr[rbelow(srng,m)];
    }
}

static void park(Thr* t) { while (__atomic_load_n(&t->fx, __ATOMIC_ACQUIRE) == 0) fut(&t->fx, FUTEX_WAIT, 0); t->fx = 0;
    if (exiting && exiting != t) { Thr* e = exiting; exiting = nullptr; r_join(e->real, nullptr); } }
static void transfer(int to, bool last) {
    Thr* me = self; Thr* t = &T[to];
    nswitch++;
    g_res->sched_hash = mixh(g_res->sched_hash, ((uint64_t)me->tid<<56) ^ ((uint64_t)to<<48) ^ me->lstep);
    ev(0x1000000 ^ ((uint64_t)me->tid<<40) ^ ((uint64_t)to<<32) ^ me->lstep);
    t->last_sw = t->lstep;
    __atomic_store_n(&t->fx, 1u, __ATOMIC_RELEASE); fut(&t->fx, FUTEX_WAKE, 1);
    if (!last) park(me);
}

static void deadlock(void) {
    char b[512]; describe_threads(b, sizeof b);
    rt_violation("deadlock", "no thread can make progress: %s (after %llu scheduling steps)", b, (unsigned long long)gstep);
}

// Pick and run the next thread.  Caller has set self->status.
// Simulated time, step counters and timers move at synchronisation points only, so that a replay which omits
// no-op memory-level scheduling points is identical.
static void resched(bool sync) {
    if (sync) { gstep++; vtime += g_cfg.tick_ns; }
    if (!g_calm && gstep > g_cfg.calm_after) { g_calm = 1; for (int i=0;i<NT;i++) T[i].spur_at = 0; for (int i=0;i<NT;i++) if(!g_cfg.replay) T[i].next_pt = ~0ull; }
    if (gstep > g_cfg.gstep_cap) { char b[512]; describe_threads(b, sizeof b); rt_violation("no-progress", "run did not finish within %llu scheduling steps (%s)", (unsigned long long)g_cfg.gstep_cap, b); }
    if (g_cfg.strategy==ST_PCT && !g_cfg.replay && !g_calm) while (npct && pct_left < npct && gstep >= pct_pts[pct_left]) { self->prio = --pct_low; pct_left++; }
    if (sync) fire_timers();
    int arr[MAXT]; int n;
    while ((n = count_run(arr)) == 0) {
        uint64_t best = 0; for (int i=0;i<NT;i++) if (T[i].status!=T_FREE && T[i].status!=T_DONE && T[i].wake_at && (!best || T[i].wake_at < best)) best = T[i].wake_at;
        if (!best) deadlock();
        if (best > vtime) vtime = best;
        fire_timers();
    }
    int def = default_target(), tgt = def;
    if (g_cfg.replay) { int64_t a; if (rd_get(DK_SWITCH,&a) && a>=0 && a<NT && T[a].status==T_RUN) tgt = (int)a; }
    else tgt = choose(sync);
    // fairness backstop: nobody keeps the processor for ever
    if (tgt == self->tid && n > 1 && self->lstep - self->last_sw > (sync ? FAIR_SYNC*8 : FAIR_MEM)) {
        for (int k=1;k<=NT;k++) { int i=(self->tid+k)%NT; if (T[i].status==T_RUN) { tgt=i; break; } }
        self->last_sw = self->lstep;
        if (def != tgt) { if (self->status==T_RUN) g_res->faults[FK_PREEMPT]++; rec(DK_SWITCH,tgt); }
    } else if (tgt != def) { if (self->status==T_RUN) g_res->faults[FK_PREEMPT]++; rec(DK_SWITCH, tgt); }
    if (tgt != self->tid) transfer(tgt, self->status==T_DONE);
}
static void __attribute__((noinline)) slow_mem(Thr* t) {
    int e = errno;
    if (g_cfg.strategy==ST_PCT && !g_cfg.replay && t->lstep == t->next_pt && pct_left < npct) { t->prio = --pct_low; pct_left++; }
    resched(false);
    draw_next_mem(t);
    errno = e;
}
static inline void step(Thr* t) {
    t->lstep++;
    if (unlikely(++memsteps > g_cfg.mem_cap)) { char b[512]; describe_threads(b, sizeof b); rt_violation("no-progress", "run did not finish within %llu memory steps (%s)", (unsigned long long)g_cfg.mem_cap, b); }
}
// sync scheduling point
static inline void sp(void) {
    Thr* t = self; if (t->dying) return;
    step(t); resched(true);
    if (g_cfg.replay || t->next_pt <= t->lstep) draw_next_mem(t);
}
// a blocked thread gives up the processor (its own step, so that every decision has its own place in the trace)
static inline void block(void) {
    Thr* t = self; step(t); resched(true);
    if (g_cfg.replay || t->next_pt <= t->lstep) draw_next_mem(t);
}
static inline bool simming(void) { return g_active && self; }

// ------------------------------------------------------------------------------------------------ sync objects
struct Obj { U addr; int kind; int owner; int count; VC vc; int readers; int writer; int used; };
enum { O_MUTEX=1, O_COND, O_ATOM, O_GUARD, O_RW, O_SEM, O_ONCE };
static const uint32_t OBJN = 1<<20, IDXN = 1<<21; static Obj* objs; static uint32_t* oidx; static uint32_t nobj;   // open addressing index into a dense array
static inline uint32_t ohash(U a, int kind) { return (uint32_t)(((a ^ (uint64_t)kind*0x9e37) * 0x9e3779b97f4a7c15ull) >> 43); }
static Obj* obj(U a, int kind) {
    uint32_t i = ohash(a,kind);
    for (;;) { uint32_t k = oidx[i];
        if (!k) { if (nobj+1 >= OBJN) internal_error("too many sync objects"); oidx[i] = ++nobj; Obj* o = &objs[nobj]; o->used=1; o->addr=a; o->kind=kind; o->owner=-1; o->writer=-1; return o; }
        Obj* o = &objs[k]; if (o->addr==a && o->kind==kind) return o;
        i = (i+1) & (IDXN-1); }
}
static Obj* obj_find(U a, int kind) {
    uint32_t i = ohash(a,kind);
    for (;;) { uint32_t k = oidx[i]; if (!k) return nullptr; Obj* o = &objs[k]; if (o->addr==a && o->kind==kind) return o; i=(i+1)&(IDXN-1); }
}
static inline void vc_join(VC& a, const VC& b) { for (int i=0;i<MAXT;i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void hb_acq(Obj* o) { vc_join(self->vc, o->vc); }
static inline void hb_rel(Obj* o) { vc_join(o->vc, self->vc); self->vc.c[self->tid]++; }

static void wake_on(int status, U a) { for (int i=0;i<NT;i++) if (T[i].status==status && T[i].wobj==a) { T[i].status=T_RUN; T[i].wake_at = 0; } }

static void mutex_acquire(U a, const char* pc) {
    Obj* o = obj(a, O_MUTEX);
    while (o->owner >= 0) {
        if (self->dying) break;
        self->wobj = a; self->status = T_MUTEX; block();
        o = obj(a, O_MUTEX);
    }
    o->owner = self->tid; hb_acq(o);
}
static void mutex_release(U a) {
    Obj* o = obj(a, O_MUTEX);
    if (o->owner != self->tid && !self->dying) {
        if (g_cfg.heapcheck) rt_violation("bad-unlock", "a thread released a lock it does not hold (owner %d)", o->owner);
    }
    o->owner = -1; hb_rel(o); wake_on(T_MUTEX, a);
}

extern "C" {
#define EXPORT __attribute__((visibility("default"), noinline))
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!simming()) return r_mlock ? r_mlock(m) : 0;
    sp();
    Obj* o = obj((U)m, O_MUTEX);
    int type = m->__data.__kind & 3;
    if (o->owner == self->tid && type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
    if (o->owner == self->tid && type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    mutex_acquire((U)m, nullptr); ev(1); return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!simming()) return r_mtry ? r_mtry(m) : 0;
    sp();
    Obj* o = obj((U)m, O_MUTEX);
    if (o->owner == self->tid && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
    if (o->owner >= 0) { ev(2); return EBUSY; }
    o->owner = self->tid; hb_acq(o); ev(3); return 0;
}
static int mutex_timed(pthread_mutex_t* m, uint64_t deadline) {
    sp();
    for (;;) { Obj* o = obj((U)m, O_MUTEX);
        if (o->owner < 0) { o->owner = self->tid; hb_acq(o); return 0; }
        if (vtime >= deadline) return ETIMEDOUT;
        self->wobj=(U)m; self->timedout=0; self->wake_at = deadline; self->status=T_MUTEX; block(); self->wake_at = 0; }
}
static uint64_t to_mono(clockid_t c, const struct timespec* ts) {
    int64_t v = (int64_t)ts->tv_sec*1000000000ll + ts->tv_nsec;
    if (ts->tv_sec > 9000000000ll) v = 9000000000ll*1000000000ll;
    if (c == CLOCK_REALTIME) v -= (int64_t)RT_BASE + rt_off;
    if (v < 1) v = 1; return (uint64_t)v;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!simming()) return r_mlock(m); return mutex_timed(m, to_mono(CLOCK_REALTIME, ts)); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (!simming()) return r_mlock(m); return mutex_timed(m, to_mono(c, ts)); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!simming()) return r_munlock ? r_munlock(m) : 0;
    sp();
    Obj* o = obj((U)m, O_MUTEX);
    if (o->count > 0 && o->owner == self->tid) { o->count--; return 0; }
    mutex_release((U)m); ev(4); return 0;
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m); if (a) m->__data.__kind = (*(const int*)a) & 3;
    if (simming()) { Obj* o = obj_find((U)m, O_MUTEX); if (o) { o->owner=-1; o->count=0; } }
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (simming()) { Obj* o = obj_find((U)m, O_MUTEX); if (o && o->owner>=0 && g_cfg.heapcheck) rt_violation("destroy-locked", "a lock was destroyed while held"); }
    return 0;
}
// --- condition variables
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    sp();
    // decide on a spurious wake
    self->spur_at = 0;
    int64_t a;
    if (g_cfg.replay) { if (rd_get(DK_SPUR,&a) && a > 0) { self->spur_at = gstep + a; rec(DK_SPUR,a);} }
    else if (!g_calm && !quiet_depth && g_cfg.p_spur > 0 && runit(srng) < g_cfg.p_spur) { a = 1 + rbelow(srng, 60); self->spur_at = gstep + a; rec(DK_SPUR, a); }
    mutex_release((U)m);
    self->signaled = 0; self->timedout = 0; self->wobj = (U)c; self->wake_at = deadline; self->condseq = ++condseq_ctr; self->status = T_COND;
    ev(5);
    block();
    self->wake_at = 0; self->spur_at = 0;
    int to = self->timedout && !self->signaled;
    mutex_acquire((U)m, nullptr);
    ev(6+to);
    return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!simming()) { internal_error("cond_wait outside"); } return cond_wait_impl(c,m,0); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!simming()) internal_error("cond_timedwait outside"); return cond_wait_impl(c,m,to_mono(CLOCK_REALTIME,ts)); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!simming()) internal_error("cond_clockwait outside"); return cond_wait_impl(c,m,to_mono(k,ts)); }
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
    if (!simming()) return 0;
    sp();
    int arr[MAXT], n=0; for (int i=0;i<NT;i++) if (T[i].status==T_COND && T[i].wobj==(U)c) { int j=n++; while (j>0 && T[arr[j-1]].condseq > T[i].condseq) { arr[j]=arr[j-1]; j--; } arr[j]=i; }
    ev(8); if (!n) return 0;
    int k = 0; int64_t a;
    if (g_cfg.replay) { if (rd_get(DK_PICKW,&a) && a>=0 && a<n) k=(int)a; }
    else if (n > 1 && !quiet_depth) k = rbelow(srng, n);
    if (k) rec(DK_PICKW,k);
    Thr* t = &T[arr[k]]; t->signaled = 1; t->status = T_RUN; t->wake_at = 0; t->spur_at = 0;
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!simming()) return 0;
    sp(); ev(9);
    for (int i=0;i<NT;i++) if (T[i].status==T_COND && T[i].wobj==(U)c) { T[i].signaled = 1; T[i].status = T_RUN; T[i].wake_at = 0; T[i].spur_at = 0; }
    return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c,0,sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
    if (simming()) { for (int i=0;i<NT;i++) if (T[i].status==T_COND && T[i].wobj==(U)c && g_cfg.heapcheck) rt_violation("destroy-waited", "a condition variable was destroyed while a thread was waiting on it"); }
    return 0;
}
// --- threads
static void thread_end(Thr* t) {
    // release HB to joiners through vc kept in the slot
    step(t);
    t->status = T_DONE; ev(0x20 + t->tid);
    wake_on(T_JOIN, (U)t);
    t->dying = 1; exiting = t;
    // choose the next thread and hand over the token
    resched(true);
}
static void* tramp(void* p) {
    Thr* t = (Thr*)p; self = t; park(t);
    void* r = t->fn(t->arg); t->ret = r;
    thread_end(t);
    return r;
}
static int spawn(Thr* t) {
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)t->stk_lo, STK_SZ);
    int rc = r_create(&t->real, &at, tramp, t); pthread_attr_destroy(&at);
    return rc;
}
static Thr* new_slot(void) {
    int i; for (i=0;i<NT;i++) if (T[i].status==T_DONE && (T[i].joined || T[i].detached) && exiting != &T[i]) break;
    if (i==NT) { if (NT==MAXT) internal_error("too many threads"); NT++; memset(&T[i],0,sizeof(Thr)); T[i].vc.c[i]=1; T[i].tid=i; T[i].stk_lo = STKS + (U)i*STK_SZ*2; }
    Thr* t=&T[i]; VC keep = t->vc; uint64_t ls=t->lstep; const Decision *rd=t->rd,*re=t->rd_end;
    bool fresh = ls==0;
    memset(t,0,sizeof *t); t->tid=i; t->stk_lo=STKS+(U)i*STK_SZ*2; t->vc=keep; t->vc.c[i]++; t->lstep=ls; t->rd=rd; t->rd_end=re; t->last_sw=ls;
    if (fresh && g_cfg.replay) { // locate this thread's decisions (sorted by tid, lstep)
        uint64_t lo=0, hi=g_cfg.nrdec; while (lo<hi) { uint64_t m=(lo+hi)/2; if (g_cfg.rdec[m].tid < i) lo=m+1; else hi=m; }
        uint64_t b=lo; hi=g_cfg.nrdec; while (b<hi && g_cfg.rdec[b].tid==i) b++;
        t->rd=g_cfg.rdec+lo; t->rd_end=g_cfg.rdec+b;
    }
    draw_next_mem(t);
    t->prio = (int64_t)(rnext(srng)>>8);
    return t;
}
EXPORT int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!simming()) return r_create(th, attr, fn, arg);
    sp();
    int64_t a; bool fail=false;
    if (g_cfg.replay) { if (rd_get(DK_FAIL,&a) && a) fail=true; }
    else if (!quiet_depth && g_cfg.p_create_fail > 0 && runit(srng) < g_cfg.p_create_fail) fail=true;
    if (fail) { rec(DK_FAIL,1); g_res->faults[FK_CREATEFAIL]++; create_failures++; ev(0x10); return EAGAIN; }
    Thr* t = new_slot(); t->fn=fn; t->arg=arg; t->status=T_RUN;
    vc_join(t->vc, self->vc); self->vc.c[self->tid]++;
    if (attr) { int ds=0; pthread_attr_getdetachstate(attr,&ds); if (ds==PTHREAD_CREATE_DETACHED) t->detached=1; }
    thr_started++;
    if (spawn(t)) internal_error("real pthread_create failed");
    *th = t->real; ev(0x11);
    sp();
    return 0;
}
static Thr* by_real(pthread_t p) { for (int i=NT-1;i>=0;i--) if (T[i].status!=T_FREE && !T[i].joined && T[i].fn && T[i].real==p) return &T[i]; return nullptr; }
EXPORT int pthread_join(pthread_t p, void** ret) {
    if (!simming()) return r_join(p, ret);
    sp();
    Thr* t = by_real(p); if (!t) return ESRCH;
    if (t == self) return EDEADLK;
    while (t->status != T_DONE) { self->wobj=(U)t; self->status=T_JOIN; block(); }
    vc_join(self->vc, t->vc); t->joined=1; if (ret) *ret=t->ret; ev(0x12);
    return 0;
}
EXPORT int pthread_detach(pthread_t p) {
    if (!simming()) return r_detach(p);
    sp(); Thr* t=by_real(p); if (!t) return ESRCH; t->detached=1; return 0;
}
EXPORT int sched_yield(void) { if (!simming()) return 0; sp();
    // a yield gives others a chance: bounded by the fairness backstop
    self->last_sw = self->lstep > FAIR_MEM ? self->lstep - FAIR_MEM/50 : 0; return 0; }
static void sim_sleep_until(uint64_t d) { if (vtime >= d) return; self->wobj=0; self->timedout=0; self->wake_at=d; self->status=T_SLEEP; block(); self->wake_at=0; }
EXPORT int nanosleep(const struct timespec* r, struct timespec*) { if (!simming()) return 0; sp(); sim_sleep_until(vtime + (uint64_t)r->tv_sec*1000000000ull + r->tv_nsec); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec*) { if (!simming()) return 0; sp();
    if (fl & TIMER_ABSTIME) sim_sleep_until(to_mono(c,r)); else sim_sleep_until(vtime + (uint64_t)r->tv_sec*1000000000ull + r->tv_nsec); return 0; }
EXPORT int usleep(useconds_t u) { if (!simming()) return 0; sp(); sim_sleep_until(vtime + (uint64_t)u*1000); return 0; }
EXPORT unsigned sleep(unsigned s) { if (!simming()) return 0; sp(); sim_sleep_until(vtime + (uint64_t)s*1000000000ull); return 0; }
// --- rwlock
static int rw_lock(U a, bool wr, bool tr, uint64_t dl) { sp();
    for (;;) { Obj* o=obj(a,O_RW); if (wr ? (o->writer<0 && o->readers==0) : o->writer<0) { if (wr) o->writer=self->tid; else o->readers++; hb_acq(o); return 0; }
        if (tr) return EBUSY; if (dl && vtime>=dl) return ETIMEDOUT;
        self->wobj=a; self->timedout=0; self->wake_at=dl; self->status=T_RW; block(); self->wake_at=0; } }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return simming()? rw_lock((U)l,false,false,0):0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return simming()? rw_lock((U)l,true,false,0):0; }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return simming()? rw_lock((U)l,false,true,0):0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return simming()? rw_lock((U)l,true,true,0):0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!simming()) return 0; sp(); Obj* o=obj((U)l,O_RW);
    if (o->writer==self->tid) o->writer=-1; else if (o->readers>0) o->readers--; else if (g_cfg.heapcheck) rt_violation("bad-unlock","reader-writer lock released while not held");
    hb_rel(o); wake_on(T_RW,(U)l); return 0; }
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l,0,sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
// --- once / guards
EXPORT int pthread_once(pthread_once_t* k, void (*fn)(void)) {
    volatile int* st=(volatile int*)k;
    if (!simming()) { if (*st!=2) { *st=2; fn(); } return 0; }
    sp(); Obj* o=obj((U)k,O_ONCE);
    while (*st==1) { self->wobj=(U)k; self->status=T_GUARD; block(); }
    if (*st==2) { hb_acq(o); return 0; }
    *st=1; 
    struct R { volatile int* st; U k; bool ok; ~R(){ *st = ok?2:0; wake_on(T_GUARD,k); } } r{st,(U)k,false};
    fn(); r.ok=true; hb_rel(obj((U)k,O_ONCE)); return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t* g) {
    unsigned char* b=(unsigned char*)g;
    if (!simming()) { if (b[0]) return 0; return 1; }
    sp();
    while (!b[0] && b[1]) { self->wobj=(U)g; self->status=T_GUARD; block(); }
    if (b[0]) { hb_acq(obj((U)g,O_ATOM)); return 0; }
    b[1]=1; return 1;
}
EXPORT void __cxa_guard_release(uint64_t* g) { unsigned char* b=(unsigned char*)g; b[0]=1; b[1]=0; if (simming()) { hb_rel(obj((U)g,O_ATOM)); wake_on(T_GUARD,(U)g); } }
EXPORT void __cxa_guard_abort(uint64_t* g) { unsigned char* b=(unsigned char*)g; b[1]=0; if (simming()) wake_on(T_GUARD,(U)g); }
// --- semaphores
EXPORT int sem_init(sem_t* s, int, unsigned v) { *(int*)s=(int)v; return 0; }
EXPORT int sem_destroy(sem_t*) { return 0; }
EXPORT int sem_post(sem_t* s) { if (!simming()) { ++*(int*)s; return 0; } sp(); ++*(int*)s; hb_rel(obj((U)s,O_SEM)); wake_on(T_SEM,(U)s); return 0; }
EXPORT int sem_wait(sem_t* s) { if (!simming()) { --*(int*)s; return 0; } sp(); while (*(int*)s<=0) { self->wobj=(U)s; self->status=T_SEM; block();} --*(int*)s; hb_acq(obj((U)s,O_SEM)); return 0; }
EXPORT int sem_trywait(sem_t* s) { if (simming()) sp(); if (*(int*)s<=0) { errno=EAGAIN; return -1; } --*(int*)s; if (simming()) hb_acq(obj((U)s,O_SEM)); return 0; }
static int sem_tw(sem_t* s, uint64_t dl) { sp(); while (*(int*)s<=0) { if (vtime>=dl) { errno=ETIMEDOUT; return -1; } self->wobj=(U)s; self->wake_at=dl; self->status=T_SEM; block(); self->wake_at=0; } --*(int*)s; hb_acq(obj((U)s,O_SEM)); return 0; }
EXPORT int sem_timedwait(sem_t* s, const struct timespec* ts) { return sem_tw(s,to_mono(CLOCK_REALTIME,ts)); }
EXPORT int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { return sem_tw(s,to_mono(c,ts)); }
// --- raw futex (std::atomic wait/notify, libstdc++ futures)
EXPORT long syscall(long n, ...) {
    va_list ap; va_start(ap,n); long a[6]; for (int i=0;i<6;i++) a[i]=va_arg(ap,long); va_end(ap);
    if (simming() && n==SYS_futex) {
        int op = (int)a[1] & 127; U ad=(U)a[0];
        op &= ~(FUTEX_CLOCK_REALTIME);
        if (op==FUTEX_WAIT || op==FUTEX_WAIT_BITSET) {
            sp();
            if (*(volatile uint32_t*)ad != (uint32_t)a[2]) { errno=EAGAIN; return -1; }
            uint64_t dl=0; const struct timespec* ts=(const struct timespec*)a[3];
            if (ts) { if (op==FUTEX_WAIT) dl = vtime + (uint64_t)ts->tv_sec*1000000000ull+ts->tv_nsec; else dl = to_mono((a[1]&FUTEX_CLOCK_REALTIME)?CLOCK_REALTIME:CLOCK_MONOTONIC, ts); if (!dl) dl=1; }
            self->timedout=0; self->signaled=0; self->wobj=ad; self->wake_at=dl; self->status=T_FUTEX; block(); self->wake_at=0;
            if (self->timedout && !self->signaled) { errno=ETIMEDOUT; return -1; }
            return 0;
        }
        if (op==FUTEX_WAKE || op==FUTEX_WAKE_BITSET) {
            sp(); long k=0, mx=(int)a[2];
            for (int i=0;i<NT && k<mx;i++) if (T[i].status==T_FUTEX && T[i].wobj==ad) { T[i].signaled=1; T[i].status=T_RUN; T[i].wake_at=0; k++; }
            return k;
        }
    }
    return r_syscall ? r_syscall(n,a[0],a[1],a[2],a[3],a[4],a[5]) : -1;
}
// --- clocks
static uint64_t read_clock(clockid_t c) {
    sp();
    vtime += g_cfg.read_tick_ns;
    int64_t a;
    if (g_cfg.replay) { if (rd_get(DK_CLK,&a)) { rec(DK_CLK,a); if (a>0) { vtime += a; g_res->faults[FK_CLKFWD]++; } else { rt_off += a; g_res->faults[FK_CLKBACK]++; } } }
    else if (!g_calm && !quiet_depth) {
        if (g_cfg.p_jump_fwd>0 && runit(srng)<g_cfg.p_jump_fwd) { a = 1+rbelow(srng,g_cfg.jump_max_ns); vtime += a; rec(DK_CLK,a); g_res->faults[FK_CLKFWD]++; }
        else if (g_cfg.p_jump_back>0 && runit(srng)<g_cfg.p_jump_back) { a = -(int64_t)(1+rbelow(srng,g_cfg.jump_max_ns)); rt_off += a; rec(DK_CLK,a); g_res->faults[FK_CLKBACK]++; }
    }
    bool rt = c==CLOCK_REALTIME || c==CLOCK_REALTIME_COARSE || c==CLOCK_TAI;
    uint64_t v = rt ? RT_BASE + (uint64_t)((int64_t)vtime + rt_off) : vtime + 1000000000ull;
    ev(0x30); return v;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!simming()) { if (r_cgt) return r_cgt(c,ts); ts->tv_sec=0; ts->tv_nsec=0; return 0; }
    uint64_t v=read_clock(c); ts->tv_sec=v/1000000000ull; ts->tv_nsec=v%1000000000ull; return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) __THROW { if (!simming()) { struct timespec ts; r_cgt(CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; } uint64_t v=read_clock(CLOCK_REALTIME); tv->tv_sec=v/1000000000ull; tv->tv_usec=(v/1000)%1000000; return 0; }
EXPORT time_t time(time_t* t) __THROW { uint64_t s; if (!simming()) { struct timespec ts; r_cgt(CLOCK_REALTIME,&ts); s=ts.tv_sec; } else s=read_clock(CLOCK_REALTIME)/1000000000ull; if (t) *t=s; return s; }
EXPORT clock_t clock(void) __THROW { if (!simming()) return 0; return (clock_t)(read_clock(CLOCK_MONOTONIC)/1000); }
// --- randomness
EXPORT void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
EXPORT void _ZNSt13random_device16_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
EXPORT void _ZNSt13random_device7_M_finiEv(void*) {}
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void*) { g_res->faults[FK_RANDDEV]++; return (unsigned)rnext(rdrng); }
EXPORT unsigned _ZNSt13random_device16_M_getval_pretr1Ev(void*) { g_res->faults[FK_RANDDEV]++; return (unsigned)rnext(rdrng); }
EXPORT int rand(void) __THROW { return (int)(rnext(rdrng) & 0x7fffffff); }
EXPORT void srand(unsigned) __THROW {}
EXPORT long random(void) __THROW { return (long)(rnext(rdrng) & 0x7fffffff); }
EXPORT ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i=0;i<n;i++) ((char*)b)[i]=(char)rnext(rdrng); return n; }

// ------------------------------------------------------------------------------------------------ race detection + heap checks
struct Slot { uint32_t clk; uint8_t tid, mask, wr, at; uint32_t pc; uint32_t pad; };
static void sym(char* b, size_t n, U pc) { snprintf(b, n, "0x%llx", (unsigned long long)pc); }
static void __attribute__((noinline)) race_report(Slot* s, U a, int sz, bool wr, U pc) {
    char p1[32], p2[32]; sym(p1,32,s->pc); sym(p2,32,pc);
    rt_violation("data-race", "conflicting unsynchronised accesses: thread %d %s at pc=%s, thread %d %s at pc=%s (%d bytes)", s->tid, s->wr?"write":"read", p1, self->tid, wr?"write":"read", p2, sz);
}
static inline void race_cell(Slot* c, uint8_t mask, U a, int sz, bool wr, bool at, U pc) {
    Thr* t = self; Slot* victim=nullptr; Slot* empty=nullptr;
    for (int i=0;i<4;i++) { Slot* s=&c[i];
        if (!s->clk) { if (!empty) empty=s; continue; }
        if (s->tid==t->tid) { if ((s->mask & ~mask)==0 && (wr || !s->wr) && (s->at || !at || wr)) { if (!victim) victim=s; else s->clk=0; } continue; }
        bool hb = t->vc.c[s->tid] >= s->clk;
        if (!hb && (s->mask & mask) && (s->wr || wr) && !(s->at && at)) race_report(s,a,sz,wr,pc);
        if (hb && wr && (s->mask & ~mask)==0) { s->clk=0; if (!empty) empty=s; }
    }
    if (!victim) victim = empty;
    if (!victim) { // prefer evicting an ordered-before slot
        for (int i=0;i<4 && !victim;i++) if (t->vc.c[c[i].tid] >= c[i].clk) victim=&c[i];
        if (!victim) victim=&c[(memsteps)&3];
    }
    victim->clk=t->vc.c[t->tid]; victim->tid=t->tid; victim->mask=mask; victim->wr=wr; victim->at=at; victim->pc=(uint32_t)pc;
}
static inline Slot* cell_of(U a) {
    if (a - ARENA < ARENA_SZ) return (Slot*)(RSH + ((a-ARENA)>>3)*64);
    if (a >= G_LO && a < G_HI) return (Slot*)(GSH + ((a-G_LO)>>3)*64);
    return nullptr;
}
static void race_access(U a, size_t sz, bool wr, bool at, U pc) {
    U e=a+sz;
    while (a<e) { U c=a&~7ull; U hi = c+8<e?c+8:e; uint8_t m=0; for (U x=a;x<hi;x++) m|=1u<<(x-c);
        Slot* s=cell_of(c); if (s) race_cell(s,m,a,(int)sz,wr,at,pc); a=hi; }
}
static void __attribute__((noinline)) heap_bad(U a, size_t sz, bool wr, U pc) {
    unsigned char v=*(unsigned char*)(ASH+((a-ARENA)>>3));
    rt_violation("bad-memory-access", "%s of %zu bytes at pc=0x%llx touches %s memory", wr?"write":"read", sz, (unsigned long long)pc, v==0xfd?"freed":"unallocated or out-of-bounds");
}
static inline void heap_access(U a, size_t sz, bool wr, U pc) {
    U e=a+sz-1;
    for (U g=a>>3; g<=(e>>3); g++) { unsigned char v=*(unsigned char*)(ASH+(g-(ARENA>>3)));
        if (likely(v==8)) continue;
        U last = (g==(e>>3)) ? (e&7) : 7;
        if (v==0 || v>=0xf0 || last >= v) heap_bad(g==(a>>3)?a:(g<<3),sz,wr,pc); }
}
static inline void acc(U a, size_t sz, bool wr, U pc) {
    Thr* t=self; if (!t) return;
    if (a - t->stk_lo < STK_SZ) { if (unlikely(++t->idle > 400000000ull)) rt_violation("no-progress","thread %d spins in private memory", t->tid); return; }
    bool ar = a-ARENA < ARENA_SZ;
    if (!ar && !(a>=G_LO && a<G_HI) && !(a-STKS < STK_SZ*2*MAXT)) { if (unlikely(a < 4096)) rt_violation("bad-memory-access","%s through a null pointer at pc=0x%llx", wr?"write":"read",(unsigned long long)pc); return; }
    if (!t->dying) {
        step(t);
        if (unlikely(t->lstep == t->next_pt || t->lstep - t->last_sw > FAIR_MEM)) slow_mem(t);
    }
    if (ar && g_cfg.heapcheck) heap_access(a,sz,wr,pc);
    if (g_cfg.race && !t->dying) race_access(a,sz,wr,false,pc);
}
#define PC ((U)__builtin_return_address(0))
#define RW(N) EXPORT void __tsan_read##N(void* a){acc((U)a,N,false,PC);} EXPORT void __tsan_write##N(void* a){acc((U)a,N,true,PC);} \
  EXPORT void __tsan_unaligned_read##N(void* a){acc((U)a,N,false,PC);} EXPORT void __tsan_unaligned_write##N(void* a){acc((U)a,N,true,PC);} \
  EXPORT void __tsan_volatile_read##N(void* a){acc((U)a,N,false,PC);} EXPORT void __tsan_volatile_write##N(void* a){acc((U)a,N,true,PC);} \
  EXPORT void __tsan_unaligned_volatile_read##N(void* a){acc((U)a,N,false,PC);} EXPORT void __tsan_unaligned_volatile_write##N(void* a){acc((U)a,N,true,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* a, size_t n){ if(n) acc((U)a,n,false,PC);}
EXPORT void __tsan_write_range(void* a, size_t n){ if(n) acc((U)a,n,true,PC);}
EXPORT void __tsan_vptr_update(void** a, void* nv){ if (*a!=nv) acc((U)a,8,true,PC); else acc((U)a,8,false,PC);}
EXPORT void __tsan_vptr_read(void** a){acc((U)a,8,false,PC);}
EXPORT void __tsan_func_entry(void*){} EXPORT void __tsan_func_exit(void){}
EXPORT void __tsan_init(void){}
EXPORT void __tsan_ignore_thread_begin(void){} EXPORT void __tsan_ignore_thread_end(void){}
// atomics
EXPORT void* __sim_memcpy(void* d, const void* s, size_t n) { if (n) { acc((U)s,n,false,PC); acc((U)d,n,true,PC); } return memcpy(d,s,n); }
EXPORT void* __sim_memmove(void* d, const void* s, size_t n) { if (n) { acc((U)s,n,false,PC); acc((U)d,n,true,PC); } return memmove(d,s,n); }
EXPORT void* __sim_memset(void* d, int c, size_t n) { if (n) acc((U)d,n,true,PC); return memset(d,c,n); }
EXPORT int __sim_memcmp(const void* a, const void* b, size_t n) { if (n) { acc((U)a,n,false,PC); acc((U)b,n,false,PC); } return memcmp(a,b,n); }
static inline void atom_hb(U a, int op, int mo) {   // op: 0 load, 1 store, 2 read-modify-write; mo: __ATOMIC_*
    Thr* t=self; Obj* o=obj(a>>3<<3,O_ATOM);
    bool acq = op!=1 && mo!=__ATOMIC_RELAXED && mo!=__ATOMIC_RELEASE, rel = op!=0 && (mo==__ATOMIC_RELEASE || mo==__ATOMIC_ACQ_REL || mo==__ATOMIC_SEQ_CST);
    if (op!=1) { if (acq) hb_acq(o); else vc_join(t->acqp,o->vc); }
    if (op!=0) { if (rel) hb_rel(o); else vc_join(o->vc,t->relf); }
}
static inline bool atom(U a, int sz, bool wr, U pc) {
    Thr* t=self; if (!t) return false;
    if (a - ARENA < ARENA_SZ && g_cfg.heapcheck) heap_access(a,sz,wr,pc);
    if (t->dying) return false;
    step(t);
    // atomics are visible operations: scheduling point, but only a fraction of them is offered to the sync strategy
    if (a - t->stk_lo < STK_SZ) return false;
    if (g_cfg.replay) { if (t->lstep==t->next_pt || t->lstep - t->last_sw > FAIR_MEM) slow_mem(t); }
    else if (t->lstep==t->next_pt || t->lstep - t->last_sw > FAIR_MEM) slow_mem(t);
    else if (!g_calm && g_cfg.strategy!=ST_PCT && g_cfg.p_switch>0 && !quiet_depth && runit(srng) < g_cfg.p_switch*0.1) { resched(false); }
    if (g_cfg.race) { race_access(a,sz,wr,true,pc); }
    g_res->hash = mixh(g_res->hash, 0x40+sz);
    return true;
}
}
#define ATOM(N,TY) extern "C" { \
EXPORT TY __tsan_atomic##N##_load(const volatile TY* a,int mo){if (atom((U)a,N/8,false,PC)) atom_hb((U)a,0,mo&0xff);return __atomic_load_n(a,__ATOMIC_SEQ_CST);} \
EXPORT void __tsan_atomic##N##_store(volatile TY* a,TY v,int mo){if (atom((U)a,N/8,true,PC)) atom_hb((U)a,1,mo&0xff);__atomic_store_n(a,v,__ATOMIC_SEQ_CST);} \
EXPORT TY __tsan_atomic##N##_exchange(volatile TY* a,TY v,int mo){if (atom((U)a,N/8,true,PC)) atom_hb((U)a,2,mo&0xff);return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST);} \
EXPORT TY __tsan_atomic##N##_fetch_add(volatile TY* a,TY v,int mo){if (atom((U)a,N/8,true,PC)) atom_hb((U)a,2,mo&0xff);return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST);} \
EXPORT TY __tsan_atomic##N##_fetch_sub(volatile TY* a,TY v,int mo){if (atom((U)a,N/8,true,PC)) atom_hb((U)a,2,mo&0xff);return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST);} \
EXPORT TY __tsan_atomic##N##_fetch_and(volatile TY* a,TY v,int mo){if (atom((U)a,N/8,true,PC)) atom_hb((U)a,2,mo&0xff);return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST);} \
EXPORT TY __tsan_atomic##N##_fetch_or(volatile TY* a,TY v,int mo){if (atom((U)a,N/8,true,PC)) atom_hb((U)a,2,mo&0xff);return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST);} \
EXPORT TY __tsan_atomic##N##_fetch_xor(volatile TY* a,TY v,int mo){if (atom((U)a,N/8,true,PC)) atom_hb((U)a,2,mo&0xff);return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST);} \
EXPORT TY __tsan_atomic##N##_fetch_nand(volatile TY* a,TY v,int mo){if (atom((U)a,N/8,true,PC)) atom_hb((U)a,2,mo&0xff);return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST);} \
EXPORT bool __tsan_atomic##N##_compare_exchange_strong(volatile TY* a,TY* e,TY v,int mo,int fmo){if (atom((U)a,N/8,true,PC)) { bool eq=*a==*e; atom_hb((U)a,eq?2:0,(eq?mo:fmo)&0xff); } return __atomic_compare_exchange_n(a,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
EXPORT bool __tsan_atomic##N##_compare_exchange_weak(volatile TY* a,TY* e,TY v,int mo,int fmo){if (atom((U)a,N/8,true,PC)) { bool eq=*a==*e; atom_hb((U)a,eq?2:0,(eq?mo:fmo)&0xff); } return __atomic_compare_exchange_n(a,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
EXPORT TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a,TY e,TY v,int mo,int fmo){if (atom((U)a,N/8,true,PC)) { bool eq=*a==e; atom_hb((U)a,eq?2:0,(eq?mo:fmo)&0xff); } __atomic_compare_exchange_n(a,&e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);return e;} }
ATOM(8,uint8_t) ATOM(16,uint16_t) ATOM(32,uint32_t) ATOM(64,uint64_t)
extern "C" {
EXPORT void __tsan_atomic_thread_fence(int mo){ Thr* t=self; if (!t || t->dying) return; mo&=0xff; if (mo!=__ATOMIC_RELAXED && mo!=__ATOMIC_RELEASE) vc_join(t->vc,t->acqp); if (mo==__ATOMIC_RELEASE || mo==__ATOMIC_ACQ_REL || mo==__ATOMIC_SEQ_CST) { t->relf=t->vc; t->vc.c[t->tid]++; } } EXPORT void __tsan_atomic_signal_fence(int){}

// ------------------------------------------------------------------------------------------------ allocator
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };
static U bump = ARENA + 64; static uint64_t live_blocks;
static const int NCLS=65; static U freelist[NCLS];
static inline int cls_of(size_t n) { return n<=1024 ? (int)((n+15)/16) : 0; }
static void remove_objs(U a, size_t n) {
    // locks living in freed memory: forget them (and complain when held or waited on).  Only blocks large enough.
    if (n < sizeof(pthread_mutex_t) && n < 4) return;
    for (U x=(a+3)&~3ull; x+4<=a+n; x+=4) {
        if (!(x&7)) { Obj* o=obj_find(x,O_MUTEX);
            if (o) { if (o->owner>=0 && g_cfg.heapcheck && self && !self->dying) rt_violation("free-locked","memory of a held lock was freed"); 
                     for (int i=0;i<NT;i++) if (T[i].status==T_MUTEX && T[i].wobj==x && g_cfg.heapcheck) rt_violation("free-locked","memory of a lock with waiting threads was freed");
                     o->owner=-1; o->count=0; memset(&o->vc,0,sizeof(VC)); }
            o=obj_find(x,O_ATOM); if (o) memset(&o->vc,0,sizeof(VC)); }
    }
}
static void* sim_alloc(size_t n, size_t align) {
    if (unlikely(!r_create)) early();
    if (n==0) n=1;
    Thr* t=self;
    size_t tot=(n+15)&~15ull; U p=0; int c=cls_of(tot);
    if (g_cfg.reuse && align<=16 && c && freelist[c]) { p=freelist[c]; freelist[c]=*(U*)p; }
    if (!p) {
        if (g_cfg.layout_seed) { uint64_t r=rnext(lrng); if ((r&7)==0) { bump += 16*((r>>8)%64); g_res->faults[FK_LAYOUT]++; } }
        U b=bump+sizeof(Hdr); if (align>16) b=(b+align-1)&~(align-1); else b=(b+15)&~15ull;
        p=b; bump=b+tot+16; // 16 byte redzone
        if (bump > ARENA+(g_cfg.race ? ARENA_SZ/4 : ARENA_SZ/2)-4096) rt_violation("memory-exhausted","simulated heap of %llu MB exhausted",(unsigned long long)((g_cfg.race ? ARENA_SZ/4 : ARENA_SZ/2)>>20));
    }
    Hdr* h=(Hdr*)(p-sizeof(Hdr)); h->size=n; h->cls=c; h->magic=0xA110C;
    if (g_active) {
        if (g_cfg.fill>=0) memset((void*)p,g_cfg.fill,tot); else { for (size_t i=0;i<tot;i+=8) *(uint64_t*)(p+i)=rnext(lrng); }
        if (g_cfg.fill!=0) g_res->faults[FK_DIRTYMEM]++;
    }
    unsigned char* sh=(unsigned char*)(ASH+((p-ARENA)>>3)); size_t k=n>>3; memset(sh,8,k); if (n&7) sh[k]=n&7;
    if (g_cfg.race && g_cfg.reuse) memset((void*)(RSH+((p-ARENA)>>3)*64),0,(tot>>3)*64);
    live_blocks++; if (g_res) g_res->allocs++;
    (void)t;
    return (void*)p;
}
static void sim_free(void* v) {
    if (!v) return; U p=(U)v;
    if (p-ARENA >= ARENA_SZ) { rt_violation("bad-free","delete of a pointer that is not from new"); }
    Hdr* h=(Hdr*)(p-sizeof(Hdr));
    if (h->magic!=0xA110C) { if (h->magic==0xDEAD) rt_violation("double-free","block of %llu bytes freed twice",(unsigned long long)h->size); rt_violation("bad-free","delete of an invalid pointer"); }
    if (g_active && self) {
        if (g_cfg.race && !self->dying) race_access(p,h->size,true,false,PC);
        remove_objs(p,h->size);
    }
    h->magic=0xDEAD; live_blocks--;
    size_t tot=(h->size+15)&~15ull;
    memset((void*)(ASH+((p-ARENA)>>3)),0xfd,tot>>3);
    if (g_active && h->size) memset(v,0xDD,h->size);
    if (g_cfg.reuse && h->cls) { *(U*)p=freelist[h->cls]; freelist[h->cls]=p; }
}
}
static int af_left, af_tid=-1, af_count;
static inline void may_fail() { if (unlikely(af_left>0) && g_active && self && self->tid==af_tid && --af_left==0) { g_res->faults[FK_ALLOCFAIL]++; af_count++; throw std::bad_alloc(); } }
extern "C" void rt_alloc_fail(int k) { af_left=k; af_tid=self?self->tid:-1; }
extern "C" int rt_alloc_failures(void) { return af_count; }
void* operator new(size_t n) { may_fail(); return sim_alloc(n,16); }
void* operator new[](size_t n) { may_fail(); return sim_alloc(n,16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n,16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n,16); }
void* operator new(size_t n, std::align_val_t a) { return sim_alloc(n,(size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return sim_alloc(n,(size_t)a); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }

// ------------------------------------------------------------------------------------------------ lifecycle
static void on_terminate(void) {
    const char* what="(no exception)"; char buf[1024]; buf[0]=0;
    std::type_info* ti = abi::__cxa_current_exception_type();
    if (ti) { what = ti->name();
        try { throw; } catch (std::exception& e) { snprintf(buf,sizeof buf,"%s: %.600s",what,e.what()); what=buf; } catch (...) {} }
    rt_violation("terminate","process terminated by an uncaught exception: %s",what);
}
static void on_signal(int sig, siginfo_t* si, void*) {
    if (sig==SIGXCPU || sig==SIGALRM) rt_violation("no-progress","run exceeded its processor time limit");
    rt_violation("crash","process killed by signal %d (%s)",sig,strsignal(sig));
}
static void* mapfix(U a, size_t n) { void* p=mmap((void*)a,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE,-1,0); if (p!=(void*)a) { fprintf(stderr,"mmap at %lx failed\n",(unsigned long)a); _exit(3); } return p; }
__attribute__((constructor(101))) static void early_ctor(void) { early(); }
static void early(void) {
    if (r_create) return;
    mapfix(ARENA,ARENA_SZ); mapfix(ASH,ARENA_SZ>>3);
    r_create=(decltype(r_create))dlsym(RTLD_NEXT,"pthread_create"); r_join=(decltype(r_join))dlsym(RTLD_NEXT,"pthread_join"); r_detach=(decltype(r_detach))dlsym(RTLD_NEXT,"pthread_detach");
    r_mlock=(decltype(r_mlock))dlsym(RTLD_NEXT,"pthread_mutex_lock"); r_munlock=(decltype(r_munlock))dlsym(RTLD_NEXT,"pthread_mutex_unlock"); r_mtry=(decltype(r_mtry))dlsym(RTLD_NEXT,"pthread_mutex_trylock");
    r_cgt=(decltype(r_cgt))dlsym(RTLD_NEXT,"clock_gettime"); r_syscall=(decltype(r_syscall))dlsym(RTLD_NEXT,"syscall");
}
extern "C" void rt_zygote_init(void) {
    early();
    mapfix(STKS,STK_SZ*2*MAXT); mapfix(RSH,(ARENA_SZ>>3)*64);
    G_LO=((U)&__data_start)&~7ull; G_HI=((U)&_end+7)&~7ull;
    mapfix(GSH,((G_HI-G_LO)>>3)*64+64);
    objs=(Obj*)mmap(nullptr,sizeof(Obj)*OBJN,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    oidx=(uint32_t*)mmap(nullptr,sizeof(uint32_t)*IDXN,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    g_res=(Result*)mmap(nullptr,sizeof(Result),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if (objs==MAP_FAILED||oidx==MAP_FAILED||g_res==MAP_FAILED) _exit(3);
}
static void (*main_fn)(void*); static uint32_t main_done;
static void* main_tramp(void* a) { main_fn(a);
    int left=rt_live_threads();
    if (left) { char b[512]; describe_threads(b,sizeof b); rt_violation("threads-left","%d simulated threads are still alive at the end of the run (%s)",left,b); }
    finish_child(); __atomic_store_n(&main_done,1u,__ATOMIC_RELEASE); _exit(0); return nullptr; }
extern "C" void rt_run(void (*fn)(void*), void* arg) {
    srng.s=g_cfg.sched_seed*2654435761ull+12345; rnext(srng); lrng.s=g_cfg.layout_seed^0x5555; rdrng.s=g_cfg.rd_seed;
    if (g_cfg.strategy==ST_PCT) { npct=g_cfg.pct_depth; if (npct>64) npct=64; uint64_t span = 200 + rbelow(srng,6000); for (int i=0;i<npct;i++) pct_pts[i]=1+rbelow(srng,span); for (int i=0;i<npct;i++) for (int j=i+1;j<npct;j++) if (pct_pts[j]<pct_pts[i]) { uint64_t x=pct_pts[i]; pct_pts[i]=pct_pts[j]; pct_pts[j]=x; } }
    starve_victim=-1;
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_signal; sa.sa_flags=SA_SIGINFO|SA_ONSTACK;
    static char alt[65536]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr);
    int sigs[]={SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGXCPU,SIGALRM}; for (int s:sigs) sigaction(s,&sa,nullptr);
    struct rlimit rl; rl.rlim_cur=240; rl.rlim_max=250; setrlimit(RLIMIT_CPU,&rl);
    std::set_terminate(on_terminate);
    main_fn=fn; 
    NT=0; Thr* t=new_slot(); t->fn=main_tramp; t->arg=arg; t->status=T_RUN; 
    g_active=1;
    if (spawn(t)) internal_error("cannot start main");
    __atomic_store_n(&t->fx,1u,__ATOMIC_RELEASE); fut(&t->fx,FUTEX_WAKE,1);
    for (;;) pause();
}
extern "C" {
void rt_note(uint64_t x) { ev(x); }
uint64_t rt_gstep(void) { return gstep; }
void rt_set_back(uint64_t ns) { rt_off -= (int64_t)ns; g_res->faults[FK_CLKBACK]++; }
uint64_t rt_now_rt(void) { return RT_BASE + (uint64_t)((int64_t)vtime + rt_off); }
uint64_t rt_vtime(void) { return vtime; }
int rt_tid(void) { return self ? self->tid : -1; }
int rt_live_threads(void) { int n=0; for (int i=1;i<NT;i++) if (T[i].status!=T_FREE && T[i].status!=T_DONE) n++; return n; }
uint64_t rt_live_blocks(void) { return live_blocks; }
uint64_t rt_heap_top(void) { return bump; }
// sizes of the blocks allocated after the heap stood at `from` and still live (diagnosis of leaks)
int rt_live_sizes(uint64_t from, uint64_t* out, int max) { int n=0; for (U p=(from+15)&~15ull; p+sizeof(Hdr)<bump && n<max; p+=16) { Hdr* h=(Hdr*)(p); if (h->magic==0xA110C && h->cls<=64 && h->size<ARENA_SZ && *(unsigned char*)(ASH+((p+sizeof(Hdr)-ARENA)>>3))!=0xfd) out[n++]=h->size; } return n; }
void rt_point(void) { if (simming()) sp(); }
void rt_set_perturb(int fill, uint64_t ls, uint64_t rd, uint64_t tick, uint64_t rtick) { g_cfg.fill=fill; g_cfg.layout_seed=ls; lrng.s=ls^0x5555; rdrng.s=rd; g_cfg.tick_ns=tick; g_cfg.read_tick_ns=rtick; }
void rt_advance(int64_t ns) { vtime += ns; }
void rt_quiet(int on) { if (on) quiet_depth++; else quiet_depth--; }
void rt_fault(int k) { g_res->faults[k]++; }
uint64_t rt_threads_started(void) { return thr_started; }
int rt_create_failures(void) { return create_failures; }
void rt_sleep(uint64_t ns) { if (simming()) { sp(); sim_sleep_until(vtime+ns); } }
}
