// Deterministic simulation runtime: public interface used by the harness.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {

enum { DK_SWITCH=1, DK_CLK=2, DK_SPUR=3, DK_PICKW=4, DK_FAIL=5 };
enum { FK_PREEMPT=0, FK_SPURIOUS, FK_CLKFWD, FK_CLKBACK, FK_STALL, FK_CREATEFAIL, FK_RNGEXTREME, FK_DIRTYMEM, FK_RANDDEV, FK_LAYOUT, FK_DELAYTRIAL, FK_ALLOCFAIL, FK_N };
enum { ST_SYNC=0, ST_MEM, ST_PCT, ST_STARVE, ST_RR, ST_BURST, ST_N };

struct Decision { uint64_t lstep; int64_t arg; uint16_t tid; uint16_t kind; uint32_t pad; };

#define MAXDEC 400000
#define MSGSZ 4096
struct Result {
    int done;              // child finished normally (verdict valid)
    int verdict;           // 0 ok, 1 violation
    char cls[64];          // violation class
    char msg[MSGSZ];
    uint64_t hash;         // event hash
    uint64_t sched_hash;   // hash of the interleaving
    uint64_t gsteps, memsteps, switches, vtime_ns, events, allocs, maxthreads;
    uint64_t faults[FK_N];
    uint64_t aux[16];      // scenario counters
    char desc[1024];       // scenario description
    uint64_t ndec;
    int dec_overflow;
    struct Decision dec[MAXDEC];
};

struct SimCfg {
    uint64_t sched_seed;
    int strategy;
    double p_switch;        // at sync points
    double p_mem;           // at memory points
    int pct_depth;
    double p_spur;          // spurious wakeup per cond wait
    double p_jump_fwd, p_jump_back;
    int64_t jump_max_ns;
    double p_stall; uint64_t stall_len;
    double p_create_fail;   // per pthread_create
    uint64_t tick_ns, read_tick_ns;
    uint64_t calm_after;    // gstep after which no faults are injected and the schedule is fair
    uint64_t gstep_cap, mem_cap;
    int race;               // race detector on
    int heapcheck;          // report UAF/overflow
    int reuse;              // allocator reuses freed blocks (LIFO)
    int fill;               // fill byte for fresh memory, -1 = pseudo random
    uint64_t layout_seed;   // random gaps between blocks (0: none)
    uint64_t rd_seed;       // random_device stream
    // replay
    int replay;
    const struct Decision* rdec; uint64_t nrdec;
};

extern struct SimCfg g_cfg;
extern struct Result* g_res;

void rt_zygote_init(void);                       // once, in the zygote
void rt_run(void (*fn)(void*), void* arg);       // in the forked child: run fn as simulated main thread, then return
void rt_violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf,2,3)));
void rt_end_run(void) __attribute__((noreturn));   // ends the run early without a violation
void rt_note(uint64_t x);                        // add to event hash
uint64_t rt_gstep(void);
void rt_set_back(uint64_t ns);                    // fault: the wall clock is set back now
uint64_t rt_now_rt(void);                        // simulated wall clock (no tick)
uint64_t rt_vtime(void);
int rt_tid(void);
int rt_live_threads(void);                       // simulated threads not finished, excluding main
uint64_t rt_live_blocks(void);
uint64_t rt_heap_top(void);
int rt_live_sizes(uint64_t from, uint64_t* out, int max);
void rt_point(void);                             // explicit scheduling point
void rt_set_perturb(int fill, uint64_t layout_seed, uint64_t rd_seed, uint64_t tick, uint64_t rtick);
void rt_advance(int64_t ns);                     // advance simulated time
void rt_quiet(int on);                           // switch fault injection off / on (liveness part, setup)
void rt_fault(int kind);                         // count a harness-level fault
uint64_t rt_threads_started(void);
int rt_create_failures(void);
void rt_alloc_fail(int k);                       // the k-th next allocation of the calling thread fails (0: disarm)
int rt_alloc_failures(void);
void rt_sleep(uint64_t ns);
}
