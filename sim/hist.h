// History recorder (uninstrumented, allocates with malloc; one simulated thread runs at a time so no locking).
#pragma once
#include <stdint.h>
extern "C" {
struct HStep { int s, a, o; double r; };
struct HTrial {
    int tid, env, s0, ended, nsteps, cap, late_steps;
    uint64_t v_start, v_end;          // simulated monotonic time
    uint64_t w_start, w_end;          // simulated wall clock
    uint64_t q_start, q_end;          // global event sequence numbers
    struct HStep* steps;
};
void h_reset(void);
int h_begin(int env, int s0);
void h_step(int env, int s, int a, int o, double r);
void h_end(int id);
int h_n(void);
struct HTrial* h_get(int i);
int h_active(void);
uint64_t h_seq(void);
int h_env_mismatch(void);
// generic event list for probes
struct HEv { int kind, trial, node, x; uint64_t seq; int na, nb; double* va; double* vb; double f1, f2; };
void h_ev(int kind, int trial, int node, int x, int nb, const double* vb, int na, const double* va, double f1, double f2);
int h_nev(void);
struct HEv* h_getev(int i);
int h_cur_trial(void);
// probe nodes
struct HNode { int key, parent, depth, st; };   // st: the state it holds, where that differs from the key under which its parent finds it
int h_node(int key, int parent, int depth);
void h_node_st(int i, int st);
struct HNode* h_getnode(int i);
}
