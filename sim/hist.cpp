#include "hist.h"
#include "rt.h"
#include <stdlib.h>
#include <string.h>
static HTrial* tr; static int n, cap; static int active; static uint64_t seq; static int cur[64]; static int mism;
static HNode* nodes; static int nnode, nodecap;
static HEv* evs; static int nev, evcap;
extern "C" {
void h_reset(void) { n = 0; active = 0; seq = 0; mism = 0; nev = 0; nnode = 0; memset(cur, -1, sizeof cur); }
int h_begin(int env, int s0) {
    if (n == cap) { cap = cap ? cap*2 : 64; tr = (HTrial*)realloc(tr, cap*sizeof(HTrial)); }
    HTrial* t = &tr[n]; memset(t, 0, sizeof *t);
    t->tid = rt_tid(); t->env = env; t->s0 = s0; t->v_start = rt_vtime(); t->w_start = rt_now_rt(); t->q_start = ++seq;
    cur[t->tid & 63] = n; active++; rt_note(0x900 ^ (uint64_t)env << 16 ^ (uint64_t)s0 << 24 ^ (uint64_t)t->tid << 40);
    return n++;
}
void h_step(int env, int s, int a, int o, double r) {
    int c = cur[rt_tid() & 63]; seq++; if (c < 0) return;
    HTrial* t = &tr[c]; if (t->env != env) mism++;
    if (t->ended) t->late_steps++;
    if (t->nsteps == t->cap) { t->cap = t->cap ? t->cap*2 : 8; t->steps = (HStep*)realloc(t->steps, t->cap*sizeof(HStep)); }
    HStep* p = &t->steps[t->nsteps++]; p->s = s; p->a = a; p->o = o; p->r = r;
    rt_note(0xa00 ^ (uint64_t)s << 16 ^ (uint64_t)a << 32 ^ (uint64_t)o << 48);
}
void h_end(int id) { HTrial* t = &tr[id]; if (t->ended) return; t->ended = 1; t->v_end = rt_vtime(); t->w_end = rt_now_rt(); t->q_end = ++seq; active--; rt_note(0xb00); }
int h_n(void) { return n; }
HTrial* h_get(int i) { return &tr[i]; }
int h_active(void) { return active; }
uint64_t h_seq(void) { return ++seq; }
int h_env_mismatch(void) { return mism; }
int h_cur_trial(void) { return cur[rt_tid() & 63]; }
void h_ev(int kind, int trial, int node, int x, int nb, const double* vb, int na, const double* va, double f1, double f2) {
    if (nev == evcap) { evcap = evcap ? evcap*2 : 256; evs = (HEv*)realloc(evs, evcap*sizeof(HEv)); }
    HEv* e = &evs[nev++]; e->kind = kind; e->trial = trial; e->node = node; e->x = x; e->seq = ++seq; e->nb = nb; e->na = na; e->f1 = f1; e->f2 = f2;
    e->va = na ? (double*)malloc(na*sizeof(double)) : 0; e->vb = nb ? (double*)malloc(nb*sizeof(double)) : 0;
    if (na) memcpy(e->va, va, na*sizeof(double)); if (nb) memcpy(e->vb, vb, nb*sizeof(double));
    rt_note(0xc00 ^ (uint64_t)kind << 16 ^ (uint64_t)node << 24 ^ (uint64_t)(trial+1) << 44);
}
int h_node(int key, int parent, int depth) { if (nnode == nodecap) { nodecap = nodecap ? nodecap*2 : 256; nodes = (HNode*)realloc(nodes, nodecap*sizeof(HNode)); } nodes[nnode].key=key; nodes[nnode].parent=parent; nodes[nnode].depth=depth; nodes[nnode].st=key; return nnode++; }
HNode* h_getnode(int i) { return &nodes[i]; }
void h_node_st(int i, int st) { nodes[i].st=st; }
int h_nev(void) { return nev; }
HEv* h_getev(int i) { return &evs[i]; }
}
// adversarial random draws (legal extreme outputs of the random service)
static uint64_t advs;
static double advu(void) { uint64_t z = (advs += 0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; z ^= z>>31; return (z>>11)*(1.0/9007199254740992.0); }
extern "C" {
void h_adv_seed(uint64_t s) { advs = s; }
double h_adv_uniform(double base, double p) {
    if (p <= 0 || advu() >= p) return base;
    rt_fault(FK_RNGEXTREME);
    double k = advu();
    if (k < 0.35) return 0.0;
    if (k < 0.85) return 1.0 - 1.1102230246251565e-16;   // largest double below 1
    if (k < 0.95) return 1.0 - 1e-13;
    return 4.9e-324;
}
int h_adv_int(int base, int lo, int hi, double p) {
    if (p <= 0 || advu() >= p) return base;
    rt_fault(FK_RNGEXTREME);
    return advu() < 0.5 ? lo : hi-1;
}
}
