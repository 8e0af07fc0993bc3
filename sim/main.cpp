// Runner: forks one child per simulated run, collects results, replays and minimises.  Not instrumented.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include "h_scen.h"
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>

static double now_s(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec*1e-9; }
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static uint64_t run_seed(uint64_t base, int prop, uint64_t idx) { return mix(mix(base*1000003ull + prop) ^ mix(idx)); }

static void reset_res(void) { memset(g_res, 0, (size_t)((char*)g_res->dec - (char*)g_res)); }
// one simulated run in a forked child
static void one(int prop, uint64_t seed, const Decision* dec, uint64_t nd, int replay) {
    reset_res();
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!freopen("/dev/null","w",stdout)) {} 
        if (!getenv("SIM_STDERR") && !freopen("/dev/null","w",stderr)) {}
        scen_cfg(prop, seed);
        if (replay) { g_cfg.replay = 1; g_cfg.rdec = dec; g_cfg.nrdec = nd; }
        static ScenArgs a; a.prop = prop; a.seed = seed;
        struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec = 600; setitimer(ITIMER_REAL,&it,nullptr);
        rt_run(scen_main, &a);
        _exit(4);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!g_res->done) {
        g_res->verdict = 1; snprintf(g_res->cls, sizeof g_res->cls, "crash");
        if (WIFSIGNALED(st)) snprintf(g_res->msg, MSGSZ, "process died with signal %d", WTERMSIG(st));
        else snprintf(g_res->msg, MSGSZ, "process exited with status %d before the run finished", WEXITSTATUS(st));
        g_res->hash = 0; g_res->done = 1;
    }
}
static int cmpdec(const void* a, const void* b) { const Decision* x=(const Decision*)a; const Decision* y=(const Decision*)b;
    if (x->tid != y->tid) return x->tid < y->tid ? -1 : 1; if (x->lstep != y->lstep) return x->lstep < y->lstep ? -1 : 1; return (int)x->kind - (int)y->kind; }
static void put_json_str(FILE* f, const char* s) { fputc('"',f); for (; *s; s++) { unsigned char c=*s; if (c=='"'||c=='\\') { fputc('\\',f); fputc(c,f); } else if (c=='\n') fputs("\\n",f); else if (c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f); } fputc('"',f); }

struct Replay { int seeded; int prop; uint64_t seed; Decision* dec; uint64_t n; char cls[64]; uint64_t hash; char msg[MSGSZ]; };
static void write_replay(const char* path, int prop, uint64_t seed, const Decision* d, uint64_t n, const char* cls, uint64_t hash, const char* msg, const char* desc) {
    FILE* f = fopen(path,"w"); if (!f) { perror(path); exit(3); }
    fprintf(f,"simreplay 1\nprop %s\nseed %llu\nclass %s\nhash %llx\n", scen_prop_name(prop),(unsigned long long)seed,cls,(unsigned long long)hash);
    fprintf(f,"# %s\n# scenario: ", cls); for (const char* p=desc; *p; p++) fputc(*p=='\n'?' ':*p,f);
    fprintf(f,"\n# violation: "); for (const char* p=msg; *p; p++) fputc(*p=='\n'?' ':*p,f);
    fprintf(f,"\n# thread step kind(1=switch-to 2=clock-jump 3=spurious-wake-after 4=wake-waiter 5=syscall-fails) argument\nn %llu\n",(unsigned long long)n);
    for (uint64_t i=0;i<n;i++) fprintf(f,"d %u %llu %u %lld\n",d[i].tid,(unsigned long long)d[i].lstep,d[i].kind,(long long)d[i].arg);
    fclose(f);
}
static void read_replay(const char* path, Replay& r) {
    FILE* f=fopen(path,"r"); if (!f) { perror(path); exit(3); }
    char line[16384]; memset(&r,0,sizeof r); r.prop=-1; r.dec=(Decision*)calloc(MAXDEC,sizeof(Decision));
    while (fgets(line,sizeof line,f)) { char b[256]; unsigned long long x;
        if (line[0]=='#') continue;
        if (sscanf(line,"prop %255s",b)==1) r.prop=scen_prop_id(b);
        else if (sscanf(line,"seed %llu",&x)==1) r.seed=x;
        else if (!strncmp(line,"seeded",6)) r.seeded=1;
        else if (sscanf(line,"class %63s",b)==1) snprintf(r.cls,64,"%s",b);
        else if (sscanf(line,"hash %llx",&x)==1) r.hash=x;
        else if (line[0]=='d') { unsigned t,k; unsigned long long l; long long a; if (sscanf(line,"d %u %llu %u %lld",&t,&l,&k,&a)==4 && r.n<MAXDEC) { Decision& d=r.dec[r.n++]; d.tid=t; d.lstep=l; d.kind=k; d.arg=a; } }
    }
    fclose(f); if (r.prop<0) { fprintf(stderr,"bad replay file\n"); exit(3); }
    qsort(r.dec,r.n,sizeof(Decision),cmpdec);
}

// open addressing hash set of 64 bit values
static uint64_t* hs; static uint64_t hscap, hsn;
static bool hs_add(uint64_t v) { if (!v) v=1; if (hsn*2>=hscap) { uint64_t oc=hscap; uint64_t* o=hs; hscap=oc?oc*2:1<<16; hs=(uint64_t*)calloc(hscap,8); hsn=0; for (uint64_t i=0;i<oc;i++) if (o[i]) hs_add(o[i]); free(o); }
    uint64_t i=(v*0x9e3779b97f4a7c15ull)&(hscap-1); while (hs[i]) { if (hs[i]==v) return false; i=(i+1)&(hscap-1); } hs[i]=v; hsn++; return true; }

static const char* arg(int argc, char** argv, const char* k, const char* d) { for (int i=2;i+1<argc;i++) if (!strcmp(argv[i],k)) return argv[i+1]; return d; }
int main(int argc, char** argv) {
    if (argc < 2) return 3;
    const char* cpu = arg(argc,argv,"--cpu",nullptr);
    if (cpu) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(cpu),&s); sched_setaffinity(0,sizeof s,&s); }
    rt_zygote_init(); scen_zygote();
    if (!strcmp(argv[1],"run")) {
        int prop = scen_prop_id(arg(argc,argv,"--prop","")); if (prop<0) { fprintf(stderr,"unknown property\n"); return 3; }
        uint64_t base = strtoull(arg(argc,argv,"--seed","1"),0,10), from=strtoull(arg(argc,argv,"--from","0"),0,10), to=strtoull(arg(argc,argv,"--to","100"),0,10), stride=strtoull(arg(argc,argv,"--stride","1"),0,10);
        double limit = atof(arg(argc,argv,"--time","1e9")); int recheck = atoi(arg(argc,argv,"--recheck","0")); int maxviol = atoi(arg(argc,argv,"--maxviol","1"));
        const char* hout = arg(argc,argv,"--hashes",nullptr);
        double t0=now_s(); uint64_t runs=0, multi=0, nviol=0, rechecks=0, totg=0,totm=0,totsw=0,totev=0,totalloc=0,decs=0; double vt=0; uint64_t faults[FK_N]={0}, aux[16]={0}, frun[FK_N]={0};
        char sample[3][1200]; int ns=0; uint64_t maxthr=0, maxg=0, maxm=0;
        for (uint64_t i=from;i<to;i+=stride) {
            if (now_s()-t0 > limit) break;
            uint64_t seed=run_seed(base,prop,i);
            one(prop,seed,nullptr,0,0);
            runs++;
            if (g_res->verdict==2) { printf("{\"internal\":1,\"seed\":%llu,\"msg\":",(unsigned long long)seed); put_json_str(stdout,g_res->msg); printf("}\n"); return 2; }
            if (hs_add(g_res->sched_hash) && g_res->switches>2) multi++;
            totg+=g_res->gsteps; totm+=g_res->memsteps; totsw+=g_res->switches; totev+=g_res->events; totalloc+=g_res->allocs; decs+=g_res->ndec; vt+=g_res->vtime_ns*1e-9;
            if (g_res->gsteps>maxg) maxg=g_res->gsteps; if (g_res->memsteps>maxm) maxm=g_res->memsteps;
            if (g_res->maxthreads>maxthr) maxthr=g_res->maxthreads;
            for (int k=0;k<FK_N;k++) { faults[k]+=g_res->faults[k]; if (g_res->faults[k]) frun[k]++; } for (int k=0;k<16;k++) aux[k]+=g_res->aux[k];
            if (ns<3 && (runs==1 || runs==7 || runs==50)) { snprintf(sample[ns],1200,"seed=%llu %s gsteps=%llu switches=%llu verdict=%d",(unsigned long long)seed,g_res->desc,(unsigned long long)g_res->gsteps,(unsigned long long)g_res->switches,g_res->verdict); ns++; }
            if (g_res->verdict==1) { nviol++;
                printf("{\"violation\":1,\"seed\":%llu,\"idx\":%llu,\"cls\":",(unsigned long long)seed,(unsigned long long)i); put_json_str(stdout,g_res->cls); printf(",\"msg\":"); put_json_str(stdout,g_res->msg); printf(",\"desc\":"); put_json_str(stdout,g_res->desc); printf(",\"ndec\":%llu,\"hash\":\"%llx\"}\n",(unsigned long long)g_res->ndec,(unsigned long long)g_res->hash); fflush(stdout);
                if ((int)nviol>=maxviol) break; }
            else if (recheck && runs%recheck==0) { // determinism: run the same seed again
                uint64_t h=g_res->hash, sh=g_res->sched_hash; one(prop,seed,nullptr,0,0); rechecks++;
                if (g_res->hash!=h || g_res->sched_hash!=sh) { printf("{\"internal\":1,\"seed\":%llu,\"msg\":\"the same seed gave two different executions\"}\n",(unsigned long long)seed); return 2; }
                if (!g_res->dec_overflow) { // and its recorded decisions alone must reproduce it
                    static Decision* tr=nullptr; if (!tr) tr=(Decision*)malloc(sizeof(Decision)*(MAXDEC+1)); uint64_t n=g_res->ndec; memcpy(tr,g_res->dec,n*sizeof(Decision)); qsort(tr,n,sizeof(Decision),cmpdec);
                    one(prop,seed,tr,n,1); if (g_res->hash!=h || g_res->sched_hash!=sh) { printf("{\"internal\":1,\"seed\":%llu,\"msg\":\"the recorded decisions did not reproduce the execution\"}\n",(unsigned long long)seed); return 2; } } }
        }
        printf("{\"summary\":1,\"runs\":%llu,\"distinct\":%llu,\"nontrivial\":%llu,\"viol\":%llu,\"rechecks\":%llu,\"wall\":%.3f,\"gsteps\":%llu,\"memsteps\":%llu,\"switches\":%llu,\"events\":%llu,\"allocs\":%llu,\"decisions\":%llu,\"vtime\":%.9f,\"maxthreads\":%llu,\"maxg\":%llu,\"maxm\":%llu,\"faults\":[",(unsigned long long)runs,(unsigned long long)hsn,(unsigned long long)multi,(unsigned long long)nviol,(unsigned long long)rechecks,now_s()-t0,(unsigned long long)totg,(unsigned long long)totm,(unsigned long long)totsw,(unsigned long long)totev,(unsigned long long)totalloc,(unsigned long long)decs,vt,(unsigned long long)maxthr,(unsigned long long)maxg,(unsigned long long)maxm);
        for (int k=0;k<FK_N;k++) printf("%s%llu",k?",":"",(unsigned long long)faults[k]); printf("],\"faultruns\":["); for (int k=0;k<FK_N;k++) printf("%s%llu",k?",":"",(unsigned long long)frun[k]);
        printf("],\"aux\":["); for (int k=0;k<16;k++) printf("%s%llu",k?",":"",(unsigned long long)aux[k]); printf("],\"samples\":[");
        for (int k=0;k<ns;k++) { if (k) printf(","); put_json_str(stdout,sample[k]); } printf("]}\n");
        if (hout) { FILE* f=fopen(hout,"wb"); if (f) { for (uint64_t i=0;i<hscap;i++) if (hs[i]) fwrite(&hs[i],8,1,f); fclose(f); } }
        return 0;
    }
    if (!strcmp(argv[1],"one")) {
        int prop=scen_prop_id(arg(argc,argv,"--prop","")); uint64_t seed=strtoull(arg(argc,argv,"--runseed","1"),0,10);
        one(prop,seed,nullptr,0,0);
        printf("verdict=%d cls=%s hash=%llx sched=%llx gsteps=%llu mem=%llu ndec=%llu\n%s\n%s\n",g_res->verdict,g_res->cls,(unsigned long long)g_res->hash,(unsigned long long)g_res->sched_hash,(unsigned long long)g_res->gsteps,(unsigned long long)g_res->memsteps,(unsigned long long)g_res->ndec,g_res->desc,g_res->msg);
        return g_res->verdict;
    }
    if (!strcmp(argv[1],"replay")) {
        Replay r; read_replay(argv[2],r);
        r.seeded ? one(r.prop,r.seed,nullptr,0,0) : one(r.prop,r.seed,r.dec,r.n,1); int v=g_res->verdict; uint64_t h=g_res->hash; char cls[64]; snprintf(cls,64,"%s",g_res->cls);
        printf("replay property=%s seed=%llu decisions=%llu\nverdict=%s class=%s hash=%llx\n%s\nscenario: %s\n",scen_prop_name(r.prop),(unsigned long long)r.seed,(unsigned long long)r.n,v==1?"VIOLATION":v==0?"ok":"internal",cls,(unsigned long long)h,g_res->msg,g_res->desc);
        if (v==2) return 2;
        r.seeded ? one(r.prop,r.seed,nullptr,0,0) : one(r.prop,r.seed,r.dec,r.n,1);
        if (g_res->hash!=h || g_res->verdict!=v) { printf("replay is not deterministic\n"); return 2; }
        bool same = v==1 && !strcmp(cls,r.cls) && h==r.hash;
        printf("matches recorded violation: %s\n", same?"yes":"no");
        return v==1 ? (same?1:5) : 0;
    }
    if (!strcmp(argv[1],"selfreplay")) {   // development: record a run, replay its decisions, compare
        int prop=scen_prop_id(arg(argc,argv,"--prop","")); uint64_t base=strtoull(arg(argc,argv,"--seed","1"),0,10), to=strtoull(arg(argc,argv,"--to","100"),0,10), rs=strtoull(arg(argc,argv,"--runseed","0"),0,10); int bad=0; double limit=atof(arg(argc,argv,"--time","1e9")), t0=now_s(); uint64_t done=0, skipped=0;
        Decision* cur=(Decision*)malloc(sizeof(Decision)*(MAXDEC+1)), *raw=(Decision*)malloc(sizeof(Decision)*(MAXDEC+1));
        for (uint64_t i=0;i<(rs?1:to) && now_s()-t0<limit;i++) { uint64_t seed=rs?rs:run_seed(base,prop,i); one(prop,seed,nullptr,0,0); if (g_res->dec_overflow) { skipped++; continue; }
            uint64_t n=g_res->ndec, h=g_res->hash, sh=g_res->sched_hash; memcpy(raw,g_res->dec,n*sizeof(Decision)); memcpy(cur,raw,n*sizeof(Decision)); qsort(cur,n,sizeof(Decision),cmpdec);
            one(prop,seed,cur,n,1); done++;
            if (g_res->hash!=h || g_res->sched_hash!=sh) { bad++; uint64_t k=0; while (k<n && k<g_res->ndec && !memcmp(&raw[k],&g_res->dec[k],sizeof(Decision))) k++;
                printf("seed %llu: differs at decision %llu of %llu/%llu hash %s sched %s\n",(unsigned long long)seed,(unsigned long long)k,(unsigned long long)n,(unsigned long long)g_res->ndec,g_res->hash==h?"same":"DIFF",g_res->sched_hash==sh?"same":"DIFF");
                for (uint64_t j=k>2?k-2:0;j<k+3;j++) { if (j<n) printf("   rec t%u l%llu k%u a%lld",raw[j].tid,(unsigned long long)raw[j].lstep,raw[j].kind,(long long)raw[j].arg); if (j<g_res->ndec) printf("   rep t%u l%llu k%u a%lld",g_res->dec[j].tid,(unsigned long long)g_res->dec[j].lstep,g_res->dec[j].kind,(long long)g_res->dec[j].arg); printf("\n"); }
                printf("  %s\n",g_res->desc); if (bad>=5) break; } }
        printf("replayed %llu skipped %llu different %d\n",(unsigned long long)done,(unsigned long long)skipped,bad); return bad?1:0;
    }
    if (!strcmp(argv[1],"min")) {   // min --prop P --runseed S --out FILE [--budget seconds]
        int prop=scen_prop_id(arg(argc,argv,"--prop","")); uint64_t seed=strtoull(arg(argc,argv,"--runseed","1"),0,10); const char* out=arg(argc,argv,"--out","/dev/null"); double budget=atof(arg(argc,argv,"--budget","15"));
        one(prop,seed,nullptr,0,0); if (g_res->verdict!=1) { printf("not reproduced by seed (verdict %d)\n",g_res->verdict); return 2; }
        char cls[64]; snprintf(cls,64,"%s",g_res->cls); uint64_t h=g_res->hash;
        one(prop,seed,nullptr,0,0); if (g_res->verdict!=1 || g_res->hash!=h) { printf("same seed, different execution\n"); return 2; }
        uint64_t n=g_res->ndec; bool ovf=g_res->dec_overflow; Decision* cur=(Decision*)malloc(sizeof(Decision)*(MAXDEC+1)); memcpy(cur,g_res->dec,n*sizeof(Decision)); qsort(cur,n,sizeof(Decision),cmpdec);
        uint64_t n0=n;
        one(prop,seed,cur,n,1);
        if (ovf || g_res->verdict!=1 || strcmp(g_res->cls,cls) || g_res->hash!=h) { // too many decisions to record: the seed itself is the replay
            one(prop,seed,nullptr,0,0); if (g_res->verdict!=1 || g_res->hash!=h) { printf("same seed, different execution\n"); return 2; }
            write_replay(out,prop,seed,nullptr,0,g_res->cls,g_res->hash,g_res->msg,g_res->desc); FILE* f=fopen(out,"a"); if (f) { fprintf(f,"seeded\n"); fclose(f); }
            printf("{\"class\":"); put_json_str(stdout,g_res->cls); printf(",\"msg\":"); put_json_str(stdout,g_res->msg); printf(",\"from\":%llu,\"to\":%llu,\"tries\":0}\n",(unsigned long long)n0,(unsigned long long)n0); return 0; }
        Decision* best=(Decision*)malloc(sizeof(Decision)*(MAXDEC+1)); Decision* tryd=(Decision*)malloc(sizeof(Decision)*(MAXDEC+1)); memcpy(best,cur,n*sizeof(Decision));
        double t0=now_s(); uint64_t chunk=n; int tries=0;
        auto attempt=[&](uint64_t m)->bool { tries++; one(prop,seed,tryd,m,1); if (g_res->verdict==1 && !strcmp(g_res->cls,cls) && !g_res->dec_overflow && g_res->ndec<=m) { n=g_res->ndec; memcpy(best,g_res->dec,n*sizeof(Decision)); qsort(best,n,sizeof(Decision),cmpdec); return true; } 
            if (g_res->verdict==1 && !strcmp(g_res->cls,cls)) { n=m; memcpy(best,tryd,m*sizeof(Decision)); return true; } return false; };
        while (chunk>=1 && n>0 && now_s()-t0<budget) {
            bool any=false;
            for (uint64_t s=0;s<n && now_s()-t0<budget;) { uint64_t e=s+chunk<n?s+chunk:n; uint64_t m=0; for (uint64_t i=0;i<n;i++) if (i<s||i>=e) tryd[m++]=best[i]; if (attempt(m)) any=true; else s=e; }
            if (chunk==1 && !any) break; if (!any || chunk>n) chunk = chunk>1 ? (chunk+1)/2 : 1; if (chunk==1 && n==0) break;
        }
        one(prop,seed,best,n,1); if (g_res->verdict!=1) { printf("minimised trace lost the violation\n"); return 2; }
        write_replay(out,prop,seed,best,n,g_res->cls,g_res->hash,g_res->msg,g_res->desc);
        printf("{\"class\":"); put_json_str(stdout,g_res->cls); printf(",\"msg\":"); put_json_str(stdout,g_res->msg); printf(",\"from\":%llu,\"to\":%llu,\"tries\":%d}\n",(unsigned long long)n0,(unsigned long long)n,tries);
        return 0;
    }
    return 3;
}
