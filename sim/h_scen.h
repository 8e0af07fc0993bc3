#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct ScenArgs { int prop; uint64_t seed; int mutant; };
int scen_prop_id(const char* name);            // -1 when unknown
const char* scen_prop_name(int id);
int scen_n(void);
void scen_cfg(int prop, uint64_t seed);        // fills g_cfg from the seed
void scen_main(void* args);                    // runs as the simulated main thread
void scen_zygote(void);
#ifdef __cplusplus
}
#endif
