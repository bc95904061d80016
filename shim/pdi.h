/* Stand-in for the PDI Data Interface: the calls HERACLES++ makes. The behaviour
 * (minipdi.cpp) is driven by the YAML configuration the application passes. */
#ifndef MINI_PDI_H
#define MINI_PDI_H
#include "paraconf.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef enum PDI_inout_e { PDI_NONE = 0, PDI_IN = 1, PDI_OUT = 2, PDI_INOUT = 3 } PDI_inout_t;
typedef enum PDI_status_e { PDI_OK = 0, PDI_ERR_CONFIG = 1 } PDI_status_t;
PDI_status_t PDI_init(PC_tree_t conf);
PDI_status_t PDI_finalize(void);
PDI_status_t PDI_multi_expose(char const* event_name, char const* name, void const* data, PDI_inout_t access, ...);
PDI_status_t PDI_expose(char const* name, void const* data, PDI_inout_t access);
PDI_status_t PDI_share(char const* name, void const* data, PDI_inout_t access);
PDI_status_t PDI_reclaim(char const* name);
PDI_status_t PDI_event(char const* event);
#ifdef __cplusplus
}
#endif
#endif
