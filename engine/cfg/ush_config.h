/* Configuration of the library under test: the one which /repo ships for POSIX, with assertions
 * reported to the monitor and with the overrides requested by the build. */
#ifndef VF_USH_CONFIG_H
#define VF_USH_CONFIG_H

#include "config/posix/ush_config.h"

#ifdef __cplusplus
extern "C" {
#endif
void vf_assert_failed(const char *file, int line);
#ifdef __cplusplus
}
#endif

#undef USH_ASSERT
#define USH_ASSERT(cond) { if (!(cond)) { vf_assert_failed(__FILE__, __LINE__); } }

#ifdef VF_OVERRIDE_FILE
#include VF_OVERRIDE_FILE
#endif

#endif
