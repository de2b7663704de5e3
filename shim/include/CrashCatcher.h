/* Stand-in for CrashCatcher/include/CrashCatcher.h (submodule absent): the dump format's constants. */
#ifndef CRASH_CATCHER_SHIM_H_
#define CRASH_CATCHER_SHIM_H_
#include <stdint.h>
#define CRASH_CATCHER_SIGNATURE_BYTE0 0x63
#define CRASH_CATCHER_SIGNATURE_BYTE1 0x43
#define CRASH_CATCHER_VERSION_MAJOR 3
#define CRASH_CATCHER_VERSION_MINOR 0
#define CRASH_CATCHER_FLAGS_FLOATING_POINT (1 << 0)
#define CRASH_CATCHER_STACK_SENTINEL 0xACCE55ED
typedef struct
{
    uint32_t startAddress;
    uint32_t endAddress;
} CrashCatcherMemoryRegionInfo;
#endif
