/* Stand-in for mri's gdb_console.h (submodule absent). */
#ifndef GDB_CONSOLE_SHIM_H_
#define GDB_CONSOLE_SHIM_H_
#include <stdint.h>
void WriteStringToGdbConsole(const char* pString);
void WriteHexValueToGdbConsole(uint32_t value);
#endif
