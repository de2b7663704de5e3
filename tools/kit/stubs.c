/* stand-ins for the few mri functions that CrashDebug calls (the submodule is absent) */
#include <platforms.h>
#include <string.h>
#include <stdio.h>
struct Buffer { char* p; };
char kit_console[4096];
void __attribute__((weak)) __mriInit(const char* p) {}
void __attribute__((weak)) __mriDebugException(void) {}
void WriteStringToGdbConsole(const char* s) { strcat(kit_console, s); }
void WriteHexValueToGdbConsole(uint32_t v) { sprintf(kit_console + strlen(kit_console), "0x%08X", v); }
void Buffer_WriteByteAsHex(Buffer* b, uint8_t v) { sprintf(b->p, "%02x", v); b->p += 2; }
void Buffer_WriteChar(Buffer* b, char c) { *b->p++ = c; *b->p = 0; }
uint8_t Buffer_ReadByteAsHex(Buffer* b) { unsigned v = 0; sscanf(b->p, "%2x", &v); b->p += 2; return (uint8_t)v; }
