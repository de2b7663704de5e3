#include <common.h>
#include <MemorySim.h>
#include <mriPlatform.h>
#include <CrashCatcherDump.h>
#include <GdbLogParser.h>
#include <ElfLoad.h>
#include <CrashDebugCommandLine.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define EXPECT(x) do { if (!(x)) { fprintf(stderr, "demo: line %d: %s does not hold\n", __LINE__, #x); exit(1); } } while (0)
#define CODE(c, X) do { volatile int code_ = 0; __try { X; } __catch { code_ = getExceptionCode(); clearExceptionCode(); } c = code_; } while (0)
static void __attribute__((unused)) put_file(const char* name, const void* p, size_t n) { FILE* f = fopen(name, "wb"); fwrite(p, 1, n, f); fclose(f); }
