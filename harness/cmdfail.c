/* C20: a correct command line with one file operation or allocation (or all from one on) failing. ELF 0/1, DUMP 0..2 */
#include "cmd.h"
#ifndef ELF
#define ELF 0
#endif
#ifndef DUMP
#define DUMP 0
#endif
#ifndef ALIAS
#define ALIAS 0
#endif
#ifndef MAXOP
#define MAXOP 40
#endif
static CrashDebugCommandLine cl;
void vf_main(void)
{
    const char* argv[12]; int argc = 0, code; uint32_t base = 0x1000, kind = nd_pick(4), k = 1 + nd_pick(MAXOP); int hit;
    c_makeImage(ELF, base); c_makeDump(DUMP);
    argv[argc++] = ELF ? "--elf" : "--bin"; argv[argc++] = "img"; if (!ELF) argv[argc++] = "0x1000";
    argv[argc++] = "--dump"; argv[argc++] = "dump";
    if (ALIAS) { argv[argc++] = "--alias"; argv[argc++] = "0x30000000"; argv[argc++] = "2"; argv[argc++] = C_RAMTEXT; }
    if (kind == 0) env_failOp = k; else if (kind == 1) env_failAlloc = k; else if (kind == 2) env_failAllocUp = k;
    else if (k != 1) v_stop();
    memset(&cl, 0xEE, sizeof(cl));
    CATCH(code, CrashDebugCommandLine_Init(&cl, argc, argv));
    hit = kind == 0 ? env_ops >= k : kind == 3 ? 0 : env_allocs >= k;
    env_failOp = env_failAlloc = env_failAllocUp = 0;
    if (!hit)
    {
        v_assert(code == 0, "without a failure the command line is accepted");
        v_assert(!c_context(&cl.context) && !c_bytes(cl.pMemory, base, c_code, C_IMG, 1) && !c_bytes(cl.pMemory, C_RAM, c_ram, C_MEM, 0), "image and dump are loaded");
        v_cover("nothing failed");
    }
    else if (kind != 0)
    {
        v_assert(code == outOfMemoryException, "a failing allocation is an out of memory exception");
        v_cover("allocation failed");
    }
    else if (env_failedFile == 0)
    {
        v_assert(code == fileException, "a failing operation on the image is a file exception");
        v_cover("image failed");
    }
    else if (env_failedOp == ENV_GETS)
    {
        v_cover("reading the log failed");
        v_assert(code != 0, "a read error of a GDB log is not taken for its end");
    }
    else if (env_failedOp == ENV_READ)
    {
        v_cover("reading the dump failed");
        v_assert(code != 0, "a read error of the dump is not taken for its end");
    }
    else
    {
        v_assert(code == fileException, "a failing operation on the dump is a file exception");
        v_cover("dump failed");
    }
    if (code)
    {
        v_assert(code == outOfMemoryException ? c_complained() : c_explained(), "the failure is explained: error, copyright notice and usage");
        v_assert(cl.pMemory == NULL, "no memory is left behind");
    }
    v_assert(env_openFiles == 0, "every file is closed");
    CrashDebugCommandLine_Uninit(&cl);
    v_assert(env_live == 0 && g_pExceptionHandlers == NULL, "every block is freed");
    v_observe("code", (uint64_t)code);
}
