/* C31: what a command line loads does not depend on what was loaded before it in the same process.
   Load B; then load A (complete, cut short anywhere, or with one operation or allocation failing), use it, discard it; then load B again: it is as it was.
   ELF, DUMP: image and dump of B; ELF2, DUMP2: of A; HOW: 0 A complete, 1 A cut short, 2 one file operation fails, 3 one allocation fails */
#include "mri.h"
#include "cmd.h"
#ifndef ELF
#define ELF 0
#endif
#ifndef DUMP
#define DUMP 0
#endif
#ifndef ELF2
#define ELF2 0
#endif
#ifndef DUMP2
#define DUMP2 0
#endif
#ifndef HOW
#define HOW 0
#endif
#ifndef MAXOP
#define MAXOP 60
#endif
static CrashDebugCommandLine one, cl;
static uint8_t b_dump[sizeof(c_dump)], b_image[sizeof(c_image)]; static uint32_t b_dumpSize, b_imageSize;
static char map[512]; static uint32_t mapSize, xmlSize; static uint8_t cause; static uint32_t mapSeen;
/* what the debugger is told about a load */
static void started(CrashDebugCommandLine* p, int first)
{
    int code; const char* volatile x = 0; volatile uint32_t n = 0, k = 0; volatile uint8_t s = 0; uint32_t i;
    CATCH(code, mriPlatform_Init(&p->context, p->pMemory));
    v_assert(code == 0 && !Platform_WasMemoryFaultEncountered(), "no fault is reported yet");
    CATCH(code, n = Platform_GetDeviceMemoryMapXmlSize(); x = Platform_GetDeviceMemoryMapXml(); k = Platform_GetTargetXmlSize(); s = Platform_DetermineCauseOfException());
    v_assert(code == 0 && x && n < sizeof(map), "the memory map can be made");
    if (first) { memcpy(map, x, n); mapSize = n; xmlSize = k; cause = s; return; }
    v_assert(n == mapSize && k == xmlSize && s == cause, "the debugger is told the same as before");
    for (i = 0; i < n; i++) mapSeen |= (uint32_t)(map[i] ^ x[i]);
    v_assert(mapSeen == 0, "the debugger is told the same as before");
}
static int load(CrashDebugCommandLine* p, int elf, const char* base, int alias)
{
    const char* argv[12]; int argc = 0, code;
    argv[argc++] = elf ? "--elf" : "--bin"; argv[argc++] = "img"; if (!elf) argv[argc++] = base;
    argv[argc++] = "--dump"; argv[argc++] = "dump";
    if (alias) { argv[argc++] = "--alias"; argv[argc++] = "0x30000000"; argv[argc++] = "2"; argv[argc++] = C_RAMTEXT; }
    memset(p, 0xEE, sizeof(*p));
    CATCH(code, CrashDebugCommandLine_Init(p, argc, argv));
    return code;
}
static uint32_t sameContext(void)
{
    const RegisterContext *a = &one.context, *b = &cl.context; uint32_t bad = (a->flags ^ b->flags) | (a->exceptionPSR ^ b->exceptionPSR); unsigned i;
    for (i = 0; i < TOTAL_REG_COUNT; i++) bad |= a->R[i] ^ b->R[i];
    for (i = 0; i < TOTAL_FPREG_COUNT; i++) bad |= a->FPR[i] ^ b->FPR[i];
    return bad;
}
void vf_main(void)
{
    int code; uint32_t v = 0; IMemory* m;
    /* B for the first time */
    c_makeImage(ELF, 0x1000); c_makeDump(DUMP);
    memcpy(b_dump, c_dump, sizeof(c_dump)); memcpy(b_image, c_image, sizeof(c_image)); b_dumpSize = env_files[1].size; b_imageSize = env_files[0].size;
    v_assert(load(&one, ELF, "0x1000", 0) == 0, "the command line is accepted");
    v_assert(!c_context(&one.context) && !c_bytes(one.pMemory, 0x1000, c_code, C_IMG, 1) && !c_bytes(one.pMemory, C_RAM, c_ram, C_MEM, 0), "image and dump are loaded");
    started(&one, 1);
    CrashDebugCommandLine_Uninit(&one);
    v_assert(env_live == 0, "everything is freed");
    /* A */
    {
        uint8_t s_code[C_IMG], s_ram[C_MEM]; uint32_t s_R[TOTAL_REG_COUNT], s_psr = c_psr, s_known = c_known;
        memcpy(s_code, c_code, C_IMG); memcpy(s_ram, c_ram, C_MEM); memcpy(s_R, c_R, sizeof(s_R));
        c_makeImage(ELF2, 0x1004); c_makeDump(DUMP2);
        env_ops = env_allocs = 0;
        if (HOW == 1) env_files[1].size = nd_pick(env_files[1].size);
        if (HOW == 2) env_failOp = 1 + nd_pick(MAXOP);
        if (HOW == 3) env_failAlloc = 1 + nd_pick(MAXOP);
        code = load(&cl, ELF2, "0x1004", 1);
        if (HOW == 2 ? env_ops < env_failOp : HOW == 3 ? env_allocs < env_failAlloc : 0) v_stop();
        env_failOp = env_failAlloc = 0;
#if HOW == 0
        v_assert(code == 0 && !c_context(&cl.context), "the command line is accepted");
        v_assert(!c_bytes(cl.pMemory, 0x1004, c_code, C_IMG, 1) && !c_bytes(cl.pMemory, C_RAM, c_ram, C_MEM, 0) && !c_bytes(cl.pMemory, 0x30000000, c_ram, 2, 0), "image, dump and alias are those of the second load");
        v_assert(try_read(cl.pMemory, 0x1000, 1, &v) == busErrorException, "no memory of the first load is left");
#else
        if (code) { v_cover("the load before failed"); v_assert(env_live == 0 && env_openFiles == 0, "nothing is left of a failed load"); }
        else
#endif
        {   /* use it: a hit watchpoint, a changed word, a fault */
            m = cl.pMemory;
#if HOW < 2
            v_cover("the load before succeeded");
#endif
            CATCH(code, mriPlatform_Init(&cl.context, m));
            CATCH(code, MemorySim_SetHardwareWatchpoint(m, C_RAM, 4, WATCHPOINT_READ_WRITE));
            try_write(m, C_RAM, 4, nd_u32()); try_read(m, 0x1004, 2, &v);
            Platform_MemRead32((const void*)(uintptr_t)0x70000000);
            {
                const char* volatile x = 0; volatile uint32_t s = 0;
                CATCH(code, s = Platform_GetDeviceMemoryMapXmlSize(); x = Platform_GetDeviceMemoryMapXml());
                v_assert(code == 0 && strlen(x) == s, "the memory map is as long as said");
            }
            CrashDebugCommandLine_Uninit(&cl);
            v_assert(env_live == 0 && env_openFiles == 0, "everything is freed");
        }
        memcpy(c_code, s_code, C_IMG); memcpy(c_ram, s_ram, C_MEM); memcpy(c_R, s_R, sizeof(s_R)); c_psr = s_psr; c_known = s_known;
    }
    env_errLen = env_outLen = 0;
    /* B again */
    memcpy(c_dump, b_dump, sizeof(c_dump)); memcpy(c_image, b_image, sizeof(c_image)); env_files[1].size = b_dumpSize; env_files[0].size = b_imageSize;
    v_assert(load(&cl, ELF, "0x1000", 0) == 0, "the command line is accepted again");
    m = cl.pMemory;
    v_assert(m && env_errLen == 0 && env_outLen == 0 && env_openFiles == 0, "nothing is printed or left open");
    v_assert(!sameContext(), "the registers are the same as before");
    v_assert(!MemorySim_WasWatchpointEncountered(m), "no watchpoint was hit yet");
    started(&cl, 0);
    v_assert(!c_bytes(m, 0x1000, c_code, C_IMG, 1), "the program is the same as before");
    v_assert(!c_bytes(m, C_RAM, c_ram, C_MEM, 0), "the memory is the same as before");
    v_assert(!MemorySim_WasWatchpointEncountered(m), "no watchpoint is left");
    v_assert(try_read(m, 0x30000000, 1, &v) == busErrorException, "no alias is left");
    v_assert(try_read(m, 0x1000 + C_IMG, 1, &v) == busErrorException, "no other memory is left");
    CrashDebugCommandLine_Uninit(&cl);
    v_assert(env_live == 0 && env_openFiles == 0 && g_pExceptionHandlers == NULL, "everything is freed in the end");
}
