/* C19: MODE 0: what kind of dump a file is (by its first bytes, any of them); MODE 1: an alias that cannot be made; MODE 2: image and dump side by side or overlapping. */
#include "cmd.h"
#ifndef MODE
#define MODE 0
#endif
static CrashDebugCommandLine cl;
void vf_main(void)
{
    const char* argv[8] = { "--bin", "img", "0x1000", "--dump", "dump", NULL, NULL, NULL };
    char alias[3][16]; int argc = 5, code; unsigned i;
    c_makeImage(0, 0);
#if MODE == 0
    {
        unsigned n = nd_pick(5), rest = nd_pick(2); int sig;
        for (i = 0; i < n; i++) c_dump[i] = nd_u8();
        if (n == 4 && rest) { memcpy(c_dump + 4, "\npc             0x12345678\n", 27); }
        else rest = 0;
        env_files[1].name = "dump"; env_files[1].data = c_dump; env_files[1].size = n + (rest ? 27 : 0);
        sig = (n >= 2 && c_dump[0] == 0x63 && c_dump[1] == 0x43) || (n == 4 && 0 == memcmp(c_dump, "6343", 4));
        CATCH(code, CrashDebugCommandLine_Init(&cl, argc, argv));
        if (sig) { v_assert(code == fileFormatException, "a file with the signature of a crash dump is read as one"); v_cover("signature"); }
        else
        {
            v_assert(code == 0, "any other file is read as a GDB log");
            v_assert(!rest || cl.context.R[PC] == 0x12345678, "any other file is read as a GDB log");
            v_cover("no signature");
        }
    }
#elif MODE == 2
    {   /* the image lies from 8 below to 19 above the start of the RAM of the dump */
        unsigned off = nd_pick(28), kind = nd_pick(3), n = kind == 2 ? 16 : C_MEM; char base[16]; int over = off > 8 - C_IMG && off < 8 + n;
        snprintf(base, sizeof(base), "0x%08X", C_RAM - 8 + off);
        argv[2] = base;
        c_makeDump(kind);
        CATCH(code, CrashDebugCommandLine_Init(&cl, argc, argv));
        if (over && code) { v_assert(code == busErrorException, "a dump whose memory the image occupies is a bus error"); v_cover("overlap"); }
        else if (over)
        {
            v_assert(kind == 2 && !c_bytes(cl.pMemory, C_RAM - 8 + off, c_code, C_IMG, 1), "the image is never changed by a dump");
            v_cover("word of a log across the end of the image");
        }
        else
        {
            v_assert(code == 0 && !c_context(&cl.context) && !c_bytes(cl.pMemory, C_RAM, c_ram, C_MEM, 0) && !c_bytes(cl.pMemory, C_RAM - 8 + off, c_code, C_IMG, 1), "next to each other image and dump are loaded");
            v_cover("side by side");
        }
    }
#else
    {
        static const uint32_t at[] = { 0x0FFF, 0x1005, 0x20000004, 0x1FFFFFFF, 0xFFFFFFFF };
        static const uint32_t sizes[] = { 1, 2147483647, 0 };
        unsigned k = nd_pick(5), s = nd_pick(2), j = nd_pick(2), where = nd_pick(2); char want[128];
        c_makeDump(0);
        snprintf(alias[0], 16, j ? "0x%08X" : "%u", 0x30000000 + k); snprintf(alias[1], 16, "%u", sizes[s]); snprintf(alias[2], 16, "0x%x", at[k]);
        if (where) { argv[7] = "dump"; }
        {
            const char* good[3] = { "0x50000000", "2", "0x1001" };
            const char* list[16]; int n = 0;
            if (where) { list[n++] = "--alias"; for (i = 0; i < 3; i++) list[n++] = good[i]; }
            list[n++] = "--alias"; for (i = 0; i < 3; i++) list[n++] = alias[i];
            for (i = 0; i < 5; i++) list[n++] = argv[i];
            CATCH(code, CrashDebugCommandLine_Init(&cl, n, list));
        }
        v_assert(code == busErrorException, "an alias of memory that does not exist is a bus error");
        snprintf(want, sizeof(want), "ERROR: Failed to create alias of 0x%08X to 0x%08X of size %u.\n", 0x30000000 + k, at[k], sizes[s]);
        v_assert(0 == strncmp(env_err, want, strlen(want)), "the message names the alias");
        v_cover("alias refused");
    }
#endif
    if (code)
    {
        v_assert(c_explained(), "a rejected command line is explained: error, copyright notice and usage");
        v_assert(cl.pMemory == NULL, "no memory is left behind by a rejected command line");
    }
    v_assert(env_openFiles == 0, "every file is closed");
    CrashDebugCommandLine_Uninit(&cl);
    v_assert(env_live == 0 && g_pExceptionHandlers == NULL, "everything is freed in the end");
    v_observe("code", (uint64_t)code);
}
