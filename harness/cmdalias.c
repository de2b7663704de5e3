/* C19: many --alias options, before, between and after the files; each redirects to RAM, to the program or to the alias before it. */
#include "cmd.h"
#ifndef N
#define N 3
#endif
static CrashDebugCommandLine cl;
static char text[N][2][12];
static void hex(char* p, uint32_t v) { int i; *p++ = '0'; *p++ = 'x'; for (i = 28; i >= 0; i -= 4) *p++ = "0123456789abcdef"[v >> i & 15]; *p = 0; }
static int put(const char** argv, int argc, unsigned i, uint32_t at, uint32_t to)
{
    hex(text[i][0], at); hex(text[i][1], to);
    argv[argc++] = "--alias"; argv[argc++] = text[i][0]; argv[argc++] = "2"; argv[argc++] = text[i][1];
    return argc;
}
void vf_main(void)
{
    const char* argv[5 + 4 * N]; int argc = 0, code; unsigned i, where = nd_pick(3), chain = nd_pick(2); uint32_t bad = 0, v, to[N], at[N], kind[N];
    c_makeImage(0, 0x1000); c_makeDump(0);
    for (i = 0; i < N; i++)
    {
        at[i] = 0x30000000 + 0x10 * i;
        kind[i] = i < 3 ? nd_pick(chain && i ? 3 : 2) : i & 1;
        to[i] = kind[i] == 2 ? at[i - 1] : kind[i] == 1 ? 0x1000 + i % 4 : C_RAM + i % 3;
        if (kind[i] == 2) v_cover("alias of an alias");
    }
    for (i = 0; i < N && where == 0; i++) argc = put(argv, argc, i, at[i], to[i]);
    argv[argc++] = "--dump"; argv[argc++] = "dump";
    for (i = 0; i < N && where == 1; i++) argc = put(argv, argc, i, at[i], to[i]);
    argv[argc++] = "--bin"; argv[argc++] = "img"; argv[argc++] = "0x1000";
    for (i = 0; i < N && where == 2; i++) argc = put(argv, argc, i, at[i], to[i]);
    memset(&cl, 0xEE, sizeof(cl));
    CATCH(code, CrashDebugCommandLine_Init(&cl, argc, argv));
    v_assert(code == 0 && env_errLen == 0 && env_outLen == 0, "a correct command line is accepted");
    v_assert(!c_context(&cl.context) && !c_bytes(cl.pMemory, 0x1000, c_code, C_IMG, 1) && !c_bytes(cl.pMemory, C_RAM, c_ram, C_MEM, 0), "image and dump are loaded");
    for (i = 0; i < N; i++)
    {
        unsigned k = i, j;
        while (kind[k] == 2) k--;
        for (j = 0; j < 2; j++) { v = 0; bad |= (uint32_t)try_read(cl.pMemory, at[i] + j, 1, &v); bad |= v ^ (kind[k] ? c_code[k % 4 + j] : c_ram[k % 3 + j]); }
        bad |= try_read(cl.pMemory, at[i] + 2, 1, &v) != busErrorException;
    }
    v_assert(!bad, "each alias shows the memory it redirects to");
    CrashDebugCommandLine_Uninit(&cl);
    v_assert(env_live == 0 && env_openFiles == 0, "everything is freed in the end");
}
