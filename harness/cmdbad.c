/* C19: any argument list of up to NARG words, one of them of free characters, against a model of the grammar. */
#include "cmd.h"
#ifndef NARG
#define NARG 4
#endif
#ifndef FREE
#define FREE 0            /* 1: a correct list with one word replaced by FREELEN free characters */
#endif
#ifndef FREELEN
#define FREELEN 5
#endif
static CrashDebugCommandLine cl;
static char freeWord[16];
static int is(const char* p, const char* name)
{
    unsigned i, bad = 0, l = strlen(p);
    if (l != strlen(name)) return 0;
    for (i = 0; i < l; i++) { unsigned c = (uint8_t)p[i]; c = ref_sel(c - 'A' < 26, c + 32, c); bad |= c ^ (uint8_t)name[i]; }
    return (int)v_concrete(!bad);
}
void vf_main(void)
{
    static const char* const words[] = { "--bin", "--elf", "--dump", "--alias", "img", "dump", "x", "--", "-dump", "" };
    const char* argv[16]; const char* elf = NULL; const char* bin = NULL; const char* dump = NULL;
    int argc, i, code, bad = 0, alias = 0;
#if FREE == 2
    {   /* a correct list with free characters put before, into or after an option */
        static const char* const good[2][9] = { { "--bin", "img", "0x1000", "--dump", "dump" }, { "--elf", "img", "--dump", "dump", "--alias", "0x80", "1", "0x1000" } };
        unsigned list = nd_pick(2), at = nd_pick(list ? 3 : 2), j, n = 0, len, skip, add; const char* w;
        argc = list ? 8 : 5;
        for (i = 0; i < argc; i++) argv[i] = good[list][i];
        at = at == 0 ? 0 : at == 2 ? 4 : list ? 2 : 3;
        w = argv[at]; len = strlen(w);
        j = nd_pick(len + 1); skip = nd_pick(2); add = nd_pick(3);
        for (i = 0; i < (int)j; i++) freeWord[n++] = w[i];
        for (i = 0; i < (int)add; i++) { freeWord[n] = (char)nd_u8(); v_assume(freeWord[n] != 0); n++; }
        for (i = (int)(j + skip); i < (int)len; i++) freeWord[n++] = w[i];
        argv[at] = freeWord;
    }
#elif FREE
    {   /* a correct list with one word replaced by free characters */
        static const char* const good[] = { "--elf", "img", "--dump", "dump" };
        unsigned j, at = nd_pick(4);
        argc = NARG;
        for (i = 0; i < NARG; i++) argv[i] = good[i];
        for (j = 0; j < FREELEN; j++) { freeWord[j] = (char)nd_u8(); v_assume(freeWord[j] != 0); }
        argv[at] = freeWord;
    }
#else
    argc = (int)nd_pick(NARG + 1);
    for (i = 0; i < argc; i++) argv[i] = words[nd_pick(10)];
#endif
    argv[argc] = NULL;
    c_makeImage(1, 0x1000); c_makeDump(2);
    /* the grammar */
    for (i = 0; i < argc && !bad;)
    {
        int left = argc - i - 1;
        if (is(argv[i], "--bin")) { if (left < 2) bad = 1; else bin = argv[i + 1]; i += 3; }
        else if (is(argv[i], "--elf")) { if (left < 1) bad = 1; else elf = argv[i + 1]; i += 2; }
        else if (is(argv[i], "--dump")) { if (left < 1) bad = 1; else dump = argv[i + 1]; i += 2; }
        else if (is(argv[i], "--alias")) { if (left < 3) bad = 1; else alias = 1; i += 4; }
        else bad = 1;
    }
    CATCH(code, CrashDebugCommandLine_Init(&cl, argc, argv));
    if (bad || (!elf && !bin) || !dump)
    {
        v_assert(code == invalidArgumentException, "what is not in the grammar, or incomplete, is an invalid argument");
        if (bad) v_cover("ungrammatical"); else v_cover("incomplete");
    }
    else
    {
        const char* image = elf ? elf : bin;
        int gi = is(image, "img"), gd = is(dump, "dump");
        if (elf && strcmp(elf, "dump") == 0) { v_assert(code == elfFormatException, "what is no ELF file is an ELF format error"); v_cover("no ELF file"); }
        else if (!gi && strcmp(image, "dump")) { v_assert(code == fileException, "an image that cannot be opened is a file error"); v_cover("no image"); }
        else if (!gd && strcmp(dump, "img")) { v_assert(code == fileException, "a dump that cannot be opened is a file error"); v_cover("no dump"); }
        else if (!alias && gd) { v_assert(code == 0, "a correct command line is accepted"); v_cover("accepted"); }
    }
    if (code)
    {
        v_assert(c_explained(), "a rejected command line is explained: error, copyright notice and usage");
        v_assert(cl.pMemory == NULL, "no memory is left behind by a rejected command line");
    }
    else v_assert(env_errLen == 0 && env_outLen == 0, "an accepted command line prints nothing");
    v_assert(env_openFiles == 0, "every file is closed");
    CrashDebugCommandLine_Uninit(&cl);
    v_assert(env_live == 0 && g_pExceptionHandlers == NULL, "everything is freed in the end");
    v_observe("code", (uint64_t)code);
}
