/* C30: the whole program. MODE 0: a debugging session; 1: bad command lines; 2: one failing operation or allocation */
#include "mri.h"
#include "cmd.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef ELF
#define ELF 0
#endif
#ifndef DUMP
#define DUMP 0
#endif
#ifndef IN
#define IN 2
#endif
#ifndef MAXOP
#define MAXOP 60
#endif
extern int crashdebug_main(int argc, const char** argv);
/* standard input and output of the process */
static char s_in[IN + 1], s_out[IN + 8]; static unsigned s_have, s_pos, s_sent; static int s_writeFails;
int env_select(int n, void* r, void* w, void* e, void* timeout) { if (s_pos >= s_have) { *(unsigned long*)r = 0; return 0; } return 1; }
typedef struct { int fd; short events, revents; } PollFd;
int env_poll(PollFd* p, unsigned long n, int timeout) { p->revents = s_pos < s_have ? p->events & 1 : 0; return p->revents != 0; }
long env_read(int fd, void* p, unsigned long n)
{
    v_assert(fd == 0 && n == 1, "one byte is read from the input of the process");
    if (s_pos >= s_have) return 0;
    *(char*)p = s_in[s_pos++];
    return 1;
}
long env_write(int fd, const void* p, unsigned long n)
{
    v_assert(fd == 1 && n == 1, "one byte is written to the output of the process");
    if (s_writeFails) return -1;
    if (s_sent < sizeof(s_out)) s_out[s_sent++] = *(const char*)p;
    return 1;
}
static uint32_t base; static int s_throw; static Buffer s_regs;
/* what a debugger does: registers, memory, then echo what GDB sends until that fails */
static void session(void)
{
    uint32_t i, bad = 0;
    if (env_failedOp == ENV_GETS) { if (mri_runs == 2) __throw(fileException); return; }       /* known finding of C20 */
    v_assert(env_openFiles == 0 && env_errLen == 0 && env_outLen == 0 && s_sent == 0, "nothing is printed before the session");
    v_assert(Platform_CommIsWaitingForGdbToConnect() == (s_have == 0), "GDB is waited for until it sends something");
    s_regs.n = 0;
    Platform_CopyContextToBuffer(&s_regs);
    for (i = 0; i < TOTAL_REG_COUNT && 4 * i + 3 < s_regs.n; i++)
        if (c_known >> i & 1)
            bad |= (s_regs.byte[4 * i] | (uint32_t)s_regs.byte[4 * i + 1] << 8 | (uint32_t)s_regs.byte[4 * i + 2] << 16 | (uint32_t)s_regs.byte[4 * i + 3] << 24) ^ c_R[i];
    v_assert(!bad && s_regs.n == 4 * TOTAL_REG_COUNT, "the debugger sees the registers of the dump");
    for (i = 0; i < C_IMG; i++) bad |= (uint32_t)Platform_MemRead8((const void*)(size_t)(base + i)) ^ c_code[i];
    for (i = 0; i < C_MEM; i++) bad |= (uint32_t)Platform_MemRead8((const void*)(size_t)(C_RAM + i)) ^ c_ram[i];
    v_assert(!bad && !Platform_WasMemoryFaultEncountered(), "the debugger sees the memory of the image and the dump");
    Platform_MemWrite8((void*)(size_t)base, 0);
    v_assert(Platform_WasMemoryFaultEncountered() && Platform_MemRead8((const void*)(size_t)base) == c_code[0], "the program cannot be written");
    Platform_MemWrite8((void*)(size_t)C_RAM, 0x5A);
    v_assert(!Platform_WasMemoryFaultEncountered() && Platform_MemRead8((const void*)(size_t)C_RAM) == 0x5A, "the memory of the dump can be written");
    Platform_MemWrite8((void*)(size_t)C_RAM, c_ram[0]);
    if (mri_runs < 2) return;                    /* the debugger is entered again */
    v_cover("session");
    if (s_throw) __throw(s_throw);
    for (;;) Platform_CommSendChar(Platform_CommReceiveChar());
}
static char want[64];
static const char* unexpected(int code)
{
    unsigned i = 30;
    strcpy(want, "Encountered unexpected error: ");
    if (code > 9) want[i++] = (char)('0' + code / 10);
    want[i++] = (char)('0' + code % 10); want[i++] = '\n'; want[i] = 0;
    return want;
}
void vf_main(void)
{
    const char* argv[12]; int argc = 0, ret; unsigned i;
    base = 0x1000;
    c_makeImage(ELF, base); c_makeDump(DUMP);
    mri_onRun = session;
    argv[argc++] = "CrashDebug";
    argv[argc++] = ELF ? "--elf" : "--bin"; argv[argc++] = "img"; if (!ELF) argv[argc++] = "0x1000";
    argv[argc++] = "--dump"; argv[argc++] = "dump";
#if MODE == 0
    s_have = nd_pick(IN + 1);
    for (i = 0; i < s_have; i++) s_in[i] = (char)nd_u8();
    s_writeFails = (int)nd_pick(2);
    s_throw = (int)nd_pick(40);
    ret = crashdebug_main(argc, argv);
    v_assert(mri_inits == 1 && mri_runs == 2, "the debugger runs until the link fails");
    v_assert(ret != 0, "the exit status tells of the failure that ended the session");
    if (s_throw)
    {
        v_assert(s_sent == 0 && s_pos == 0, "nothing else is read or written");
        if (s_throw == fileException || s_throw == elfFormatException || s_throw == invalidArgumentException) v_assert(env_errLen == 0, "nothing is printed");
        else
        {
            v_assert(0 == strcmp(env_err, unexpected(s_throw)), "an unexpected failure is named by its number");
            v_cover("unexpected");
        }
    }
    else
    {
        unsigned bad = 0, n = s_writeFails ? 0 : s_have;
        v_assert(s_sent == n, "everything received is answered");
        for (i = 0; i < n; i++) bad |= (unsigned)(s_out[i] ^ s_in[i]);
        v_assert(!bad && s_pos == (s_writeFails && s_have ? 1 : s_have), "input and output are not mixed up");
        v_assert(env_errLen == 0 && env_outLen == 0, "the end of the input, or a failing output, ends the session without a word");
        v_cover("end of input");
    }
#elif MODE == 1
    {
        unsigned k = nd_pick(6), j;
        switch (k)
        {
        case 0: argc = 1; break;                                     /* nothing */
        case 1: argc = 1 + (int)nd_pick((uint32_t)(argc - 1)); break;  /* cut short */
        case 2: argv[argc - 1] = "nosuch"; break;
        case 3: argv[2] = "nosuch"; break;
        case 4: argv[argc++] = "--what"; break;
        default: for (j = 0; j + 1 < 6; j++) argv[j + 1 - 1] = argv[j]; argv[1] = "dump"; break;
        }
        ret = crashdebug_main(argc, argv);
        v_assert(ret != 0 && mri_inits == 0 && mri_runs == 0, "a bad command line starts no session and is told by the exit status");
        v_assert(c_complained() && !strstr(env_err, "unexpected"), "a bad command line is explained: error, copyright notice and usage");
        v_cover("refused");
    }
#else
    {
        uint32_t kind = nd_pick(4), n = 1 + nd_pick(MAXOP); int hit;
        if (kind == 0) env_failOp = n; else if (kind == 1) env_failAlloc = n; else if (kind == 2) env_failAllocUp = n; else if (n != 1) v_stop();
        ret = crashdebug_main(argc, argv);
        hit = kind == 0 ? env_ops >= n : kind == 3 ? 0 : env_allocs >= n;
        v_assert(ret != 0, "the exit status tells of the failure");
        if (hit && !(kind == 0 && env_failedOp == ENV_GETS))
        {
            v_assert(mri_runs == 0, "after a failure no session starts");
            v_assert(c_complained(), "a failure is explained: error, copyright notice and usage");
            if (kind) v_assert(strstr(env_err, unexpected(outOfMemoryException)) != NULL, "running out of memory is named as unexpected");
            v_cover("failure");
        }
        else if (!hit) { v_assert(mri_runs == 2 && env_errLen == 0, "without a failure the session runs"); v_cover("no failure"); }
    }
#endif
    v_assert(env_openFiles == 0 && env_live == 0, "files are closed and memory is freed in the end");
    v_assert(g_pExceptionHandlers == NULL, "no handler is left behind");
    v_observe("ret", (uint64_t)(ret != 0));
}
