/* C25: what GDB does to run the target never changes the dump; the link is used as given. */
#include "mri.h"
#include "ref.h"
#ifndef OPS
#define OPS 2
#endif
static RegisterContext ctx, was;
static int l_calls, l_sent, l_ret, l_stop; static IComm* l_self;
static int l_has(IComm* p) { v_assert(p == l_self, "the link given is used"); l_calls |= 1; return l_ret; }
static int l_recv(IComm* p) { v_assert(p == l_self, "the link given is used"); l_calls |= 2; if (l_ret == -5) __throw(fileException); return l_ret; }
static void l_send(IComm* p, int c) { v_assert(p == l_self, "the link given is used"); l_calls |= 4; l_sent = c; if (l_ret == -5) __throw(fileException); }
static int l_should(IComm* p) { v_assert(p == l_self, "the link given is used"); l_calls |= 8; return --l_stop <= 0; }
static int l_gdb(IComm* p) { v_assert(p == l_self, "the link given is used"); l_calls |= 16; return l_ret; }
static ICommVTable vt = { l_has, l_recv, l_send, l_should, l_gdb };
static IComm link_ = { &vt };
static void one(void)
{
    int code = 0, v = 0;
    uint32_t a = nd_u32(), b = nd_u32();
    PlatformWatchpointType t = (PlatformWatchpointType)(nd_u8() & 3);
    ExceptionHandler* const outer = g_pExceptionHandlers;
    l_calls = 0;
    switch (nd_pick(22))
    {
    case 0: CATCH(code, Platform_EnableSingleStep()); v_assert(!code && !Platform_IsSingleStepping(), "a dump is never single stepped"); break;
    case 1: CATCH(code, Platform_DisableSingleStep()); v_assert(!code, "requests to run are ignored quietly"); break;
    case 2: CATCH(code, Platform_SetProgramCounter(a)); v_assert(!code, "requests to run are ignored quietly"); break;
    case 3: CATCH(code, Platform_AdvanceProgramCounterToNextInstruction()); v_assert(!code, "requests to run are ignored quietly"); break;
    case 4: CATCH(code, Platform_SetHardwareBreakpoint(a, b)); v_assert(!code, "breakpoint requests are ignored quietly"); break;
    case 5: CATCH(code, Platform_ClearHardwareBreakpoint(a, b)); v_assert(!code, "breakpoint requests are ignored quietly"); break;
    case 6: CATCH(code, Platform_SetHardwareWatchpoint(a, b, t)); v_assert(!code, "breakpoint requests are ignored quietly"); break;
    case 7: CATCH(code, Platform_ClearHardwareWatchpoint(a, b, t)); v_assert(!code, "breakpoint requests are ignored quietly"); break;
    case 8: { PlatformSemihostParameters p; p = Platform_GetSemihostCallParameters();
              v_assert((p.parameter1 | p.parameter2 | p.parameter3 | p.parameter4) == 0, "semihost calls are ignored"); break; }
    case 9: CATCH(code, Platform_SetSemihostCallReturnAndErrnoValues((int)a, (int)b)); v_assert(!code, "semihost calls are ignored"); break;
    case 10: v_assert(!Semihost_IsDebuggeeMakingSemihostCall() && !Semihost_HandleSemihostRequest(), "semihost calls are ignored"); break;
    case 11: v_assert(Platform_TypeOfCurrentInstruction() == MRI_PLATFORM_INSTRUCTION_OTHER, "the current instruction is not interpreted"); break;
    case 12: v_assert(Platform_WasProgramCounterModifiedByUser(), "no instruction is skipped on resume"); break;
    case 13: CATCH(code, Platform_EnteringDebugger()); v_assert(!code && !Platform_IsSingleStepping(), "a dump is never single stepped"); break;
    case 14: CATCH(code, Platform_LeavingDebugger()); v_assert(!code, "requests to run are ignored quietly"); break;
    case 15: v_assert(!Platform_CommCausedInterrupt() && !Platform_CommSharingWithApplication(), "the link interrupts nothing");
             CATCH(code, Platform_CommClearInterrupt(); Platform_CommPrepareToWaitForGdbConnection(); Platform_CommWaitForReceiveDataToStop(); Platform_Init(NULL));
             v_assert(!code && !l_calls, "requests to run are ignored quietly"); break;
    case 16: l_ret = (int)a; CATCH(code, v = (int)Platform_CommHasReceiveData()); v_assert(!code && l_calls == 1 && v == l_ret, "pending input is that of the link"); v_cover("asked the link"); break;
    case 17: l_ret = (int)a; CATCH(code, v = Platform_CommReceiveChar());
             v_assert(l_calls == 2 && code == (l_ret == -5 ? fileException : 0) && (code || v == l_ret), "characters received, and failures, are those of the link"); v_cover("received"); break;
    case 18: l_ret = (int)a; CATCH(code, Platform_CommSendChar((int)b));
             v_assert(l_calls == 4 && l_sent == (int)b && code == (l_ret == -5 ? fileException : 0), "characters sent, and failures, are those of the link"); v_cover("sent"); break;
    case 19: l_ret = (int)a; CATCH(code, v = Platform_CommIsWaitingForGdbToConnect()); v_assert(!code && l_calls == 16 && (v != 0) == (l_ret == 0), "GDB is waited for until the link has it"); break;
    case 20: v_assert(Platform_CommShouldWaitForGdbConnect(), "GDB is waited for"); break;
    default: { char* p = Platform_GetPacketBuffer(); uint32_t n = Platform_GetPacketBufferSize();
               v_assert(p && n >= 2 * (4 * (TOTAL_REG_COUNT + TOTAL_FPREG_COUNT)) + 4, "the packet buffer holds a register packet");
               v_assert(v_readable(p, n), "the packet buffer is as long as it says");
               p[0] = 1; p[n - 1] = 2; v_cover("packet buffer used"); }
    }
    v_assert(g_pExceptionHandlers == outer, "no handler is left behind");
}
static unsigned wantRuns;
static void onRun(void)
{
#ifndef MANY
    uint32_t i;
    for (i = 0; i < OPS && mri_runs == 1; i++) one();
#endif
}
void vf_main(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t base = nd_u32(), val[2], v, bad = 0, *p = (uint32_t*)(void*)&ctx, *q = (uint32_t*)(void*)&was; int code; unsigned i, n = sizeof(ctx) / 4;
    v_assume(base <= 0xFFFFFFF8u);
    v_assume(try_create(m, base, 8) == 0);
    for (i = 0; i < 2; i++) { val[i] = nd_u32(); v_assume(try_write(m, base + 4 * i, 4, val[i]) == 0); }
    for (i = 0; i < n; i++) p[i] = q[i] = nd_u32();
    l_self = &link_;
    CATCH(code, mriPlatform_Init(&ctx, m));
    v_assert(code == 0 && mri_inits == 1, "mri is initialized once");
#ifdef MANY                                              /* a long session, in which only the link is used */
    l_stop = (int)(wantRuns = nd_pick(2) ? 256 : 65536);
#else
    l_stop = (int)(wantRuns = 1 + nd_pick(3));
#endif
    mri_onRun = onRun;
    CATCH(code, mriPlatform_Run(&link_));
    v_assert(code == 0 && mri_runs == wantRuns, "the debugger runs until the link says stop");
    for (i = 0; i < n; i++) bad |= p[i] ^ q[i];
    v_assert(!bad, "registers change only by register packets");
    for (i = 0; i < 2; i++) { v = 0; bad |= (uint32_t)try_read(m, base + 4 * i, 4, &v); bad |= v ^ val[i]; }
    v_assert(!bad, "memory changes only by memory writes");
    for (i = 0; i < 8; i++)
    {
        bad |= (uint32_t)try_read(m, base + i, 1, &v);
        bad |= (uint32_t)try_write(m, base + i, 1, v);
        if (!(i & 1)) bad |= (uint32_t)try_read(m, base + i, 2, &v);
    }
    v_assert(!bad, "memory accesses hit no breakpoint");
    v_assert(!MemorySim_WasWatchpointEncountered(m), "memory accesses trigger nothing");
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "nothing is left behind");
    v_observe("runs", mri_runs);
}
