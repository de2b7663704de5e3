/* C26: the stdin/stdout link to GDB, on top of select, read and write with free results. */
#include "env.h"
#include "ref.h"
#include <StandardIComm.h>
#include <Console.h>
#ifndef STEPS
#define STEPS 3
#endif
/* the operating system */
static int s_mode, s_ready; static long s_result; static char s_byte, s_sent; static unsigned s_calls, s_bad;
static int m_connected;
int env_select(int n, void* r, void* w, void* e, void* timeout)
{
    long* t = (long*)timeout;
    s_calls++;
    v_assert(n >= 1 && r && (!w || !*(unsigned long*)w) && (!e || !*(unsigned long*)e), "only the input of the process is polled");
    v_assert((*(unsigned long*)r & 1) == 1, "only the input of the process is polled");
    v_assert(t && t[0] == 0 && t[1] == 0, "polling does not wait");
    if (s_ready == 0) *(unsigned long*)r = 0;
    return s_ready;
}
/* the same by poll() */
typedef struct { int fd; short events, revents; } PollFd;
int env_poll(PollFd* p, unsigned long n, int timeout)
{
    s_calls++;
    v_assert(n == 1 && p->fd == 0 && (p->events & 1) && timeout == 0, "only the input of the process is polled, without waiting");
    p->revents = s_ready > 0;
    return s_ready;
}
long env_read(int fd, void* p, unsigned long n)
{
    s_calls++;
    v_assert(fd == 0 && n == 1, "one byte of the input of the process is read");
    if (s_result > 0) *(char*)p = s_byte;
    return s_result;
}
long env_write(int fd, const void* p, unsigned long n)
{
    s_calls++;
    v_assert(fd == 1 && n == 1, "one byte is written to the output of the process");
    s_sent = *(const char*)p;
    return s_result;
}
void vf_main(void)
{
    IComm* p = StandardIComm_Init();
    unsigned i; int code, v = 0;
    v_assert(p != NULL, "there is a link");
#ifdef MANY
    unsigned n = nd_pick(2) ? 256 : 65536; uint32_t bad = 0; uint8_t last = nd_u8();
    s_ready = 0;
    for (i = 0; i < n; i++)
    {
        s_result = 1; s_byte = (char)(i + 1 == n ? last : (uint8_t)i);
        s_calls = 0;
        CATCH(code, v = IComm_ReceiveChar(p));
        bad |= (uint32_t)code; bad |= s_calls != 1; bad |= (uint8_t)v ^ (uint8_t)s_byte;
        CATCH(code, IComm_SendChar(p, s_byte));
        bad |= (uint32_t)code; bad |= s_calls != 2; bad |= s_sent != s_byte;
    }
    v_assert(!bad, "every byte is passed on once, however many there are");
    CATCH(code, v = IComm_IsGdbConnected(p));
    v_assert(code == 0 && v, "GDB is there once it has sent something");
    CATCH(code, v = IComm_HasReceiveData(p));
    v_assert(code == 0 && !v, "data is reported exactly when the input has some");
    s_result = 0;
    CATCH(code, v = IComm_ReceiveChar(p));
    v_assert(code == fileException, "end or failure of the input is a file exception");
    v_cover("long session");
#else
    for (i = 0; i < STEPS; i++)
    {
        unsigned op = nd_pick(7);
        s_calls = 0;
        s_ready = (int)nd_pick(3) - 1;                   /* -1: select fails */
        s_byte = (char)nd_u8();
        v = -1000;
        if (op == 0)
        {
            CATCH(code, v = IComm_HasReceiveData(p));
            v_assert(code == 0 && (v != 0) == (s_ready == 1), "data is reported exactly when the input has some");
            v_cover("asked for data");
        }
        else if (op == 1)
        {
            s_result = (long)nd_pick(3) - 1;              /* 0: end of input, -1: error */
            CATCH(code, v = IComm_ReceiveChar(p));
            v_assert(s_calls == 1, "one byte is taken from the input");
            if (s_result == 1)
            {
                v_assert(code == 0 && (uint8_t)v == (uint8_t)s_byte, "the byte received is the next one of the input");
                m_connected = 1;
                v_cover("received");
            }
            else
            {
                v_assert(code == fileException, "end or failure of the input is a file exception");
                v_cover("end of input");
            }
        }
        else if (op == 2)
        {
            int c = (int)nd_u32();
            s_result = nd_pick(2) ? 1 : -1;
            CATCH(code, IComm_SendChar(p, c));
            v_assert(s_calls == 1 && s_sent == (char)c, "the byte sent is written to the output");
            v_assert(code == (s_result == 1 ? 0 : fileException), "a failing write, and nothing else, is a file exception");
            v_cover("sent");
        }
        else if (op == 3)
        {
            CATCH(code, v = IComm_IsGdbConnected(p));
            v_assert(code == 0 && (v != 0) == (m_connected || s_ready == 1), "GDB is there once it has sent something");
            v_cover("asked for GDB");
        }
        else if (op == 4)
        {
            CATCH(code, v = IComm_ShouldStopRun(p));
            v_assert(code == 0 && v == 0 && s_calls == 0, "the link never ends the session");
        }
        else if (op == 5)
        {
            StandardIComm_Uninit(p);
            p = StandardIComm_Init();
            m_connected = 0;
        }
        else
        {
            /* a poll that fails inside a block whose exception is handled elsewhere */
            CATCH(code, v = Console_HasStdInDataToRead());
            v_assert(code == (s_ready < 0 ? fileException : 0), "a failing poll is a file exception of the console");
            v_assert(s_ready < 0 || (v != 0) == s_ready, "the console reports pending input");
            v_cover("polled");
        }
        v_assert(g_pExceptionHandlers == NULL && getExceptionCode() == 0, "no exception and no handler is left behind");
        v_observe("v", (uint64_t)(v != 0));
    }
#endif
}
