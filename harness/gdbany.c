/* GDB logs: any text (C17).  A fixed PRE (0: nothing, 1: an address, 2: an integer register, 3: a float register, 4: a line longer than the line buffer)
   followed by LEN free characters; then a normal memory line.  Nothing outside the text is read, the parse ends, the normal line is
   loaded, and a tail without digits adds nothing. */
#include "ref.h"
#include <GdbLogParser.h>
#ifndef PRE
#define PRE 0
#endif
#ifndef LEN
#define LEN 4
#endif
static char text[1400];
static uint32_t n;
static RegisterContext ctx, before;
static void put(const char* s) { while (*s) text[n++] = *s++; }
void vf_main(void)
{
    uint32_t i, r = 0, digits = 0, plain, bad = 0, got = 0, start; int code;
    uint8_t* blob;
    IMemory* m = MemorySim_Init();
    for (i = 0; i < sizeof(ctx) / 4; i++) ((uint32_t*)&ctx)[i] = i;
    before = ctx; before.R[MSP] = before.R[PSP] = 0xBAADBAAD;
#if PRE == 1
    put("0x20000000:");
#elif PRE == 2
    put("r5             ");
#elif PRE == 3
    put("s5             ");
#elif PRE == 4
    { uint32_t k = 1020 + nd_pick(8); while (n < k) text[n++] = 'x'; }
#elif PRE == 5
    put("0x20000000 <");
#elif PRE == 6
    put("s5             1\t(raw ");
#endif
    start = n;
    for (i = 0; i < LEN; i++)
    {
        uint32_t c = nd_u8();
#if PRE
        v_assume(c != '\n');
#endif
        v_assume(c != 0);
        digits += (c >= '0') & (c <= '9');
        text[n++] = (char)c;
    }
    plain = digits == 0;
    if (nd_pick(2))
    {   /* the free text ends the file */
        v_cover("end of file");
        blob = v_sys_malloc(n); memcpy(blob, text, n);
        env_files[0].name = "log"; env_files[0].data = blob; env_files[0].size = n;
        CATCH(code, GdbLogParse(m, &ctx, "log"));
        v_assert(code == 0, "any text is accepted");
    }
    else
    {
        put("\n0x30000000:\t0x12345678\n");
        blob = v_sys_malloc(n); memcpy(blob, text, n);
        env_files[0].name = "log"; env_files[0].data = blob; env_files[0].size = n;
        CATCH(code, GdbLogParse(m, &ctx, "log"));
        v_assert(code == 0, "any text is accepted");
        v_assert(try_read(m, 0x30000000, 4, &r) == 0, "the memory line after the free text is loaded");
        v_assert(r == 0x12345678, "the memory line after the free text has its value");
        v_assert(try_read(m, 0x30000004, 1, &r) != 0, "and no more than that");
        v_cover("normal line");
    }
    v_assert(env_openFiles == 0, "the log file is closed");
#if PRE == 1 || PRE == 5
    got = try_read(m, 0x20000000, 1, &r) == 0;
    if (plain) { v_assert(!got, "an address line without values maps nothing"); v_cover("no values"); }
    else if (got) v_cover("values");
    v_assert(try_read(m, 0x20000000 + 4 * ref_sel(digits > 4, 4, digits), 1, &r) != 0, "no more words than there are numbers");
#elif PRE == 2
    before.R[5] = ctx.R[5];
#elif PRE == 3 || PRE == 6
    before.FPR[5] = ctx.FPR[5]; before.flags |= 1;
#endif
    for (i = 0; i < sizeof(ctx) / 4; i++) bad |= ((uint32_t*)&ctx)[i] ^ ((uint32_t*)&before)[i];
    v_assert(bad == 0, "registers that are not named are untouched");
    v_sys_free(blob);
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}
