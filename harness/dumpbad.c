/* Damaged dumps (C14).  KIND 0: cut anywhere; 1: any signature; 2: stack overflow sentinel after NR regions; 3: a region that cannot be
   loaded (already taken by read-only memory, or no memory for it); 4: (hex) one character replaced by any other, or one more anywhere; 5: no such file. */
#include "ref.h"
#include <CrashCatcherDump.h>
#ifndef VER
#define VER 3
#endif
#ifndef FP
#define FP 0
#endif
#ifndef NR
#define NR 1
#endif
#ifndef HEX
#define HEX 0
#endif
#ifndef KIND
#define KIND 0
#endif
#define MAXB 3
#define NI (VER == 3 ? 19 : 17)
#define HEAD (4 + 4 + NI * 4 + 4 + (FP ? 33 * 4 : 0))
#define LEN (HEAD + NR * (8 + MAXB) + 4)
static uint8_t raw[LEN];
static char text[2 * LEN];
static RegisterContext ctx;
static IMemory* m;
static void put(uint32_t o, uint32_t v) { raw[o] = (uint8_t)v; raw[o + 1] = (uint8_t)(v >> 8); raw[o + 2] = (uint8_t)(v >> 16); raw[o + 3] = (uint8_t)(v >> 24); }
static void hex8(char* s, uint32_t v) { int i; for (i = 0; i < 8; i++) { uint32_t x = (v >> (28 - 4 * i)) & 15; s[i] = (char)(x + '0' + (x > 9) * 7); } }
static int same(const char* want)
{
    const char* got = getExceptionMessage(); uint32_t i = 0, bad = 0;
    do bad |= (uint8_t)got[i] ^ (uint8_t)want[i]; while (want[i++]);
    return bad == 0;
}
static int run(const char* name)
{
    int code;
#if HEX
    CATCH(code, CrashCatcherDump_ReadHex(m, &ctx, name));
#else
    CATCH(code, CrashCatcherDump_ReadBinary(m, &ctx, name));
#endif
    return code;
}
void vf_main(void)
{
    uint32_t i, n = HEAD, start = 0x20000000, end = 0, len; int code;
    char region[] = "The dump file failed to load RAM memory region at 0x00000000 - 0x00000000.";
    raw[0] = 0x63; raw[1] = 0x43; raw[2] = VER; raw[3] = 0;
    for (i = 8; i < HEAD; i++) raw[i] = HEX ? (uint8_t)i : nd_u8();
    raw[4] = FP; 
    m = MemorySim_Init();
#if KIND == 3 || (KIND == 0 && !HEX)
    start = nd_u32();
    v_assume(start < 0xFFFF0000);
#endif
    for (i = 0; i < NR; i++)
    {
        uint32_t k;
        end = start + i * 0x100 + MAXB;
        put(n, start + i * 0x100); put(n + 4, end); n += 8;
        for (k = 0; k < MAXB; k++) raw[n++] = HEX ? (uint8_t)k : nd_u8();
    }
#if KIND == 2
    put(n, 0xACCE55ED); n += 4;
    v_cover("sentinel");
#endif
    len = n;
#if KIND == 0
    len = nd_pick(n + 1);
#elif KIND == 1
    for (i = 0; i < 4; i++) raw[i] = nd_u8();
#endif
    env_files[0].name = "d"; env_files[0].data = raw; env_files[0].size = len;
#if HEX
    for (i = 0; i < n; i++) { text[2 * i] = "0123456789ABCDEF"[raw[i] >> 4]; text[2 * i + 1] = "0123456789abcdef"[raw[i] & 15]; }
    env_files[0].data = (const uint8_t*)text; env_files[0].size = 2 * len;
#if KIND == 0
    if (nd_pick(2) && len < n) env_files[0].size++;      /* half a byte more is no byte */
#endif
#endif
    hex8(region + 52, start + (NR - 1) * 0x100); hex8(region + 65, end);
#if KIND == 0
    {
        const char* want = 0; int sentinel = 0;
        code = run("d");
        if (len < 4) want = "The dump file was too short to contain the 4-byte signature.";
        else if (len < 8) want = "The dump file was too short to contain the flags.";
        else if (len < 8 + NI * 4) want = "The dump file was too short to contain the integer registers.";
        else if (len < 12 + NI * 4) want = "The dump file was too short to contain the exception PSR.";
        else if (len < HEAD) want = "The dump file was too short to contain the floating point registers.";
        else
        {
            uint32_t at = len - HEAD, in = at % (8 + MAXB), k = at / (8 + MAXB);
            if (in == 4 && v_concrete(start + k * 0x100 == 0xACCE55ED)) { sentinel = 1; want = "The dump file ended with an indication that CrashCatcher detected a stack overflow."; v_cover("cut down to a sentinel"); }
            else if (in > 0 && in < 8) want = "The dump file contained a truncated memory region header.";
            else if (in >= 8)
            {
                hex8(region + 52, start + k * 0x100); hex8(region + 65, start + k * 0x100 + MAXB);
                want = region;
            }
        }
        if (want)
        {
            v_assert(code == (sentinel ? stackOverflowException : fileFormatException), "a truncated dump is a file format exception");
            v_assert(same(want), "the message says where the dump is truncated");
            v_cover("truncated");
        }
        else { v_assert(code == 0, "a dump cut between regions is complete"); v_cover("complete"); }
    }
#elif KIND == 1
    {
        uint32_t good = (raw[0] == 0x63) & (raw[1] == 0x43) & (raw[2] == VER) & (raw[3] == 0), other = (raw[0] == 0x63) & (raw[1] == 0x43) & (raw[2] == 5 - VER) & (raw[3] == 0);
        code = run("d");
        if (good) { v_assert(code == 0, "a good signature is accepted"); v_cover("good signature"); }
        else if (!other)
        {
            v_assert(code == fileFormatException, "a bad signature is a file format exception");
            v_assert(same("The dump file didn't start with the expected 4-byte signature."), "the message names the signature");
            v_assert(env_allocs == 0, "nothing is loaded from a file with a bad signature");
            v_cover("bad signature");
        }
    }
#elif KIND == 2
    code = run("d");
    v_assert(code == stackOverflowException, "the sentinel is a stack overflow exception");
    v_assert(same("The dump file ended with an indication that CrashCatcher detected a stack overflow."), "the message names the stack overflow");
#elif KIND == 3
    if (nd_pick(2))
    {
        uint32_t b = start - nd_u8(), s = nd_u8();
        v_assert(try_create(m, b, s) == 0, "a region can be created");
        v_assume((b <= start) & (b + s > start));
        v_assert(try_readonly(m, start) == 0, "a region can be made read-only");
        code = run("d");
        v_assert(code == busErrorException, "a dump over read-only memory is a bus error");
        v_cover("over read-only memory");
    }
    else
    {
        env_failAlloc = env_allocs + 1 + nd_pick(2);
        code = run("d");
        v_assert(code == outOfMemoryException, "no memory for a region is an out of memory exception");
        v_cover("no memory");
    }
    v_assert(same(region), "the message names the region");
#elif KIND == 4
    {
        uint32_t at = nd_pick(2 * n), c = nd_u8(), k;
        v_assume(!(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')) | (c == '\r') | (c == '\n')));
        if (nd_pick(2))
        {
            for (k = 2 * n; k > at; k--) text[k] = text[k - 1];
            env_files[0].size++;
            v_cover("one character more");
        }
        text[at] = (char)c;
        code = run("d");
        v_assert(code == fileFormatException, "a character that is no hex digit is a file format exception");
        v_assert(getExceptionMessage()[0] != '\0', "a character that is no hex digit is explained");
        v_cover("bad digit");
    }
#elif KIND == 6
    {   /* a region that ends before it starts, or is longer than memory */
        uint32_t e = nd_u32();
        v_assume((uint32_t)(e - start) > 0x100000);
        env_maxAlloc = 0x100000;
        put(HEAD + 4, e);
        hex8(region + 52, start); hex8(region + 65, e);
        code = run("d");
        v_assert(code == outOfMemoryException, "a region too large for memory is an out of memory exception");
        v_assert(same(region), "the message names the region");
        v_cover("huge region");
    }
#else
    code = run("e");
    v_assert(code == fileException, "a missing file is a file exception");
    v_assert(same("Failed to open the \"e\" dump file."), "the message names the file");
    v_cover("no file");
#endif
    v_assert(env_openFiles == 0, "the dump file is closed");
    MemorySim_Uninit(m);
    v_assert(env_live == 0, "every block is freed");
}
