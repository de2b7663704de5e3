/* CrashCatcher dumps (C12 binary, C13 hex).  VER 2 or 3, any flags, registers and NR memory regions of any place and up to MAXB bytes.
   HEX 0: binary; 1..3: hex text whose digits are all 0-9, a-f or A-F; 4: one free hex digit anywhere, 5: line ends anywhere. */
#include "ref.h"
#include <CrashCatcherDump.h>
#ifndef VER
#define VER 3
#endif
#ifndef FP
#define FP 1
#endif
#ifndef NR
#define NR 1
#endif
#ifndef MAXB
#define MAXB 3
#endif
#ifndef FIXED
#define FIXED 0
#endif
#ifndef HEX
#define HEX 0
#endif
#define NI (VER == 3 ? 19 : 17)
#define HEAD (4 + 4 + NI * 4 + 4 + (FP ? 33 * 4 : 0))
#define LEN (HEAD + NR * (8 + MAXB))
static uint8_t raw[LEN];
static char text[2 * LEN + 8];
static RegisterContext ctx, before;
static IMemory* m;
static uint32_t le(uint32_t o) { return raw[o] | ((uint32_t)raw[o + 1] << 8) | ((uint32_t)raw[o + 2] << 16) | ((uint32_t)raw[o + 3] << 24); }
static void put(uint32_t o, uint32_t v) { raw[o] = (uint8_t)v; raw[o + 1] = (uint8_t)(v >> 8); raw[o + 2] = (uint8_t)(v >> 16); raw[o + 3] = (uint8_t)(v >> 24); }
static uint32_t digit(uint32_t n) { return HEX == 3 ? n + 'A' - 10 : HEX == 2 ? n + 'a' - 10 : HEX == 1 ? n + '0' : ref_sel(n < 10, n + '0', n + 'A' - 10); }
static uint32_t ok(uint32_t n) { return HEX == 1 ? n < 10 : HEX == 2 || HEX == 3 ? n >= 10 : 1; }
void vf_main(void)
{
    uint32_t i, n = HEAD, start[NR], size[NR], data[NR], bad = 0, flags, owner, off, w, addr, r = 0, p; int code;
    raw[0] = 0x63; raw[1] = 0x43; raw[2] = VER; raw[3] = 0;
    flags = FP ? nd_u32() | 1 : nd_u32() & ~1u;
    put(4, flags);
    for (i = 8; i < HEAD; i++) raw[i] = HEX >= 4 ? (uint8_t)(i * 37 + 11) : nd_u8();
    if (HEX >= 4) put(4, flags = 0x12345600 | FP);
    for (i = 0; i < NR; i++)
    {
        uint32_t k, j;
        start[i] = HEX >= 4 || FIXED ? 0x20000000 + i * 0x100 : nd_u32(); size[i] = HEX ? MAXB - i : FIXED ? MAXB : nd_pick(MAXB + 1);
        v_assume((uint64_t)start[i] + size[i] <= 0xFFFFFFFFu);
        for (j = 0; j < i; j++) v_assume((start[i] + size[i] <= start[j]) | (start[j] + size[j] <= start[i]));
        put(n, start[i]); put(n + 4, start[i] + size[i]); n += 8;
        data[i] = n;
        for (k = 0; k < size[i]; k++) raw[n++] = HEX >= 4 ? (uint8_t)(0x5A + k * 0x3B) : nd_u8();
    }
    env_files[0].name = "d"; env_files[0].data = raw; env_files[0].size = n;
#if HEX
    for (i = HEX == 1 ? 4 : 8; i < n; i++) v_assume(ok(raw[i] >> 4) & ok(raw[i] & 15));
    for (i = 0; i < n; i++)
    {
        text[2 * i] = (i >= 8 || HEX == 1) ? (char)digit(raw[i] >> 4) : "0123456789abcdef"[raw[i] >> 4];
        text[2 * i + 1] = (i >= 8 || HEX == 1) ? (char)digit(raw[i] & 15) : "0123456789abcdef"[raw[i] & 15];
    }
    p = 2 * n;
#if HEX == 4
    {   /* one free digit, anywhere but in the signature, the FP flag and the region bounds */
        uint32_t at = nd_pick(2 * n), c = nd_u8(), v = c - '0', k;
        for (k = 0; k < NR; k++) v_assume((at < 2 * (data[k] - 8)) | (at >= 2 * data[k]));
        v_assume((at >= 8) & (at != 9));
        v_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
        v = ref_sel(c <= '9', c - '0', ref_sel(c <= 'F', c - 'A' + 10, c - 'a' + 10)) & 15;
        text[at] = (char)c;
        raw[at >> 1] = (at & 1) ? (raw[at >> 1] & 0xF0) | v : (raw[at >> 1] & 0x0F) | (v << 4);
        flags = le(4);
        v_assume((flags & 1) == FP);
    }
#elif HEX == 5
    {   /* up to three line end characters at one place and one at another */
        uint32_t at = nd_pick(2 * n + 1), k = nd_pick(4), j;
        memmove(text + at + k, text + at, p - at);
        for (j = 0; j < k; j++) { uint8_t c = nd_u8(); v_assume((c == '\r') | (c == '\n')); text[at + j] = c; }
        p += k;
        text[p++] = '\n';
    }
#endif
    env_files[0].data = (const uint8_t*)text; env_files[0].size = p;
#endif
    for (i = 0; i < sizeof(ctx) / 4; i++) ((uint32_t*)&ctx)[i] = HEX >= 4 ? 0 : nd_u32();
    before = ctx;
    m = MemorySim_Init();
#if HEX
    CATCH(code, CrashCatcherDump_ReadHex(m, &ctx, "d"));
#else
    CATCH(code, CrashCatcherDump_ReadBinary(m, &ctx, "d"));
#endif
    v_assert(code == 0, "a well-formed dump is accepted");
    v_assert(env_openFiles == 0, "the dump file is closed");
    v_assert(ctx.flags == flags, "the flags are those of the dump");
    for (i = 0; i < NI; i++) bad |= ctx.R[i] ^ le(8 + 4 * i);
    v_assert(bad == 0, "every integer register holds the value in the dump");
#if VER == 2
    v_assert((ctx.R[MSP] == 0xBAADBAAD) & (ctx.R[PSP] == 0xBAADBAAD), "a version 2 dump leaves MSP and PSP marked as unknown");
#endif
    v_assert(ctx.exceptionPSR == le(8 + 4 * NI), "the exception PSR is that of the dump");
    for (i = 0; i < 33; i++) bad |= ctx.FPR[i] ^ (FP ? le(12 + 4 * NI + 4 * i) : before.FPR[i]);
    v_assert(bad == 0, "floating point registers hold the values in the dump, when it has them");
    for (i = 0; i < NR; i++) ref_region(start[i], size[i]);
#if FIXED
    for (i = 0; i < NR; i++)
    {
        uint32_t k;
        for (k = 0; k < size[i]; k++) { bad |= try_read(m, start[i] + k, 1, &r); bad |= r ^ raw[data[i] + k]; }
    }
    v_assert(bad == 0, "memory holds all the bytes in the dump");
    MemorySim_Uninit(m);
    return;
#endif
    w = HEX ? 1 : nd_width(); addr = nd_access(w, &owner, &off);
    code = try_read(m, addr, w, &r);
    if (!FIXED) v_assert((code == 0) == (owner != REF_NONE), "exactly the regions in the dump are mapped");
    if (code == 0)
    {
        uint32_t at = 0;
        for (i = 0; i < NR; i++) at = ref_sel(owner == i, data[i] + off, at);
        for (i = 0; i < w; i++) bad |= ((r >> (8 * i)) & 0xFF) ^ raw[at + i];
        if (NR && !FIXED) v_assert(bad == 0, "memory holds the bytes in the dump");
        if (NR && !FIXED) v_assert(try_write(m, addr, w, 0) == 0, "dumped memory is writable");
        if (NR && !FIXED) v_cover("memory read");
    }
    MemorySim_Uninit(m);
    if (!FIXED) v_assert(env_live == 0, "every block is freed");
}
