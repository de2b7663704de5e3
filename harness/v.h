/* Harness primitives: symbolic under CBMC, read from a recorded assignment when replayed natively. */
#ifndef V_H_
#define V_H_
#include <stddef.h>
#include <stdint.h>
uint8_t  nd_u8(void);
uint16_t nd_u16(void);
uint32_t nd_u32(void);
uint64_t nd_u64(void);
void v_assume(int c);
void v_assert(int c, const char* msg);
void v_cover(const char* msg);
void v_observe(const char* what, uint64_t value);   /* part of the trace compared with the native run */
uint64_t v_concrete(uint64_t x);                    /* one path per feasible value */
void v_stop(void);
void* v_sys_malloc(size_t n);
void* v_sys_bytes(size_t n);
void* v_sys_realloc(void* p, size_t n);
void  v_sys_free(void* p);
int   v_readable(const void* p, size_t n);
#endif
