/* MemorySim operations with the exception turned into a return code, one handler frame each. */
#ifndef MEM_H_
#define MEM_H_
#include "env.h"
#include <MemorySim.h>
int try_create(IMemory* m, uint32_t base, uint32_t size);
int try_alias(IMemory* m, uint32_t alias, uint32_t redirect, uint32_t size);
int try_readonly(IMemory* m, uint32_t base);
int try_load(IMemory* m, uint32_t base, const void* p, uint32_t size);
int try_read(IMemory* m, uint32_t addr, uint32_t width, uint32_t* pValue);
int try_write(IMemory* m, uint32_t addr, uint32_t width, uint32_t value);
#endif
