#include "mem.h"
int try_create(IMemory* m, uint32_t base, uint32_t size)
{
    int volatile code = 0;
    __try MemorySim_CreateRegion(m, base, size);
    __catch { code = getExceptionCode(); clearExceptionCode(); }
    return code;
}
int try_alias(IMemory* m, uint32_t alias, uint32_t redirect, uint32_t size)
{
    int volatile code = 0;
    __try MemorySim_CreateAlias(m, alias, redirect, size);
    __catch { code = getExceptionCode(); clearExceptionCode(); }
    return code;
}
int try_readonly(IMemory* m, uint32_t base)
{
    int volatile code = 0;
    __try MemorySim_MakeRegionReadOnly(m, base);
    __catch { code = getExceptionCode(); clearExceptionCode(); }
    return code;
}
int try_load(IMemory* m, uint32_t base, const void* p, uint32_t size)
{
    int volatile code = 0;
    __try MemorySim_LoadFromFlashImage(m, base, p, size);
    __catch { code = getExceptionCode(); clearExceptionCode(); }
    return code;
}
int try_read(IMemory* m, uint32_t addr, uint32_t width, uint32_t* pValue)
{
    int volatile code = 0;
    __try
    {
        if (width == 1) *pValue = IMemory_Read8(m, addr);
        else if (width == 2) *pValue = IMemory_Read16(m, addr);
        else *pValue = IMemory_Read32(m, addr);
    }
    __catch { code = getExceptionCode(); clearExceptionCode(); }
    return code;
}
int try_write(IMemory* m, uint32_t addr, uint32_t width, uint32_t value)
{
    int volatile code = 0;
    __try
    {
        if (width == 1) IMemory_Write8(m, addr, (uint8_t)value);
        else if (width == 2) IMemory_Write16(m, addr, (uint16_t)value);
        else IMemory_Write32(m, addr, value);
    }
    __catch { code = getExceptionCode(); clearExceptionCode(); }
    return code;
}
