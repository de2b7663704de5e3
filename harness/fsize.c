/* C27: GetFileSize with any file size and any one of the file operations failing. */
#include "env.h"
#include "ref.h"
#include <common.h>
static unsigned fail, ops; static long size_, pos, neg;
static int fails(FILE* f)
{
    v_assert(f == (FILE*)(void*)&pos, "the file asked about is the file measured");
    return ++ops == fail;
}
static int my_fseek(FILE* f, long off, int whence)
{
    long base = whence == SEEK_END ? size_ : whence == SEEK_SET ? 0 : pos;
    if (fails(f)) return -1;
    pos = base + off;
    return 0;
}
static long my_ftell(FILE* f) { return fails(f) ? neg : pos; }
extern int (*hook_fseek)(FILE* stream, long offset, int whence);
extern long (*hook_ftell)(FILE* stream);
void vf_main(void)
{
    int code; long volatile size = -7;
    hook_fseek = my_fseek; hook_ftell = my_ftell;
    fail = nd_pick(5);
    size_ = (long)(nd_u64() >> 1);
    neg = -1 - (long)(nd_u64() >> 1);
    pos = nd_u32();
    CATCH(code, size = GetFileSize((FILE*)(void*)&pos));
    if (fail == 0 || ops < fail)
    {
        v_cover("size found");
        v_assert(code == 0, "no exception when every operation works");
        v_assert(size == size_, "the size is where the end of the file is");
        v_assert(pos == 0, "the file is back at its start");
    }
    else
    {
        v_cover("an operation fails");
        v_assert(code == fileException, "a failing operation is a file exception");
        v_assert(size == -7, "no size is returned then");
    }
    v_assert(g_pExceptionHandlers == NULL, "no handler is left at the end");
    v_observe("code", code);
}
