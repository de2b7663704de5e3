#include "env.h"
#include <stdlib.h>
#include <stdarg.h>

int      env_live;
unsigned env_allocs;
unsigned env_failAlloc;
unsigned env_failAllocUp;
size_t   env_maxAlloc;

static int failThis(void)
{
    env_allocs++;
    if (env_failAlloc && env_allocs == env_failAlloc) return 1;
    if (env_failAllocUp && env_allocs >= env_failAllocUp) return 1;
    return 0;
}
void* env_malloc(size_t n)
{
    if (failThis() || (env_maxAlloc && n > env_maxAlloc)) return NULL;
    env_live++;
    return v_sys_malloc(n);
}
void* env_realloc(void* p, size_t n)
{
    if (failThis()) return NULL;
    if (!p) env_live++;
    return v_sys_realloc(p, n);
}
void* env_calloc(size_t a, size_t b)
{
    void* p = b && a > (size_t)-1 / b ? NULL : env_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
char* env_strndup(const char* s, size_t n)
{
    size_t l = strnlen(s, n); char* p = env_malloc(l + 1);
    if (p) { memcpy(p, s, l); p[l] = 0; }
    return p;
}
char* env_strdup(const char* s) { return env_strndup(s, strlen(s)); }
void env_free(void* p)
{
    if (!p) return;
    env_live--;
    v_sys_free(p);
}

EnvFile  env_files[ENV_FILES];
int      env_openFiles;
unsigned env_ops;
unsigned env_failOp;
uint32_t env_maxRead;
#define HANDLES 4
static struct { int open; uint32_t file; uint32_t pos; int err, eof; } g_handles[HANDLES];
int env_failedOp; uint32_t env_failedFile;
static int opFails(int op, uint32_t file)
{
    env_ops++;
    if (!env_failOp || env_ops != env_failOp) return 0;
    env_failedOp = op; env_failedFile = file;
    return 1;
}
static int handleOf(FILE* f)
{
    int i;
    for (i = 0; i < HANDLES; i++)
        if ((void*)f == (void*)&g_handles[i])
        {
            v_assert(g_handles[i].open, "file handle is used only while it is open");
            return i;
        }
    v_assert(0, "file handle passed to the C library came from fopen");
    return 0;
}
FILE* env_fopen(const char* name, const char* mode)
{
    int i, h;
    if (opFails(ENV_OPEN, env_files[1].name && 0 == strcmp(env_files[1].name, name))) return NULL;
    for (i = 0; i < ENV_FILES; i++)
        if (env_files[i].name && 0 == strcmp(env_files[i].name, name))
            for (h = 0; h < HANDLES; h++)
                if (!g_handles[h].open)
                {
                    g_handles[h].open = 1; g_handles[h].file = i; g_handles[h].pos = 0; g_handles[h].err = g_handles[h].eof = 0;
                    env_openFiles++;
                    return (FILE*)(void*)&g_handles[h];
                }
    return NULL;
}
int env_fclose(FILE* f)
{
    int h = handleOf(f);
    g_handles[h].open = 0;
    env_openFiles--;
    return 0;
}
size_t env_fread(void* p, size_t size, size_t n, FILE* f)
{
    int h = handleOf(f);
    const EnvFile* e = &env_files[g_handles[h].file];
    size_t want = size * n, have = g_handles[h].pos < e->size ? e->size - g_handles[h].pos : 0;
    if (opFails(ENV_READ, g_handles[h].file)) { g_handles[h].err = 1; return 0; }
    if (want > have) { want = have; g_handles[h].eof = 1; }
    if (env_maxRead && want > env_maxRead) want = env_maxRead;
    if (want) memcpy(p, e->data + g_handles[h].pos, want);
    g_handles[h].pos += want;
    return size == 1 ? want : (size ? want / size : 0);
}
int env_ferror(FILE* f) { return g_handles[handleOf(f)].err; }
int env_feof(FILE* f) { return g_handles[handleOf(f)].eof; }
void env_clearerr(FILE* f) { int h = handleOf(f); g_handles[h].err = g_handles[h].eof = 0; }
int env_fgetc(FILE* f) { unsigned char c; return env_fread(&c, 1, 1, f) == 1 ? c : EOF; }
int env_getc(FILE* f) { return env_fgetc(f); }
static void emitText(FILE* f, const char* p, size_t n);
size_t env_fwrite(const void* p, size_t size, size_t n, FILE* f) { emitText(f, p, size * n); return n; }
int env_fputs(const char* s, FILE* f) { emitText(f, s, strlen(s)); return 0; }
int env_fputc(int c, FILE* f) { char x = (char)c; emitText(f, &x, 1); return (unsigned char)c; }
int env_putc(int c, FILE* f) { return env_fputc(c, f); }
int env_puts(const char* s) { emitText(stdout, s, strlen(s)); emitText(stdout, "\n", 1); return 0; }
int env_fflush(FILE* f) { return 0; }
int env_fseek(FILE* f, long off, int whence)
{
    int h = handleOf(f);
    const EnvFile* e = &env_files[g_handles[h].file];
    long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)g_handles[h].pos : (long)e->size;
    if (opFails(ENV_SEEK, g_handles[h].file)) return -1;
    if (base + off < 0) return -1;
    g_handles[h].pos = (uint32_t)(base + off); g_handles[h].eof = 0;
    return 0;
}
void env_rewind(FILE* f) { env_fseek(f, 0, SEEK_SET); g_handles[handleOf(f)].err = 0; }
long env_ftell(FILE* f)
{
    int h = handleOf(f);
    if (opFails(ENV_TELL, g_handles[h].file)) return -1;
    return (long)g_handles[h].pos;
}
char* env_fgets(char* s, int n, FILE* f)
{
    int h = handleOf(f);
    const EnvFile* e = &env_files[g_handles[h].file];
    int i = 0;
    if (opFails(ENV_GETS, g_handles[h].file)) { g_handles[h].err = 1; return NULL; }
    if (n <= 0) return NULL;
    if (g_handles[h].pos >= e->size) { g_handles[h].eof = 1; return NULL; }
    while (i < n - 1 && g_handles[h].pos < e->size)
    {
        char c = (char)e->data[g_handles[h].pos++];
        s[i++] = c;
        if (c == '\n') break;
    }
    if (i < n - 1 && s[i - 1] != '\n') g_handles[h].eof = 1;
    s[i] = 0;
    return s;
}


/* console output of the code under test */
char     env_out[ENV_TEXT], env_err[ENV_TEXT];
unsigned env_outLen, env_errLen, env_prints;
static int emit(char* b, unsigned* pLen, const char* fmt, va_list ap)
{
    int n = vsnprintf(b + *pLen, ENV_TEXT - *pLen, fmt, ap);
    env_prints++;
    if (n > 0) *pLen += (unsigned)n;
    if (*pLen > ENV_TEXT - 1) *pLen = ENV_TEXT - 1;
    return n;
}
static void emitText(FILE* f, const char* p, size_t n)
{
    char* b = f == stderr ? env_err : env_out; unsigned* pLen = f == stderr ? &env_errLen : &env_outLen; size_t i;
    env_prints++;
    for (i = 0; i < n && *pLen < ENV_TEXT - 1; i++) b[(*pLen)++] = p[i];
    b[*pLen] = 0;
}
int env_vfprintf(FILE* f, const char* fmt, va_list ap) { return f == stderr ? emit(env_err, &env_errLen, fmt, ap) : emit(env_out, &env_outLen, fmt, ap); }
int env_vprintf(const char* fmt, va_list ap) { return emit(env_out, &env_outLen, fmt, ap); }
int env_printf(const char* fmt, ...)
{
    va_list ap; int n;
    va_start(ap, fmt); n = emit(env_out, &env_outLen, fmt, ap); va_end(ap);
    return n;
}
int env_fprintf(FILE* f, const char* fmt, ...)
{
    va_list ap; int n;
    va_start(ap, fmt);
    if (f == stderr) n = emit(env_err, &env_errLen, fmt, ap); else n = emit(env_out, &env_outLen, fmt, ap);
    va_end(ap);
    return n;
}
