/* Environment of the code under test: allocator and file layer with fault injection and accounting. */
#ifndef ENV_H_
#define ENV_H_
#include <stdio.h>
#include <string.h>
#include "v.h"
#include <try_catch.h>

/* allocator */
extern int      env_live;        /* blocks allocated and not freed */
extern unsigned env_allocs;      /* allocation calls so far */
extern unsigned env_failAlloc;   /* this call (1-based) fails; 0: none */
extern unsigned env_failAllocUp; /* every call from this one on fails; 0: none */
extern size_t   env_maxAlloc;    /* larger requests fail; 0: no limit */
void* env_malloc(size_t n);
void* env_realloc(void* p, size_t n);
void  env_free(void* p);

/* files */
typedef struct { const char* name; const uint8_t* data; uint32_t size; } EnvFile;
#define ENV_FILES 3
extern EnvFile  env_files[ENV_FILES];
extern int      env_openFiles;   /* opened and not closed */
extern unsigned env_ops;         /* file operations so far (open, read, seek, tell, gets) */
extern unsigned env_failOp;      /* this operation (1-based) fails; 0: none */
enum { ENV_OPEN = 1, ENV_READ, ENV_SEEK, ENV_TELL, ENV_GETS };
extern int      env_failedOp;    /* kind of the operation that failed (0: none did) */
extern uint32_t env_failedFile;  /* and its file */
extern uint32_t env_maxRead;     /* reads return at most this many bytes; 0: no limit */
FILE*  env_fopen(const char* name, const char* mode);
int    env_fclose(FILE* f);
size_t env_fread(void* p, size_t size, size_t n, FILE* f);
size_t env_fwrite(const void* p, size_t size, size_t n, FILE* f);
int    env_fseek(FILE* f, long off, int whence);
long   env_ftell(FILE* f);
char*  env_fgets(char* s, int n, FILE* f);

#define ENV_TEXT 4096
extern char     env_out[ENV_TEXT], env_err[ENV_TEXT];
extern unsigned env_outLen, env_errLen, env_prints;
int env_printf(const char* fmt, ...);
int env_fprintf(FILE* f, const char* fmt, ...);

/* Run X and set CODE to the exception it raised (0: none). */
#define CATCH(CODE, X) do { int volatile code__ = 0; __try { X; } __catch { code__ = getExceptionCode(); } (CODE) = code__; clearExceptionCode(); } while (0)
#endif
