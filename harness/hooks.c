/* Points the hooks of the code under test at the harness environment. */
#include "env.h"
void*  (*hook_malloc)(size_t size) = env_malloc;
void*  (*hook_realloc)(void* ptr, size_t size) = env_realloc;
void   (*hook_free)(void* ptr) = env_free;
FILE*  (*hook_fopen)(const char* filename, const char* mode) = env_fopen;
int    (*hook_fclose)(FILE* stream) = env_fclose;
size_t (*hook_fread)(void* ptr, size_t size, size_t nitems, FILE* stream) = env_fread;
size_t (*hook_fwrite)(const void* ptr, size_t size, size_t nitems, FILE* stream) = env_fwrite;
int    (*hook_fseek)(FILE* stream, long offset, int whence) = env_fseek;
long   (*hook_ftell)(FILE* stream) = env_ftell;
char*  (*hook_fgets)(char* str, int size, FILE* stream) = env_fgets;
int    (*hook_printf)(const char* fmt, ...) = env_printf;
int    (*hook_fprintf)(FILE* f, const char* fmt, ...) = env_fprintf;
