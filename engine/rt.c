/* Models of the C library functions the sources use, compiled into the module that vse executes.
   Written to branch little: a condition on symbolic data becomes a select where it can. "C" locale. */
#include <stdarg.h>
#include <stdint.h>
typedef unsigned long size_t;
void* v_sys_malloc(size_t n); void v_sys_free(void* p); void* v_sys_realloc(void* p, size_t n);
int v_symbolic(unsigned long x); void v_fail(const char* msg); void* memcpy(void* d, const void* s, size_t n); void* memset(void* d, int c, size_t n);
typedef unsigned char u8;

static char g_err, g_out, g_in;
void *stderr = &g_err, *stdout = &g_out, *stdin = &g_in;
static int g_errno;
int* __errno_location(void) { return &g_errno; }

void* malloc(size_t n) { return v_sys_malloc(n); }
void  free(void* p) { v_sys_free(p); }
void* realloc(void* p, size_t n) { return v_sys_realloc(p, n); }
void* calloc(size_t a, size_t b) { void* p = v_sys_malloc(a * b); memset(p, 0, a * b); return p; }

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n)
{
    const u8 *x = a, *y = b; int r = 0; size_t i;
    for (i = n; i-- > 0;) { int d = (int)x[i] - (int)y[i]; r = d ? d : r; }
    return r;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b)
{
    const u8 *x = (const u8*)a, *y = (const u8*)b;
    while (*x == *y) { if (!*x) return 0; x++; y++; }
    return (int)*x - (int)*y;
}
int strncmp(const char* a, const char* b, size_t n)
{
    const u8 *x = (const u8*)a, *y = (const u8*)b;
    while (n) { if (*x != *y) return (int)*x - (int)*y; if (!*x) return 0; x++; y++; n--; }
    return 0;
}
static u8 low(u8 c) { u8 u = (u8)(c - 'A') < 26; return (u8)(c + (u << 5)); }
int strcasecmp(const char* a, const char* b)
{
    const u8 *x = (const u8*)a, *y = (const u8*)b;
    for (;; x++, y++) { u8 p = low(*x), q = low(*y); if (p != q) return (int)p - (int)q; if (!p) return 0; }
}
int strncasecmp(const char* a, const char* b, size_t n)
{
    const u8 *x = (const u8*)a, *y = (const u8*)b;
    for (; n; x++, y++, n--) { u8 p = low(*x), q = low(*y); if (p != q) return (int)p - (int)q; if (!p) return 0; }
    return 0;
}
char* strcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
char* strchr(const char* s, int c)
{
    if (v_symbolic((u8)c)) {   /* one result, no fork per character of the set */
        size_t i = 0, at = 0, hit = 0;
        for (;; i++) { size_t eq = s[i] == (char)c, first = eq & (hit ^ 1); at |= (0 - first) & i; hit |= eq; if (!s[i]) break; }
        return hit ? (char*)s + at : 0;
    }
    for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; }
}
static u8 in_set(u8 c, const char* a) { u8 r = 0; for (; *a; a++) r |= c == (u8)*a; return r; }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* s, int c, size_t n) { const u8* p = s; for (; n; n--, p++) if (*p == (u8)c) return (void*)p; return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (in_set((u8)s[n], a)) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (!(in_set((u8)s[n], a) | !s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { size_t n = strcspn(s, a); return s[n] ? (char*)s + n : 0; }
char* strstr(const char* h, const char* n)
{
    for (;; h++) {
        size_t i = 0; while (n[i] && h[i] == n[i]) i++;
        if (!n[i]) return (char*)h;
        if (!*h) return 0;
    }
}
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = v_sys_malloc(n); memcpy(p, s, n); return p; }
char* strtok_r(char* s, const char* a, char** sv)
{
    char* e; if (!s) s = *sv; s += strspn(s, a); if (!*s) { *sv = s; return 0; }
    e = s + strcspn(s, a); if (*e) *e++ = 0; *sv = e; return s;
}
static char* g_tok;
char* strtok(char* s, const char* a) { return strtok_r(s, a, &g_tok); }

#define IN(c, a, b) ((unsigned)(c) - (unsigned)(a) <= (unsigned)(b) - (unsigned)(a))
int isspace(int c) { return (c == ' ') | IN(c, 9, 13); }
int isdigit(int c) { return IN(c, '0', '9'); }
int isupper(int c) { return IN(c, 'A', 'Z'); }
int islower(int c) { return IN(c, 'a', 'z'); }
int isalpha(int c) { return IN(c | 32, 'a', 'z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | IN(c | 32, 'a', 'f'); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isprint(int c) { return IN(c, 32, 126); }
int isgraph(int c) { return IN(c, 33, 126); }
int iscntrl(int c) { return IN(c, 0, 31) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int tolower(int c) { return c + (IN(c, 'A', 'Z') << 5); }
int toupper(int c) { return c - (IN(c, 'a', 'z') << 5); }

static unsigned digit(u8 c)
{
    unsigned l = (unsigned)(c | 32) - 'a', d = (unsigned)c - '0';
    return d < 10 ? d : l < 26 ? l + 10 : 99;
}
static uint64_t strto(const char* s0, char** end, int base, int* pneg, int* povf)
{
    const u8* s = (const u8*)s0; uint64_t v = 0; int neg = 0, any = 0, ovf = 0;
    while (isspace(*s)) s++;
    if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x' && digit(s[2]) < 16) { s += 2; base = 16; }
    else if (base == 0) base = s[0] == '0' ? 8 : 10;
    for (;; s++) {
        unsigned d = digit(*s);
        if (d >= (unsigned)base) break;
        any = 1;
        if (base == 16) { ovf |= (v >> 60) != 0; v = (v << 4) | d; }
        else if (base == 8) { ovf |= (v >> 61) != 0; v = (v << 3) | d; }
        else { ovf |= v > (0xFFFFFFFFFFFFFFFFUL - d) / (unsigned)base; v = v * (unsigned)base + d; }
    }
    if (end) *end = any ? (char*)s : (char*)s0;
    *pneg = neg; *povf = ovf;
    return v;
}
unsigned long strtoul(const char* s, char** e, int b) { int n, o; uint64_t v = strto(s, e, b, &n, &o); if (o) { g_errno = 34; return ~0UL; } return n ? 0 - v : v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long strtol(const char* s, char** e, int b)
{
    int n, o; uint64_t v = strto(s, e, b, &n, &o), lim = n ? 0x8000000000000000UL : 0x7FFFFFFFFFFFFFFFUL;
    if (o || v > lim) { g_errno = 34; return (long)lim; }
    return (long)(n ? 0 - v : v);
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }

void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
    u8* a = base; size_t i, j, k;
    for (i = 1; i < n; i++) for (j = i; j > 0 && cmp(a + (j - 1) * w, a + j * w) > 0; j--)
        for (k = 0; k < w; k++) { u8 t = a[j * w + k]; a[j * w + k] = a[(j - 1) * w + k]; a[(j - 1) * w + k] = t; }
}
void* bsearch(const void* key, const void* base, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
    size_t lo = 0, hi = n;
    while (lo < hi) { size_t m = (lo + hi) / 2; const u8* p = (const u8*)base + m * w; int c = cmp(key, p); if (c == 0) return (void*)p; if (c < 0) hi = m; else lo = m + 1; }
    return 0;
}

/* ---- formatted output ---- */
struct out { char* d; size_t cap, n; };
static void put(struct out* o, char c) { if (o->n + 1 < o->cap) o->d[o->n] = c; o->n++; }
static void pad(struct out* o, char c, long n) { for (; n > 0; n--) put(o, c); }
static int fmt(char* dst, size_t cap, const char* f, va_list ap)
{
    struct out o; o.d = dst; o.cap = cap; o.n = 0;
    for (; *f; f++) {
        int zero = 0, left = 0, plus = 0, alt = 0, space = 0, lng = 0; long width = 0, prec = -1; char c;
        if (*f != '%') { put(&o, *f); continue; }
        for (f++;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') space = 1; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng = 2; f++; }
        while (*f == 'h') { lng--; f++; }
        c = *f;
        if (c == '%') { put(&o, '%'); continue; }
        if (c == 'c') { char ch = (char)va_arg(ap, int); if (!left) pad(&o, ' ', width - 1); put(&o, ch); if (left) pad(&o, ' ', width - 1); continue; }
        if (c == 's') {
            const char* s = va_arg(ap, const char*); long l = 0; long j;
            if (!s) s = "(null)";
            while ((prec < 0 || l < prec) && s[l]) l++;
            if (!left) pad(&o, ' ', width - l);
            for (j = 0; j < l; j++) put(&o, s[j]);
            if (left) pad(&o, ' ', width - l);
            continue;
        }
        if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
            uint64_t v; char t[24]; int m = 0, neg = 0, base = c == 'o' ? 8 : (c == 'x' || c == 'X' || c == 'p') ? 16 : 10; char sign = 0; long tot;
            if (lng == 2 || c == 'p') v = va_arg(ap, uint64_t);
            else {
                int iv = va_arg(ap, int);
                if (lng == -1) iv = (c == 'd' || c == 'i') ? (short)iv : (unsigned short)iv;
                if (lng == -2) iv = (c == 'd' || c == 'i') ? (signed char)iv : (unsigned char)iv;
                v = (c == 'd' || c == 'i') ? (uint64_t)(int64_t)iv : (uint64_t)(unsigned)iv;
            }
            if ((c == 'd' || c == 'i')) { if ((int64_t)v < 0) { neg = 1; v = 0 - v; } sign = neg ? '-' : plus ? '+' : space ? ' ' : 0; }
            if (base == 16) { do { unsigned q = v & 15; t[m++] = (char)(q + (q < 10 ? '0' : (c == 'X' ? 'A' - 10 : 'a' - 10))); v >>= 4; } while (v); }
            else if (v <= 0xFFFFFFFFu) { unsigned w = (unsigned)v; do { t[m++] = (char)('0' + w % (unsigned)base); w /= (unsigned)base; } while (w); }
            else { do { t[m++] = (char)('0' + v % (unsigned)base); v /= (unsigned)base; } while (v); }
            if (prec == 0 && m == 1 && t[0] == '0') m = 0;
            { long np = prec > m ? prec : m; int ax = (alt || c == 'p') && base == 16; tot = np + (sign != 0) + (ax ? 2 : 0);
              if (!left && !(zero && prec < 0)) pad(&o, ' ', width - tot);
              if (sign) put(&o, sign);
              if (ax) { put(&o, '0'); put(&o, c == 'X' ? 'X' : 'x'); }
              if (!left && zero && prec < 0) pad(&o, '0', width - tot);
              pad(&o, '0', np - m);
              while (m > 0) put(&o, t[--m]);
              if (left) pad(&o, ' ', width - tot); }
            continue;
        }
        v_fail("format conversion without a model");
    }
    if (cap) o.d[o.n < cap ? o.n : cap - 1] = 0;
    return (int)o.n;
}
int vsnprintf(char* d, size_t n, const char* f, va_list ap) { return fmt(d, n, f, ap); }
int snprintf(char* d, size_t n, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = fmt(d, n, f, ap); va_end(ap); return r; }
int vsprintf(char* d, const char* f, va_list ap) { return fmt(d, 0x7FFFFFFF, f, ap); }
int sprintf(char* d, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = fmt(d, 0x7FFFFFFF, f, ap); va_end(ap); return r; }
/* console output that does not pass the hooks is dropped */
int puts(const char* s) { return 0; }
int putchar(int c) { return c; }
int fputs(const char* s, void* f) { return 0; }
int fputc(int c, void* f) { return c; }
int fflush(void* f) { return 0; }
int printf(const char* f, ...) { return 0; }
int fprintf(void* s, const char* f, ...) { return 0; }
int ferror(void* f) { return 0; }
