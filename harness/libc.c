/* Models of libc routines for the solver (symx only).  Everything here is
 * replaced by the real glibc in native replays. */
#undef _GNU_SOURCE
#define _DEFAULT_SOURCE 1
#define _POSIX_C_SOURCE 200809L
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <limits.h>
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
#include <inttypes.h>
#include <stdio.h>
#include <errno.h>

void __vp_unmodelled (const char *);

int vp_errno;
int *__errno_location (void) { return &vp_errno; }

/* --- ctype, C locale; glibc tolerates -128..255 --- */
int isspace (int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int isdigit (int c) { return c >= '0' && c <= '9'; }
int isupper (int c) { return c >= 'A' && c <= 'Z'; }
int islower (int c) { return c >= 'a' && c <= 'z'; }
int isalpha (int c) { return isupper(c) || islower(c); }
int isalnum (int c) { return isalpha(c) || isdigit(c); }
int isxdigit (int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isblank (int c) { return c == ' ' || c == '\t'; }
int isascii (int c) { return (c & ~127) == 0; }
int iscntrl (int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint (int c) { return c >= 32 && c < 127; }
int isgraph (int c) { return c > 32 && c < 127; }
int ispunct (int c) { return isgraph(c) && !isalnum(c); }
int tolower (int c) { return isupper(c) ? c + 32 : c; }
int toupper (int c) { return islower(c) ? c - 32 : c; }

/* --- string --- */
size_t strlen (const char *s) { size_t n = 0; while (s[n] != '\0') ++n; return n; }
size_t strnlen (const char *s, size_t m) { size_t n = 0; while (n < m && s[n] != '\0') ++n; return n; }
int strcmp (const char *a, const char *b)
{
    for (; *a != '\0' && *a == *b; ++a, ++b)
        ;
    return (int) (unsigned char) *a - (int) (unsigned char) *b;
}
int strcoll (const char *a, const char *b) { return strcmp(a, b); }
int strncmp (const char *a, const char *b, size_t n)
{
    for (; n > 0 && *a != '\0' && *a == *b; ++a, ++b, --n)
        ;
    return n == 0 ? 0 : (int) (unsigned char) *a - (int) (unsigned char) *b;
}
int strcasecmp (const char *a, const char *b)
{
    for (; *a != '\0' && tolower((unsigned char) *a) == tolower((unsigned char) *b); ++a, ++b)
        ;
    return tolower((unsigned char) *a) - tolower((unsigned char) *b);
}
int strncasecmp (const char *a, const char *b, size_t n)
{
    for (; n > 0 && *a != '\0' && tolower((unsigned char) *a) == tolower((unsigned char) *b); ++a, ++b, --n)
        ;
    return n == 0 ? 0 : tolower((unsigned char) *a) - tolower((unsigned char) *b);
}
char *strcpy (char *d, const char *s) { size_t i = 0; while ((d[i] = s[i]) != '\0') ++i; return d; }
char *stpcpy (char *d, const char *s) { size_t i = 0; while ((d[i] = s[i]) != '\0') ++i; return d + i; }
char *strncpy (char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i] != '\0'; ++i)
        d[i] = s[i];
    for (; i < n; ++i)
        d[i] = '\0';
    return d;
}
char *strcat (char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat (char *d, const char *s, size_t n)
{
    size_t l = strlen(d), i = 0;
    for (; i < n && s[i] != '\0'; ++i)
        d[l + i] = s[i];
    d[l + i] = '\0';
    return d;
}
char *strchr (const char *s, int c)
{
    for (;; ++s)
    {
        if (*s == (char) c)
            return (char *) s;
        if (*s == '\0')
            return NULL;
    }
}
char *strchrnul (const char *s, int c) { while (*s != '\0' && *s != (char) c) ++s; return (char *) s; }
char *index (const char *s, int c) { return strchr(s, c); }
char *strrchr (const char *s, int c)
{
    const char *r = NULL;
    for (;; ++s)
    {
        if (*s == (char) c)
            r = s;
        if (*s == '\0')
            return (char *) r;
    }
}
char *rindex (const char *s, int c) { return strrchr(s, c); }
char *strstr (const char *h, const char *n)
{
    size_t i;
    for (;; ++h)
    {
        for (i = 0; n[i] != '\0' && h[i] == n[i]; ++i)
            ;
        if (n[i] == '\0')
            return (char *) h;
        if (*h == '\0')
            return NULL;
    }
}
char *strdup (const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = malloc(n);
    return p ? memcpy(p, s, n) : NULL;
}
char *strndup (const char *s, size_t m)
{
    size_t n = strnlen(s, m);
    char *p = malloc(n + 1);
    if (p == NULL)
        return NULL;
    memcpy(p, s, n);
    p[n] = '\0';
    return p;
}
int memcmp (const void *x, const void *y, size_t n)
{
    const unsigned char *a = x, *b = y;
    for (; n > 0; --n, ++a, ++b)
        if (*a != *b)
            return (int) *a - (int) *b;
    return 0;
}
int bcmp (const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
void bzero (void *p, size_t n) { memset(p, 0, n); }
void bcopy (const void *s, void *d, size_t n) { memmove(d, s, n); }
void *mempcpy (void *d, const void *s, size_t n) { return (char *) memcpy(d, s, n) + n; }
void *memchr (const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    for (; n > 0; --n, ++p)
        if (*p == (unsigned char) c)
            return (void *) p;
    return NULL;
}
void *memrchr (const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    for (; n > 0; --n)
        if (p[n - 1] == (unsigned char) c)
            return (void *) (p + n - 1);
    return NULL;
}
uint16_t ntohs (uint16_t v) { return (uint16_t) (v >> 8 | v << 8); }
uint16_t htons (uint16_t v) { return ntohs(v); }
uint32_t ntohl (uint32_t v) { return __builtin_bswap32(v); }
uint32_t htonl (uint32_t v) { return __builtin_bswap32(v); }
int abs (int v) { return v < 0 ? -v : v; }
long labs (long v) { return v < 0 ? -v : v; }
void qsort (void *base, size_t n, size_t w, int (*cmp) (const void *, const void *))
{
    size_t i, j;
    char *b = base, *t = malloc(w ? w : 1);
    for (i = 1; i < n; ++i)
        for (j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; --j)
        {
            memcpy(t, b + j * w, w);
            memcpy(b + j * w, b + (j - 1) * w, w);
            memcpy(b + (j - 1) * w, t, w);
        }
    free(t);
}
size_t strspn (const char *s, const char *acc)
{
    size_t n = 0, i;
    for (; s[n] != '\0'; ++n)
    {
        for (i = 0; acc[i] != '\0' && acc[i] != s[n]; ++i)
            ;
        if (acc[i] == '\0')
            break;
    }
    return n;
}

size_t strcspn (const char *s, const char *rej)
{
    size_t n = 0, i;
    for (; s[n] != '\0'; ++n)
    {
        for (i = 0; rej[i] != '\0' && rej[i] != s[n]; ++i)
            ;
        if (rej[i] != '\0')
            break;
    }
    return n;
}

char *strpbrk (const char *s, const char *acc)
{
    size_t n = strcspn(s, acc);
    return s[n] ? (char *) s + n : NULL;
}

size_t strlcpy (char *dst, const char *src, size_t siz)
{
    size_t i = 0;
    if (siz != 0)
    {
        for (; i < siz - 1 && src[i] != '\0'; ++i)
            dst[i] = src[i];
        dst[i] = '\0';
    }
    while (src[i] != '\0')
        ++i;
    return i;
}

size_t strlcat (char *dst, const char *src, size_t siz)
{
    size_t d = 0, i = 0;
    while (d < siz && dst[d] != '\0')
        ++d;
    if (d == siz)
    {
        while (src[i] != '\0')
            ++i;
        return d + i;
    }
    for (; src[i] != '\0'; ++i)
        if (d + i < siz - 1)
            dst[d + i] = src[i];
    dst[(d + i < siz - 1) ? d + i : siz - 1] = '\0';
    return d + i;
}

char *strsep (char **sp, const char *delim)
{
    char *tok = *sp;
    size_t n;
    if (tok == NULL)
        return NULL;
    n = strcspn(tok, delim);
    if (tok[n] != '\0')
    {
        tok[n] = '\0';
        *sp = tok + n + 1;
    }
    else
        *sp = NULL;
    return tok;
}

char *strtok_r (char *s, const char *delim, char **last)
{
    size_t n;
    if (s == NULL)
        s = *last;
    if (s == NULL)
        return NULL;
    s += strspn(s, delim);
    if (*s == '\0')
    {
        *last = s;
        return NULL;
    }
    n = strcspn(s, delim);
    if (s[n] != '\0')
    {
        s[n] = '\0';
        *last = s + n + 1;
    }
    else
        *last = s + n;
    return s;
}

/* --- strtol family (base 10 and 0/8/16) --- */
static unsigned long long vp_strtoull (const char *s, char **end, int base, int *neg, int *ovf, int *any)
{
    unsigned long long v = 0;
    size_t i = 0;
    *neg = 0; *ovf = 0; *any = 0;
    while (isspace((unsigned char) s[i]))
        ++i;
    if (s[i] == '-' || s[i] == '+')
    {
        *neg = (s[i] == '-');
        ++i;
    }
    if ((base == 0 || base == 16) && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && isxdigit((unsigned char) s[i + 2]))
    {
        base = 16;
        i += 2;
    }
    else if (base == 0)
        base = (s[i] == '0') ? 8 : 10;
    for (;; ++i)
    {
        int d;
        unsigned char c = (unsigned char) s[i];
        if (isdigit(c)) d = c - '0';
        else if (isalpha(c)) d = tolower(c) - 'a' + 10;
        else break;
        if (d >= base) break;
        *any = 1;
        if (v > (ULLONG_MAX - (unsigned) d) / (unsigned) base)
            *ovf = 1;
        v = v * (unsigned) base + (unsigned) d;
    }
    if (end)
        *end = (char *) (*any ? s + i : s);
    return v;
}

long strtol (const char *s, char **end, int base)
{
    int neg, ovf, any;
    unsigned long long v = vp_strtoull(s, end, base, &neg, &ovf, &any);
    if (ovf || (!neg && v > LONG_MAX) || (neg && v > (unsigned long long) LONG_MAX + 1))
    {
        errno = ERANGE;
        return neg ? LONG_MIN : LONG_MAX;
    }
    if (neg && v == (unsigned long long) LONG_MAX + 1)
        return LONG_MIN;
    return neg ? -(long) v : (long) v;
}
long __isoc23_strtol (const char *s, char **end, int base) { return strtol(s, end, base); }

unsigned long strtoul (const char *s, char **end, int base)
{
    int neg, ovf, any;
    unsigned long long v = vp_strtoull(s, end, base, &neg, &ovf, &any);
    if (ovf)
    {
        errno = ERANGE;
        return ULONG_MAX;
    }
    return neg ? 0 - v : v;
}
long long strtoll (const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long strtoull (const char *s, char **end, int base) { return strtoul(s, end, base); }
uintmax_t strtoumax (const char *s, char **end, int base) { return strtoul(s, end, base); }
intmax_t strtoimax (const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long __isoc23_strtoul (const char *s, char **end, int base) { return strtoul(s, end, base); }
long long __isoc23_strtoll (const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long __isoc23_strtoull (const char *s, char **end, int base) { return strtoul(s, end, base); }
uintmax_t __isoc23_strtoumax (const char *s, char **end, int base) { return strtoul(s, end, base); }
intmax_t __isoc23_strtoimax (const char *s, char **end, int base) { return strtol(s, end, base); }
size_t __vp_strtod (const char *s, double *v);
double strtod (const char *s, char **end) { double v; size_t n = __vp_strtod(s, &v); if (end) *end = (char *) s + n; return v; }
double atof (const char *s) { return strtod(s, NULL); }
long atol (const char *s) { return strtol(s, NULL, 10); }
int atoi (const char *s) { return (int) strtol(s, NULL, 10); }

/* --- printf family: %s %.*s %c %d %i %u %ld %lu %zu %x %p %% with flags/width
 * ignored except what libu uses --- */
static size_t vp_out (char *dst, size_t size, size_t pos, char c)
{
    if (pos + 1 < size)
        dst[pos] = c;
    return pos + 1;
}

struct vp_spec { int left, zero, plus, space, alt, width, prec; };

static size_t vp_pad (char *dst, size_t size, size_t pos, int n, char c)
{
    for (; n > 0; --n)
        pos = vp_out(dst, size, pos, c);
    return pos;
}

static size_t vp_num (char *dst, size_t size, size_t pos, unsigned long long v, int neg, unsigned base, int upper, struct vp_spec *sp)
{
    char tmp[70], sign = neg ? '-' : sp->plus ? '+' : sp->space ? ' ' : 0;
    int n = 0, zeros, len, pre;
    pre = (sp->alt && base == 16 && v != 0) ? 2 : 0;
    while (v != 0)
    {
        unsigned d = (unsigned) (v % base);
        tmp[n++] = (char) (d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
        v /= base;
    }
    if (n == 0 && sp->prec != 0)
        tmp[n++] = '0';
    zeros = sp->prec > n ? sp->prec - n : 0;
    len = n + zeros + (sign ? 1 : 0) + pre;
    if (sp->zero && !sp->left && sp->prec < 0 && sp->width > len)
    {
        zeros += sp->width - len;
        len = sp->width;
    }
    if (!sp->left)
        pos = vp_pad(dst, size, pos, sp->width - len, ' ');
    if (sign)
        pos = vp_out(dst, size, pos, sign);
    if (pre)
    {
        pos = vp_out(dst, size, pos, '0');
        pos = vp_out(dst, size, pos, upper ? 'X' : 'x');
    }
    pos = vp_pad(dst, size, pos, zeros, '0');
    while (n > 0)
        pos = vp_out(dst, size, pos, tmp[--n]);
    if (sp->left)
        pos = vp_pad(dst, size, pos, sp->width - len, ' ');
    return pos;
}

int __vp_fmtd (char *dst, size_t cap, const char *fmt, double v);

int vsnprintf (char *dst, size_t size, const char *fmt, va_list ap)
{
    size_t pos = 0, i;
    for (i = 0; fmt[i] != '\0'; ++i)
    {
        struct vp_spec sp = { 0, 0, 0, 0, 0, 0, -1 };
        int lng = 0, h = 0;
        if (fmt[i] != '%')
        {
            pos = vp_out(dst, size, pos, fmt[i]);
            continue;
        }
        for (++i; ; ++i)
        {
            if (fmt[i] == '0') sp.zero = 1;
            else if (fmt[i] == '-') sp.left = 1;
            else if (fmt[i] == '+') sp.plus = 1;
            else if (fmt[i] == ' ') sp.space = 1;
            else if (fmt[i] == '#') sp.alt = 1;
            else break;
        }
        if (fmt[i] == '*')
        {
            sp.width = va_arg(ap, int); ++i;
            if (sp.width < 0) { sp.left = 1; sp.width = -sp.width; }
        }
        else while (isdigit((unsigned char) fmt[i])) { sp.width = sp.width * 10 + (fmt[i] - '0'); ++i; }
        if (fmt[i] == '.')
        {
            ++i;
            sp.prec = 0;
            if (fmt[i] == '*') { sp.prec = va_arg(ap, int); ++i; }
            else while (isdigit((unsigned char) fmt[i])) { sp.prec = sp.prec * 10 + (fmt[i] - '0'); ++i; }
        }
        for (; ; ++i)
        {
            if (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't' || fmt[i] == 'q') lng = 1;
            else if (fmt[i] == 'h') ++h;
            else break;
        }
        switch (fmt[i])
        {
            case '%':
                pos = vp_out(dst, size, pos, '%');
                break;
            case 'c':
            {
                char c = (char) va_arg(ap, int);
                if (!sp.left) pos = vp_pad(dst, size, pos, sp.width - 1, ' ');
                pos = vp_out(dst, size, pos, c);
                if (sp.left) pos = vp_pad(dst, size, pos, sp.width - 1, ' ');
                break;
            }
            case 's':
            {
                const char *s = va_arg(ap, const char *);
                size_t j, n;
                if (s == NULL)
                    s = "(null)";
                n = sp.prec < 0 ? strlen(s) : strnlen(s, (size_t) sp.prec);
                if (!sp.left && (size_t) sp.width > n) pos = vp_pad(dst, size, pos, sp.width - (int) n, ' ');
                for (j = 0; j < n; ++j)
                    pos = vp_out(dst, size, pos, s[j]);
                if (sp.left && (size_t) sp.width > n) pos = vp_pad(dst, size, pos, sp.width - (int) n, ' ');
                break;
            }
            case 'd': case 'i':
            {
                long v = lng ? va_arg(ap, long) : (long) va_arg(ap, int);
                if (h == 1) v = (short) v;
                if (h == 2) v = (signed char) v;
                pos = vp_num(dst, size, pos, v < 0 ? 0ULL - (unsigned long long) v : (unsigned long long) v, v < 0, 10, 0, &sp);
                break;
            }
            case 'u': case 'x': case 'X': case 'o':
            {
                unsigned long v = lng ? va_arg(ap, unsigned long) : (unsigned long) va_arg(ap, unsigned int);
                if (h == 1) v = (unsigned short) v;
                if (h == 2) v = (unsigned char) v;
                sp.plus = sp.space = 0;
                pos = vp_num(dst, size, pos, v, 0, fmt[i] == 'u' ? 10 : fmt[i] == 'o' ? 8 : 16, fmt[i] == 'X', &sp);
                break;
            }
            case 'p':
            {
                unsigned long v = (unsigned long) va_arg(ap, void *);
                sp.alt = 1;
                pos = vp_num(dst, size, pos, v, 0, 16, 0, &sp);
                break;
            }
            case 'g': case 'G': case 'f': case 'e': case 'E':
            {
                char tmp[520], f[16];
                size_t k = 0;
                int n, m;
                double d = va_arg(ap, double);
                f[k++] = '%';
                if (sp.zero) f[k++] = '0';
                if (sp.left) f[k++] = '-';
                if (sp.plus) f[k++] = '+';
                if (sp.space) f[k++] = ' ';
                if (sp.alt) f[k++] = '#';
                if (sp.width > 99 || sp.prec > 99) __vp_unmodelled("real number width");
                if (sp.width) { f[k++] = (char) ('0' + sp.width / 10); f[k++] = (char) ('0' + sp.width % 10); }
                if (f[k > 1 ? k - 2 : 0] == '0' && sp.width && sp.width < 10) { f[k - 2] = f[k - 1]; --k; }
                if (sp.prec >= 0) { f[k++] = '.'; f[k++] = (char) ('0' + sp.prec / 10); f[k++] = (char) ('0' + sp.prec % 10); }
                f[k++] = fmt[i]; f[k] = '\0';
                n = __vp_fmtd(tmp, sizeof tmp, f, d);
                for (m = 0; m < n; ++m) pos = vp_out(dst, size, pos, tmp[m]);
                break;
            }
            default:
                __vp_unmodelled("printf conversion");
        }
    }
    if (size > 0)
        dst[pos < size ? pos : size - 1] = '\0';
    return (int) pos;
}

int snprintf (char *dst, size_t size, const char *fmt, ...)
{
    int rc;
    va_list ap;
    va_start(ap, fmt);
    rc = vsnprintf(dst, size, fmt, ap);
    va_end(ap);
    return rc;
}
int vsprintf (char *dst, const char *fmt, va_list ap) { return vsnprintf(dst, (size_t) INT_MAX, fmt, ap); }
int sprintf (char *dst, const char *fmt, ...)
{
    int rc;
    va_list ap;
    va_start(ap, fmt);
    rc = vsnprintf(dst, (size_t) INT_MAX, fmt, ap);
    va_end(ap);
    return rc;
}
int vasprintf (char **out, const char *fmt, va_list ap)
{
    va_list aq;
    int n;
    va_copy(aq, ap);
    n = vsnprintf(NULL, 0, fmt, aq);
    va_end(aq);
    if ((*out = malloc((size_t) n + 1)) == NULL)
        return -1;
    return vsnprintf(*out, (size_t) n + 1, fmt, ap);
}
int asprintf (char **out, const char *fmt, ...)
{
    int rc;
    va_list ap;
    va_start(ap, fmt);
    rc = vasprintf(out, fmt, ap);
    va_end(ap);
    return rc;
}
/* terminal output is not observable by any property */
FILE *stdout, *stderr, *stdin;
int puts (const char *s) { (void) strlen(s); return 0; }
int putchar (int c) { return c; }
int printf (const char *f, ...) { (void) f; return 0; }
int vprintf (const char *f, va_list ap) { (void) f; (void) ap; return 0; }
#ifndef VP_OS
int fprintf (FILE *fp, const char *f, ...) { if (fp) __vp_unmodelled("fprintf to a file"); (void) f; return 0; }
int vfprintf (FILE *fp, const char *f, va_list ap) { if (fp) __vp_unmodelled("vfprintf to a file"); (void) f; (void) ap; return 0; }
int fputs (const char *s, FILE *fp) { if (fp) __vp_unmodelled("fputs to a file"); (void) s; return 0; }
int fputc (int c, FILE *fp) { if (fp) __vp_unmodelled("fputc to a file"); return c; }
int fflush (FILE *fp) { (void) fp; return 0; }
#endif
char *strerror (int e) { (void) e; return "error"; }
int __xpg_strerror_r (int e, char *b, size_t n) { (void) e; if (n) b[0] = '\0'; return 0; }
int getpid (void) { return 4242; }
unsigned int sleep (unsigned int s) { (void) s; return 0; }
/* long hex/pointer conversions and width flags are modelled by vsnprintf above */
