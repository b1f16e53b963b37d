#include "vp.h"
#include <stdio.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "vp_os.h"

#if !defined(OS_CAP)
  #define OS_CAP 64
#endif
#define NI 8
#define NF 16
#define FD0 100
static struct { int used; size_t n; long mtime; int dev; unsigned char d[OS_CAP]; } I[NI];
static struct { int ino; char name[OS_NAME]; } D[NI];          /* ino 0: free, else index + 1 */
static struct strm { int used, fdonly, ino, rd, wr, app, eof, err; size_t pos, nw; unsigned char w[OS_CAP]; } F[NF];
static int ncalls, at1 = -1, at2 = -1, nfaults, maxio, piped;
#ifndef OS_CMD
#define OS_CMD 2048
#endif
static char cmd[OS_CMD];

void os_reset (void) { memset(I, 0, sizeof I); memset(D, 0, sizeof D); memset(F, 0, sizeof F); ncalls = nfaults = maxio = 0; at1 = at2 = -1; piped = -1; }
void os_fault (int k) { at1 = k < 0 ? -1 : ncalls + k; }
void os_fault2 (int k) { at2 = k < 0 ? -1 : ncalls + k; }
int os_faulted (void) { return nfaults; }
int os_calls (void) { return ncalls; }
void os_short (int n) { maxio = n; }
static int fails (int e)
{
    int k = ncalls++;
    if (k != at1 && k != at2) return 0;
    ++nfaults; errno = e;
    return 1;
}
static int lookup (const char *name)
{
    int i;
    for (i = 0; i < NI; ++i) if (D[i].ino && strcmp(D[i].name, name) == 0) return i;
    return -1;
}
static int mkino (int dev)
{
    int i;
    for (i = 0; i < NI && I[i].used; ++i) ;
    VP_ASSERT(i < NI, "harness: file system too small");
    I[i].used = 1; I[i].n = 0; I[i].dev = dev; I[i].mtime = 1000;
    return i;
}
static int mkname (const char *name, int ino)
{
    int i;
    for (i = 0; i < NI && D[i].ino; ++i) ;
    VP_ASSERT(i < NI && strlen(name) < sizeof D[i].name, "harness: directory too small");
    strcpy(D[i].name, name); D[i].ino = ino + 1;
    return i;
}
static int device (const char *name) { return name[0] == 'x' && name[1] == '/'; }
void os_put (const char *name, const void *data, size_t n)
{
    int d = lookup(name), i = d >= 0 ? D[d].ino - 1 : mkino(device(name));
    if (d < 0) mkname(name, i);
    VP_ASSERT(n <= OS_CAP, "harness: file too long");
    memcpy(I[i].d, data, n); I[i].n = n;
}
long os_size (const char *name) { int d = lookup(name); return d < 0 ? -1 : (long) I[D[d].ino - 1].n; }
const unsigned char *os_data (const char *name) { int d = lookup(name); return d < 0 ? NULL : I[D[d].ino - 1].d; }
void os_mtime (const char *name, long t) { int d = lookup(name); if (d >= 0) I[D[d].ino - 1].mtime = t; }
int os_open_files (void) { int i, n = 0; for (i = 0; i < NF; ++i) n += F[i].used; return n; }
void os_pipe (const void *data, size_t n) { piped = mkino(0); VP_ASSERT(n <= OS_CAP, "harness: output too long"); memcpy(I[piped].d, data, n); I[piped].n = n; }
const char *os_command (void) { return cmd; }

static struct strm *S (void *fp)
{
    struct strm *s = fp;
    VP_ASSERT(s >= F && s < F + NF && s->used, "no stream is used once closed");
    return s;
}
static struct strm *S4 (int fd)
{
    VP_ASSERT(fd >= FD0 && fd < FD0 + NF && F[fd - FD0].used, "no descriptor is used once closed");
    return &F[fd - FD0];
}
static int vopen (const char *name, int rd, int wr, int creat, int excl, int trunc, int app)
{
    int d = lookup(name), i, k;
    if (d < 0 && !creat) { errno = ENOENT; return -1; }
    if (d >= 0 && excl) { errno = EEXIST; return -1; }
    for (k = 0; k < NF && F[k].used; ++k) ;
    VP_ASSERT(k < NF, "harness: too many open files");
    if (d < 0) d = mkname(name, mkino(device(name)));
    i = D[d].ino - 1;
    if (trunc) I[i].n = 0;
    memset(&F[k], 0, sizeof F[k]);
    F[k].used = 1; F[k].ino = i; F[k].rd = rd; F[k].wr = wr; F[k].app = app;
    return k;
}
static void emit (struct strm *s, const unsigned char *p, size_t n)
{
    if (s->app) s->pos = I[s->ino].n;
    VP_ASSERT(s->pos + n <= OS_CAP, "harness: file too long");
    memcpy(I[s->ino].d + s->pos, p, n); s->pos += n;
    if (s->pos > I[s->ino].n) I[s->ino].n = s->pos;
}
static void drop (int k) { F[k].used = 0; if (F[k].ino == piped) { I[piped].used = 0; piped = -1; } }

FILE *vp_fopen (const char *name, const char *mode)
{
    int plus = strchr(mode, '+') != NULL, k;
    if (fails(EACCES)) return NULL;
    k = vopen(name, mode[0] == 'r' || plus, mode[0] != 'r' || plus, mode[0] != 'r', strchr(mode, 'x') != NULL, mode[0] == 'w', mode[0] == 'a');
    return k < 0 ? NULL : (FILE *) &F[k];
}
FILE *vp_fdopen (int fd, const char *mode) { struct strm *s; if (fails(ENOMEM)) return NULL; s = S4(fd); s->fdonly = 0; return (FILE *) s; }
int vp_fileno (FILE *fp) { return FD0 + (int) (S(fp) - F); }
int vp_feof (FILE *fp) { return S(fp)->eof; }
int vp_ferror (FILE *fp) { return S(fp)->err; }
static int flush (struct strm *s)
{
    if (s->nw && fails(ENOSPC)) { emit(s, s->w, s->nw / 2); s->nw = 0; s->err = 1; return EOF; }
    emit(s, s->w, s->nw); s->nw = 0;
    return 0;
}
int vp_fflush (FILE *fp) { return flush(S(fp)); }
int vp_fclose (FILE *fp)
{
    struct strm *s = S(fp);
    int rc = flush(s);
    if (rc == 0 && fails(EIO)) rc = EOF;
    drop((int) (s - F));
    return rc;
}
size_t vp_fread (void *p, size_t sz, size_t n, FILE *fp)
{
    struct strm *s = S(fp);
    size_t want = sz * n, have;
    VP_ASSERT(s->rd, "harness: not open for reading");
    have = s->pos < I[s->ino].n ? I[s->ino].n - s->pos : 0;
    if (fails(EIO)) { s->err = 1; want = (want < have ? want : have) / 2; have = want; }
    if (want > have) { want = have; s->eof = 1; }
    memcpy(p, I[s->ino].d + s->pos, want); s->pos += want;
    return sz ? want / sz : 0;
}
size_t vp_fwrite (const void *p, size_t sz, size_t n, FILE *fp)
{
    struct strm *s = S(fp);
    size_t l = sz * n;
    VP_ASSERT(s->wr, "harness: not open for writing");
    if (l && fails(ENOSPC)) { s->err = 1; l /= 2; }
    VP_ASSERT(s->nw + l <= OS_CAP, "harness: file too long");
    memcpy(s->w + s->nw, p, l); s->nw += l;
    return sz ? l / sz : 0;
}
char *vp_fgets (char *b, int n, FILE *fp)
{
    struct strm *s = S(fp);
    int i = 0;
    if (fails(EIO)) { s->err = 1; return NULL; }
    while (i + 1 < n && s->pos < I[s->ino].n)
        if ((b[i++] = (char) I[s->ino].d[s->pos++]) == '\n') break;
    if (i + 1 < n && s->pos == I[s->ino].n && (i == 0 || b[i - 1] != '\n')) s->eof = 1;
    if (i == 0) return NULL;
    b[i] = '\0';
    return b;
}
int vp_fgetc (FILE *fp) { unsigned char c; return vp_fread(&c, 1, 1, fp) == 1 ? c : EOF; }
int vp_getc (FILE *fp) { return vp_fgetc(fp); }
int vp_fputs (const char *t, FILE *fp) { size_t l = strlen(t); return vp_fwrite(t, 1, l, fp) == l ? 1 : EOF; }
int vp_fputc (int c, FILE *fp) { unsigned char b = (unsigned char) c; return vp_fwrite(&b, 1, 1, fp) == 1 ? c : EOF; }
int vp_putc (int c, FILE *fp) { return vp_fputc(c, fp); }
int vp_vfprintf (FILE *fp, const char *fmt, va_list ap)
{
    static char t[OS_CAP + 1];
    int n = vsnprintf(t, sizeof t, fmt, ap);
    VP_ASSERT(n >= 0 && n <= OS_CAP, "harness: file too long");
    return vp_fwrite(t, 1, (size_t) n, fp) == (size_t) n ? n : -1;
}
int vp_fprintf (FILE *fp, const char *fmt, ...)
{
    va_list ap; int n;
    va_start(ap, fmt); n = vp_vfprintf(fp, fmt, ap); va_end(ap);
    return n;
}
int vp_open (const char *name, int fl, ...)
{
    int k;
    if (fails(EACCES)) return -1;
    k = vopen(name, (fl & O_ACCMODE) != O_WRONLY, (fl & O_ACCMODE) != O_RDONLY, fl & O_CREAT, (fl & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL), fl & O_TRUNC, fl & O_APPEND);
    if (k < 0) return -1;
    F[k].fdonly = 1;
    return FD0 + k;
}
int vp_close (int fd) { struct strm *s = S4(fd); int rc = fails(EIO) ? -1 : 0; drop((int) (s - F)); return rc; }
int vp_dup (int fd)
{
    struct strm *s = S4(fd); int k;
    if (fails(EMFILE)) return -1;
    for (k = 0; k < NF && F[k].used; ++k) ;
    VP_ASSERT(k < NF, "harness: too many open files");
    F[k] = *s; F[k].fdonly = 1;
    return FD0 + k;
}
ssize_t vp_read (int fd, void *p, size_t n)
{
    struct strm *s = S4(fd);
    size_t have = s->pos < I[s->ino].n ? I[s->ino].n - s->pos : 0;
    if (fails(EIO)) return -1;
    if (n > have) n = have;
    if (maxio && n > (size_t) maxio) n = (size_t) maxio;
    memcpy(p, I[s->ino].d + s->pos, n); s->pos += n;
    return (ssize_t) n;
}
ssize_t vp_write (int fd, const void *p, size_t n)
{
    struct strm *s = S4(fd);
    if (fails(ENOSPC)) return -1;
    if (maxio && n > (size_t) maxio) n = (size_t) maxio;
    emit(s, p, n);
    return (ssize_t) n;
}
static void fill (int i, struct stat *st)
{
    memset(st, 0, sizeof *st);
    st->st_size = (off_t) I[i].n; st->st_ino = (ino_t) i + 1; st->st_dev = (dev_t) I[i].dev + 1;
    st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_ctime = st->st_mtime = I[i].mtime; st->st_blksize = 16; st->st_blocks = (blkcnt_t) I[i].n / 512 + 1;
}
int vp_stat (const char *name, struct stat *st)
{
    int d = lookup(name);
    if (fails(EACCES)) return -1;
    if (d < 0) { errno = ENOENT; return -1; }
    fill(D[d].ino - 1, st);
    return 0;
}
int vp_lstat (const char *name, struct stat *st) { return vp_stat(name, st); }
int vp_fstat (int fd, struct stat *st) { struct strm *s = S4(fd); if (fails(EIO)) return -1; fill(s->ino, st); return 0; }
int vp_link (const char *a, const char *b)
{
    int d = lookup(a);
    if (fails(EMLINK)) return -1;
    if (d < 0) { errno = ENOENT; return -1; }
    if (lookup(b) >= 0) { errno = EEXIST; return -1; }
    if (device(a) != device(b)) { errno = EXDEV; return -1; }
    mkname(b, D[d].ino - 1);
    return 0;
}
int vp_unlink (const char *a)
{
    int d = lookup(a);
    if (fails(EACCES)) return -1;
    if (d < 0) { errno = ENOENT; return -1; }
    D[d].ino = 0;
    return 0;
}
int vp_remove (const char *a) { return vp_unlink(a); }
int vp_rename (const char *a, const char *b)
{
    int d = lookup(a), e = lookup(b);
    if (fails(EACCES)) return -1;
    if (d < 0) { errno = ENOENT; return -1; }
    if (device(a) != device(b)) { errno = EXDEV; return -1; }
    if (d == e) return 0;
    if (e >= 0) D[e].ino = D[d].ino; else mkname(b, D[d].ino - 1);
    D[d].ino = 0;
    return 0;
}
int vp_mkstemp (char *t)
{
    size_t l = strlen(t); int k;
    if (fails(EACCES)) return -1;
    VP_ASSERT(l >= 6, "harness: no template");
    memcpy(t + l - 6, "TMP001", 6);
    k = vopen(t, 1, 1, 1, 0, 1, 0); F[k].fdonly = 1;
    return FD0 + k;
}
off_t vp_lseek (int fd, off_t o, int w)
{
    struct strm *s = S4(fd);
    if (fails(EIO)) return -1;
    s->pos = (size_t) (w == SEEK_SET ? o : w == SEEK_CUR ? (off_t) s->pos + o : (off_t) I[s->ino].n + o);
    return (off_t) s->pos;
}
int vp_fseek (FILE *fp, long o, int w) { struct strm *s = S(fp); if (flush(s)) return -1; s->eof = 0; return vp_lseek(FD0 + (int) (s - F), o, w) < 0 ? -1 : 0; }
long vp_ftell (FILE *fp) { struct strm *s = S(fp); return (long) (s->pos + s->nw); }
void vp_rewind (FILE *fp) { vp_fseek(fp, 0, SEEK_SET); }
int vp_ftruncate (int fd, off_t n) { struct strm *s = S4(fd); if (fails(EIO)) return -1; VP_ASSERT(n >= 0 && (size_t) n <= I[s->ino].n, "harness: growing truncation"); I[s->ino].n = (size_t) n; return 0; }
int vp_fsync (int fd) { S4(fd); return fails(EIO) ? -1 : 0; }
int vp_access (const char *a, int m) { if (fails(EACCES)) return -1; if (lookup(a) < 0) { errno = ENOENT; return -1; } return 0; }

FILE *vp_popen (const char *c, const char *mode)
{
    int k;
    (void) mode;
    if (fails(ENOMEM)) return NULL;
    VP_ASSERT(strlen(c) < sizeof cmd, "harness: command too long");
    strcpy(cmd, c);
    VP_ASSERT(piped >= 0, "harness: no command expected");
    for (k = 0; k < NF && F[k].used; ++k) ;
    memset(&F[k], 0, sizeof F[k]);
    F[k].used = 1; F[k].ino = piped; F[k].rd = 1;
    return (FILE *) &F[k];
}
static int pst;
void os_pstatus (int st) { pst = st; }
int vp_pclose (FILE *fp) { struct strm *s = S(fp); drop((int) (s - F)); return pst; }
