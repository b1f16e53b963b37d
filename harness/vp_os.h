/*
 * In-memory file system standing in for the operating system: the real
 * sources are compiled with their calls renamed (fopen -> vp_fopen, ...), so
 * nothing they do reaches a real file.  Any call may be made to fail.
 */
#ifndef VP_OS_H
#define VP_OS_H
#ifndef OS_NAME
#define OS_NAME 24                         /* the longest file name */
#endif
#include <stddef.h>

void os_reset (void);
void os_fault (int k);              /* the k-th call from now fails (-1: none) */
void os_fault2 (int k);             /* and another one */
int os_faulted (void);              /* calls that failed so far */
int os_calls (void);
void os_short (int n);              /* read() and write() transfer at most n bytes (0: no limit) */
void os_put (const char *name, const void *data, size_t n);
long os_size (const char *name);    /* -1: no such file */
const unsigned char *os_data (const char *name);
void os_mtime (const char *name, long t);
int os_open_files (void);
void os_pipe (const void *data, size_t n);   /* what a command prints */
void os_pstatus (int status);               /* and how it ends */
const char *os_command (void);               /* the command run last */
#endif
