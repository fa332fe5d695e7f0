// preloaded into native replays: the fault options of the executor's file system
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
static long short_read = -1, short_write = -1, fail_write = -1, crash = -1, fail_read = -1; static int torn = 0, dead = 0;
// a change outside the jail is reported and not carried out; paths are taken lexically (replays make no links)
static char jail[4096] = "";
static void lex(const char *p, char *o) {
  char t[8192]; if (*p == '/') snprintf(t, sizeof t, "%s", p); else { char c[4096]; if (!getcwd(c, sizeof c)) _exit(1); snprintf(t, sizeof t, "%s/%s", c, p); }
  int n = 0; char *s = 0; o[0] = 0;
  for (char *w = strtok_r(t, "/", &s); w; w = strtok_r(0, "/", &s)) { if (!strcmp(w, ".")) continue; if (!strcmp(w, "..")) { while (n && o[--n] != '/') {} o[n] = 0; continue; } o[n++] = '/'; strcpy(o + n, w); n += strlen(w); }
}
static void inside(const char *p) {
  if (!*jail) return; char o[8192]; lex(p, o); size_t n = strlen(jail);
  if (!strncmp(o, jail, n) && (o[n] == 0 || o[n] == '/')) return;
  fprintf(stderr, "ASSERTION FAILED: nothing outside the given directory is changed (%s)\n", o); _exit(1);
}
void sxshim_opt(const char *k, unsigned long v) {
  if (!strcmp(k, "jail")) { if (v == (unsigned long)-1) jail[0] = 0; else { char o[8192]; lex((const char *)v, o); snprintf(jail, sizeof jail, "%s", o); } }
  if (!strcmp(k, "short_read")) short_read = (long)v; if (!strcmp(k, "short_write")) short_write = (long)v; if (!strcmp(k, "fail_write")) fail_write = (long)v;
  if (!strcmp(k, "crash")) { crash = (long)v; dead = 0; } if (!strcmp(k, "fail_read")) fail_read = (long)v; if (!strcmp(k, "torn")) torn = v != (unsigned long)-1;
}
ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*r)(int, void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "read");
  if (fd > 2 && fail_read >= 0 && fail_read-- == 0) { errno = EIO; return -1; }
  if (fd > 2 && short_read > 0 && n > (size_t)short_read) n = short_read;
  return r(fd, b, n);
}
// the fail_write-th operation from here fails once; the crash-th and all later ones fail (1: it is this one)
static int hit(void) {
  int w = 0;
  if (fail_write >= 0 && fail_write-- == 0) { errno = ENOSPC; return 2; }
  if (dead) w = 2; else if (crash >= 0 && crash-- == 0) { dead = 1; w = 1; }
  if (w) errno = EIO; return w;
}
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*w)(int, const void *, size_t); if (!w) w = dlsym(RTLD_NEXT, "write");
  if (fd <= 2) return w(fd, b, n);
  int h = hit(); if (h) { if (h == 1 && torn && n / 2 && w(fd, b, n / 2)) {} errno = h == 1 ? EIO : errno; return -1; }
  if (short_write > 0 && n > (size_t)short_write) n = short_write;
  return w(fd, b, n);
}
#define OPEN(name) int name(const char *p, int fl, ...) { static int (*f)(const char *, int, ...); if (!f) f = dlsym(RTLD_NEXT, #name); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) inside(p); if ((fl & (O_CREAT | O_TRUNC)) && hit()) return -1; return f(p, fl, m); }
OPEN(open) OPEN(open64)
int unlink(const char *p) { static int (*f)(const char *); if (!f) f = dlsym(RTLD_NEXT, "unlink"); inside(p); if (hit()) return -1; return f(p); }
int ftruncate64(int fd, off_t n) { static int (*f)(int, off_t); if (!f) f = dlsym(RTLD_NEXT, "ftruncate64"); if (hit()) return -1; return f(fd, n); }
int mkdir(const char *p, mode_t m) { static int (*f)(const char *, mode_t); if (!f) f = dlsym(RTLD_NEXT, "mkdir"); if (access(p, F_OK)) inside(p); return f(p, m); }
int rename(const char *a, const char *b) {
  static int (*f)(const char *, const char *); if (!f) f = dlsym(RTLD_NEXT, "rename"); inside(a); inside(b);
  if (hit()) return -1;
  return f(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
  static int (*f)(int, const char *, int, const char *); if (!f) f = dlsym(RTLD_NEXT, "renameat"); inside(a); inside(b);
  if (hit()) return -1;
  return f(x, a, y, b);
}
int renameat2(int x, const char *a, int y, const char *b, unsigned fl) {
  static int (*f)(int, const char *, int, const char *, unsigned); if (!f) f = dlsym(RTLD_NEXT, "renameat2"); inside(a); inside(b);
  if (hit()) return -1;
  return f(x, a, y, b, fl);
}
