/* SQLite as the facade uses it (an in-memory database), translated to LLVM IR
   for symx together with the few C library functions it calls. */
#define SQLITE_ENABLE_FTS5 1
#define SQLITE_THREADSAFE 2
#define SQLITE_OMIT_LOAD_EXTENSION 1
#define SQLITE_DEFAULT_MEMSTATUS 0
#define SQLITE_OMIT_WAL 1
#define SQLITE_MAX_MMAP_SIZE 0
#define LONGDOUBLE_TYPE double
#include "sqlite3.c"

int strcmp(const char *a, const char *b) {
  while (*a && *a == *b) { a++; b++; }
  return *(const unsigned char *)a - *(const unsigned char *)b;
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) {
    if (*a != *b) return *(const unsigned char *)a - *(const unsigned char *)b;
    if (!*a) return 0;
  }
  return 0;
}
size_t strcspn(const char *s, const char *r) {
  size_t n = 0;
  for (; s[n]; n++)
    for (const char *p = r; *p; p++)
      if (*p == s[n]) return n;
  return n;
}
char *strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; s++) {
    if (*s == (char)c) r = s;
    if (!*s) return (char *)r;
  }
}
/* the clock does not advance */
time_t time(time_t *t) { if (t) *t = 0; return 0; }
int gettimeofday(struct timeval *tv, void *tz) { if (tv) { tv->tv_sec = 0; tv->tv_usec = 0; } return 0; }

/* one thread: a mutex is never waited for */
int pthread_mutexattr_init(pthread_mutexattr_t *a) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) { return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
