/* Entry points that replace libc for the library and for simulated applications. */
#include <stddef.h>
#include <stdio.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
extern FILE *sim_stdin, *sim_stdout, *sim_stderr;
/* heap */
void *sim_malloc(size_t n); void *sim_calloc(size_t a, size_t b); void *sim_realloc(void *p, size_t n);
void sim_free(void *p); char *sim_strdup(const char *s); char *sim_strndup(const char *s, size_t n);
/* processes */
int sim_fork(void); int sim_execvp(const char *file, char *const argv[]);
int sim_waitpid(int pid, int *status, int opt); int sim_wait(int *status);
int sim_kill(int pid, int sig); int sim_getpid(void); int sim_getppid(void);
void sim__exit(int code) __attribute__((noreturn)); void sim_exit(int code) __attribute__((noreturn));
void sim_abort(void) __attribute__((noreturn)); int sim_atexit(void (*f)(void));
/* descriptors */
int sim_pipe(int fds[2]); int sim_close(int fd); int sim_dup2(int a, int b); int sim_dup(int a);
int sim_open(const char *path, int flags, ...); int sim_fcntl(int fd, int cmd, ...);
ssize_t sim_read(int fd, void *b, size_t n); ssize_t sim_write(int fd, const void *b, size_t n);
int sim_mkdir(const char *path, mode_t m);
/* stdio */
FILE *sim_fopen(const char *path, const char *mode); int sim_fclose(FILE *f); int sim_fflush(FILE *f);
FILE *sim_fdopen(int fd, const char *mode);
int sim_fprintf(FILE *f, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
int sim_printf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int sim_fputs(const char *s, FILE *f); int sim_fputc(int c, FILE *f); int sim_fileno(FILE *f);
int sim_fseek(FILE *f, long off, int wh);
/* time, randomness */
time_t sim_time(time_t *t); int sim_gettimeofday(struct timeval *tv, void *tz);
struct tm *sim_localtime(const time_t *t);
long sim_random(void);
