// A small stdio whose buffers belong to the simulator (so that fork duplicates them and failures are decided here).
#include "sim.h"
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
using namespace sim;
extern "C" int sim_vfprintf(FILE *, const char *, va_list);
// FILE handles are fixed addresses inside this block; the library never looks inside
static char handles[64 * 64];
static FILE *handle(int i) { return (FILE *)(handles + i * 64); }
static SimFile *lookup(FILE *f, const char *what) {
  char *p = (char *)f;
  if (p < handles || p >= handles + sizeof handles || (p - handles) % 64) viol("bad-stream", "%s on an invalid stream pointer", what);
  size_t i = (p - handles) / 64;
  if (i >= P->app.files.size() || !P->app.files[i].used) viol("bad-stream", "%s on a stream that is closed (handle %zu)", what, i);
  return &P->app.files[i];
}
namespace sim {
void stdio_reset(App &a) {
  a.files.assign(3, SimFile());
  for (int i = 0; i < 3; i++) { a.files[i].used = true; a.files[i].fd = i; a.files[i].cap = cfg.stdio_buf; a.files[i].rd = i == 0; a.files[i].wr = i > 0; }
  a.files[1].mode = cfg.tty_out ? 1 : 0; a.files[2].mode = 2;
}
}
extern "C" void *sim_realloc(void *, size_t);
static int flush(SimFile *f) {
  if (f->mptr) { // a stream into memory
    char *q = (char *)sim_realloc(f->mbuf, f->mlen + f->buf.size() + 1);
    if (!q) { f->buf.clear(); f->err = true; return EOF; }
    memcpy(q + f->mlen, f->buf.data(), f->buf.size()); f->mlen += f->buf.size(); q[f->mlen] = 0; f->buf.clear();
    *f->mptr = f->mbuf = q; *f->msize = f->mlen;
    return 0;
  }
  size_t done = 0;
  while (done < f->buf.size()) {
    ssize_t r = sim_write(f->fd, f->buf.data() + done, f->buf.size() - done);
    if (r < 0 && errno == EINTR) continue; // signals meet streams only through the C library, whose behaviour is not under test
    if (r <= 0) { f->buf.clear(); f->err = true; return EOF; } // glibc drops what it could not write
    done += r;
  }
  f->buf.clear();
  return 0;
}
static int put(SimFile *f, const char *s, size_t n) {
  if (!f->wr) { f->err = true; errno = EBADF; return EOF; }
  if (!f->touched) { f->touched = true; if (f->mode == 0) errno = ENOTTY; }
  if (f == &P->app.files[1] && !P->app.app_depth && !P->app.in_callback) K->lib_said += n;
  f->rbuf.clear();
  f->buf.append(s, n);
  if (f->mode == 2) return flush(f);
  if (f->mode == 1 && memchr(s, '\n', n)) return flush(f);
  if (f->buf.size() >= f->cap) return flush(f);
  return 0;
}
static FILE *newfile(int fd, const char *mode) {
  size_t i = 0;
  auto &v = P->app.files;
  while (i < v.size() && v[i].used) i++;
  if (i >= 64) { errno = EMFILE; return nullptr; }
  if (i >= v.size()) v.resize(i + 1);
  v[i] = SimFile(); v[i].used = true; v[i].fd = fd; v[i].cap = cfg.stdio_buf;
  v[i].rd = mode[0] == 'r' || strchr(mode, '+'); v[i].wr = mode[0] != 'r' || strchr(mode, '+'); v[i].append = mode[0] == 'a';
  return handle(i);
}
extern "C" {
off_t sim_lseek(int, off_t, int);
#define sim_lseek_for_stdio sim_lseek
FILE *sim_stdin = (FILE *)handles, *sim_stdout = (FILE *)(handles + 64), *sim_stderr = (FILE *)(handles + 128);
void sim_stdio_flush_all(void) { for (auto &f : P->app.files) if (f.used && f.wr && !f.mptr && !f.buf.empty()) flush(&f); }
FILE *sim_fopen(const char *path, const char *m) {
  int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
  if (m[0] == 'w') fl |= O_CREAT | O_TRUNC;
  if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
  if (strchr(m, 'e')) fl |= O_CLOEXEC;
  int fd = sim_open(path, fl, 0666);
  if (fd < 0) return nullptr;
  FILE *f = newfile(fd, m); if (!f) sim_close(fd);
  return f;
}
FILE *sim_fdopen(int fd, const char *m) { return newfile(fd, m); }
FILE *sim_open_memstream(char **p, size_t *n) { FILE *f = newfile(-1, "w"); if (!f) return nullptr; SimFile *s = lookup(f, "open_memstream"); s->mptr = p; s->msize = n; s->cap = (size_t)1 << 30; s->touched = true; if (flush(s)) { s->used = false; errno = ENOMEM; return nullptr; } return f; }
int sim_fclose(FILE *fp) {
  if (SimFile *m = lookup(fp, "fclose"); m->mptr) { int r = flush(m); m->used = false; return r; }
  SimFile *f = lookup(fp, "fclose"); int r = 0;
  if (!f->buf.empty()) r = flush(f);
  TR("fclose fd %d", f->fd);
  if (sim_close(f->fd)) r = EOF;
  f = lookup(fp, "fclose"); f->used = false;
  return r;
}
FILE *sim_freopen(const char *path, const char *m, FILE *fp) { SimFile *f = lookup(fp, "freopen"); flush(f); sim_close(f->fd); int fd = sim_open(path, O_WRONLY | O_CREAT | (m[0] == 'a' ? O_APPEND : O_TRUNC)); if (fd < 0) return nullptr; f->fd = fd; return fp; }
int sim_fflush(FILE *fp) {
  if (!fp) { int r = 0; for (auto &f : P->app.files) if (f.used && f.wr && !f.mptr && !f.buf.empty() && flush(&f)) r = EOF; return r; }
  SimFile *f = lookup(fp, "fflush");
  if (f->buf.empty() && !f->mptr) return 0;
  return flush(f);
}
int sim_vfprintf(FILE *fp, const char *fm, va_list ap) {
  SimFile *f = lookup(fp, "fprintf");
  Str s = vfmt(fm, ap);
  return put(f, s.data(), s.size()) ? -1 : (int)s.size();
}
int sim_fprintf(FILE *fp, const char *fm, ...) { va_list ap; va_start(ap, fm); int n = sim_vfprintf(fp, fm, ap); va_end(ap); return n; }
int sim_printf(const char *fm, ...) { va_list ap; va_start(ap, fm); int n = sim_vfprintf(sim_stdout, fm, ap); va_end(ap); return n; }
int sim_vprintf(const char *fm, va_list ap) { return sim_vfprintf(sim_stdout, fm, ap); }
int sim_vdprintf(int fd, const char *fm, va_list ap) { Str s = vfmt(fm, ap); return sim_write(fd, s.data(), s.size()); }
int sim_dprintf(int fd, const char *fm, ...) { va_list ap; va_start(ap, fm); int n = sim_vdprintf(fd, fm, ap); va_end(ap); return n; }
int sim_fputs(const char *s, FILE *fp) { return put(lookup(fp, "fputs"), s, strlen(s)) ? EOF : 1; }
int sim_fputs_unlocked(const char *s, FILE *fp) { return sim_fputs(s, fp); }
int sim_puts(const char *s) { Str t = Str(s) + "\n"; return put(lookup(sim_stdout, "puts"), t.data(), t.size()) ? EOF : 1; }
int sim_fputc(int c, FILE *fp) { char b = c; return put(lookup(fp, "fputc"), &b, 1) ? EOF : (unsigned char)c; }
int sim_putc(int c, FILE *fp) { return sim_fputc(c, fp); }
int sim__IO_putc(int c, FILE *fp) { return sim_fputc(c, fp); }
int sim_fputc_unlocked(int c, FILE *fp) { return sim_fputc(c, fp); }
int sim_putc_unlocked(int c, FILE *fp) { return sim_fputc(c, fp); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *fp) { SimFile *f = lookup(fp, "fwrite"); std::string t((const char *)b, s * n); return put(f, t.data(), t.size()) ? 0 : n; }
size_t sim_fwrite_unlocked(const void *b, size_t s, size_t n, FILE *fp) { return sim_fwrite(b, s, n, fp); }
static bool fill(SimFile *f) { if (!f->rbuf.empty()) return true; char b[1024]; ssize_t r = sim_read(f->fd, b, sizeof b); if (r <= 0) { if (r < 0) f->err = true; else f->eof = true; return false; } f->rbuf.assign(b, r); return true; }
int sim_fgetc(FILE *fp) { SimFile *f = lookup(fp, "fgetc"); if (!fill(f)) return EOF; unsigned char c = f->rbuf[0]; f->rbuf.erase(0, 1); return c; }
int sim_getc(FILE *fp) { return sim_fgetc(fp); }
int sim_getchar(void) { return sim_fgetc(sim_stdin); }
char *sim_fgets(char *b, int n, FILE *fp) { int i = 0; while (i < n - 1) { int c = sim_fgetc(fp); if (c == EOF) break; b[i++] = c; if (c == '\n') break; } if (!i) return nullptr; b[i] = 0; return b; }
size_t sim_fread(void *b, size_t s, size_t n, FILE *fp) { size_t t = s * n, i = 0; while (i < t) { int c = sim_fgetc(fp); if (c == EOF) break; ((char *)b)[i++] = c; } return s ? i / s : 0; }
int sim_ungetc(int c, FILE *fp) { SimFile *f = lookup(fp, "ungetc"); f->rbuf.insert(f->rbuf.begin(), (char)c); return c; }
int sim_fseek(FILE *fp, long off, int wh) {
  SimFile *f = lookup(fp, "fseek");
  if (!f->buf.empty() && flush(f)) return -1;
  f->rbuf.clear(); f->eof = false;
  return sim_lseek_for_stdio(f->fd, off, wh) < 0 ? -1 : 0;
}
int sim_fseeko(FILE *fp, off_t off, int wh) { return sim_fseek(fp, off, wh); }
long sim_ftell(FILE *fp) { SimFile *f = lookup(fp, "ftell"); long r = sim_lseek_for_stdio(f->fd, 0, SEEK_CUR); return r < 0 ? r : r + (long)f->buf.size(); }
void sim_rewind(FILE *fp) { sim_fseek(fp, 0, SEEK_SET); lookup(fp, "rewind")->err = false; }
int sim_fileno(FILE *fp) { return lookup(fp, "fileno")->fd; }
int sim_ferror(FILE *fp) { return lookup(fp, "ferror")->err; }
int sim_feof(FILE *fp) { return lookup(fp, "feof")->eof; }
void sim_clearerr(FILE *fp) { SimFile *f = lookup(fp, "clearerr"); f->err = f->eof = false; }
int sim_setvbuf(FILE *fp, char *, int mode, size_t n) { SimFile *f = lookup(fp, "setvbuf"); f->mode = mode == _IONBF ? 2 : mode == _IOLBF ? 1 : 0; if (n) f->cap = n; return 0; }
void sim_setbuf(FILE *fp, char *b) { sim_setvbuf(fp, b, b ? _IOFBF : _IONBF, BUFSIZ); }
void sim_setlinebuf(FILE *fp) { sim_setvbuf(fp, nullptr, _IOLBF, 0); }
void sim_flockfile(FILE *) {}
void sim_funlockfile(FILE *) {}
void sim_perror(const char *s) { int e = errno; if (s && *s) sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(e)); else sim_fprintf(sim_stderr, "%s\n", strerror(e)); }
int sim_fflush_unlocked(FILE *fp) { return sim_fflush(fp); }
int sim_fileno_unlocked(FILE *fp) { return sim_fileno(fp); }
int sim_ferror_unlocked(FILE *fp) { return sim_ferror(fp); }
int sim_putchar_unlocked(int c) { return sim_putchar(c); }
int sim_putw(int w, FILE *fp) { return sim_fwrite(&w, sizeof w, 1, fp) == 1 ? 0 : EOF; }
static Str errline(const char *fm, va_list ap, const char *tail) { Str s = "prog: "; if (fm) s += vfmt(fm, ap); if (tail) { if (fm) s += ": "; s += tail; } return s + "\n"; }
void sim_vwarn(const char *fm, va_list ap) { Str s = errline(fm, ap, strerror(errno)); sim_fputs(s.c_str(), sim_stderr); }
void sim_vwarnx(const char *fm, va_list ap) { Str s = errline(fm, ap, nullptr); sim_fputs(s.c_str(), sim_stderr); }
void sim_warn(const char *fm, ...) { va_list ap; va_start(ap, fm); sim_vwarn(fm, ap); va_end(ap); }
void sim_warnx(const char *fm, ...) { va_list ap; va_start(ap, fm); sim_vwarnx(fm, ap); va_end(ap); }
void sim_err(int x, const char *fm, ...) { va_list ap; va_start(ap, fm); sim_vwarn(fm, ap); va_end(ap); sim_exit(x); }
void sim_errx(int x, const char *fm, ...) { va_list ap; va_start(ap, fm); sim_vwarnx(fm, ap); va_end(ap); sim_exit(x); }
int sim___fprintf_chk(FILE *fp, int, const char *fm, ...) { va_list ap; va_start(ap, fm); int n = sim_vfprintf(fp, fm, ap); va_end(ap); return n; }
int sim___printf_chk(int, const char *fm, ...) { va_list ap; va_start(ap, fm); int n = sim_vfprintf(sim_stdout, fm, ap); va_end(ap); return n; }
int sim___vfprintf_chk(FILE *fp, int, const char *fm, va_list ap) { return sim_vfprintf(fp, fm, ap); }
}
extern "C" {
FILE *sim_fopen64(const char *, const char *) __attribute__((alias("sim_fopen")));
int sim_fseeko64(FILE *, off_t, int) __attribute__((alias("sim_fseeko")));
}
