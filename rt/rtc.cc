// Models of the library functions the code under test calls, executed by the
// symbolic engine (never natively).  Files live in memory.
#include "sym.h"
#include <cstdarg>
#include <cstddef>
extern "C" {
void *malloc(size_t);
void *realloc(void *, size_t);
void free(void *);
void *memcpy(void *, const void *, size_t);
void *memset(void *, int, size_t);
int memcmp(const void *, const void *, size_t);
int sx_fmt_double(char *, size_t, const char *, double);
double sx_strtod(const char *, char **);
int sx_issym(const void *, size_t);
size_t sx_objsize(const void *);
void abort(void);

// ---- strings -------------------------------------------------------------
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  while (*a && *a == *b) { a++; b++; }
  return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
  while (n && *a && *a == *b) { a++; b++; n--; }
  return n ? (unsigned char)*a - (unsigned char)*b : 0;
}
char *strchr(const char *s, int c) {
  for (;; s++) {
    if (*s == (char)c) return (char *)s;
    if (!*s) return 0;
  }
}
char *strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; s++) {
    if (*s == (char)c) r = s;
    if (!*s) return (char *)r;
  }
}
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *s = (const unsigned char *)p;
  for (; n; n--, s++)
    if (*s == (unsigned char)c) return (void *)s;
  return 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) { char *r = (char *)malloc(strlen(s) + 1); strcpy(r, s); return r; }
char *strstr(const char *h, const char *n) {
  size_t l = strlen(n);
  for (;; h++) {
    if (!strncmp(h, n, l)) return (char *)h;
    if (!*h) return 0;
  }
}
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
static char *tok_save;
char *strtok_r(char *s, const char *d, char **save) {
  if (!s) s = *save;
  if (!s) return 0;
  s += strspn(s, d);
  if (!*s) { *save = s; return 0; }
  char *e = s + strcspn(s, d);
  if (*e) { *e = 0; *save = e + 1; } else *save = e;
  return s;
}
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_save); }
static char errbuf[8];
char *strerror(int) { errbuf[0] = 'e'; errbuf[1] = 0; return errbuf; }
static int errno_v;
int *__errno_location(void) { return &errno_v; }
void perror(const char *) {}
char __libc_single_threaded = 1;
void *__dso_handle;
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isspace(int c) { return sp(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
long strtol(const char *s, char **end, int base) {
  const char *p = s;
  while (sp((unsigned char)*p)) p++;
  int neg = 0;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  long v = 0;
  int any = 0, over = 0;
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    any = 1;
    if (v > (0x7fffffffffffffffL - d) / base) over = 1;
    else v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (over) { errno_v = 34; return neg ? (-0x7fffffffffffffffL - 1) : 0x7fffffffffffffffL; }
  return neg ? -v : v;
}
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
double strtod(const char *s, char **e) { return sx_strtod(s, e); }
float strtof(const char *s, char **e) { return (float)sx_strtod(s, e); }
double atof(const char *s) { return sx_strtod(s, 0); }
int abs(int x) { return x < 0 ? -x : x; }

void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *a = (char *)b;
  char *t = (char *)malloc(sz);
  for (size_t i = 1; i < n; i++) {
    size_t j = i;
    memcpy(t, a + i * sz, sz);
    while (j > 0 && cmp(a + (j - 1) * sz, t) > 0) {
      memcpy(a + j * sz, a + (j - 1) * sz, sz);
      j--;
    }
    memcpy(a + j * sz, t, sz);
  }
  free(t);
}
char *getenv(const char *) { return 0; }

// ---- files ---------------------------------------------------------------
struct Node { char *name; char *buf; size_t size, cap; Node *next; };
struct SXF { Node *n; size_t pos; int eof, err, wr, rd, app, kind; int unget; };
typedef SXF FILE;
static Node *fs;
static Node n_in, n_out, n_err;
static int nopen;
static SXF f_in = {&n_in, 0, 0, 0, 0, 1, 0, 1, -1}, f_out = {&n_out, 0, 0, 0, 1, 0, 0, 2, -1}, f_err = {&n_err, 0, 0, 0, 1, 0, 0, 3, -1};
FILE *stdin = &f_in, *stdout = &f_out, *stderr = &f_err;
static FILE *mk(Node *n, int wr, int rd, int app) {
  FILE *f = (FILE *)malloc(sizeof(FILE));
  f->n = n; f->pos = 0; f->eof = f->err = 0; f->wr = wr; f->rd = rd; f->app = app; f->kind = 0; f->unget = -1;
  nopen++;
  return f;
}
int sx_open_files(void) { return nopen; }
static Node *find(const char *name) {
  for (Node *n = fs; n; n = n->next)
    if (!strcmp(n->name, name)) return n;
  return 0;
}
FILE *fopen(const char *name, const char *mode) {
  Node *n = find(name);
  if (mode[0] == 'r') {
    if (!n) { errno_v = 2; return 0; }
    return mk(n, mode[1] == '+', 1, 0);
  }
  if (!n) {
    n = (Node *)malloc(sizeof(Node));
    n->name = strdup(name); n->buf = 0; n->size = n->cap = 0; n->next = fs;
    fs = n;
  }
  if (mode[0] == 'w') n->size = 0;
  return mk(n, 1, mode[1] == '+', mode[0] == 'a');
}
FILE *tmpfile(void) {
  Node *n = (Node *)malloc(sizeof(Node));
  n->name = strdup("*"); n->buf = 0; n->size = n->cap = 0; n->next = 0;
  return mk(n, 1, 1, 0);
}
int remove(const char *name) {
  Node **p = &fs;
  for (; *p; p = &(*p)->next)
    if (!strcmp((*p)->name, name)) { *p = (*p)->next; return 0; }
  return -1;
}
int unlink(const char *n) { return remove(n); }
int fclose(FILE *f) {
  if (f->kind) return 0;
  nopen--;
  free(f);
  return 0;
}
int fflush(FILE *) { return 0; }
int feof(FILE *f) { return f->eof; }
int ferror(FILE *f) { return f->err; }
void clearerr(FILE *f) { f->eof = f->err = 0; }
void rewind(FILE *f) { f->pos = 0; f->eof = f->err = 0; f->unget = -1; }
int fseek(FILE *f, long o, int w) {
  f->unget = -1;
  long p = w == 0 ? o : w == 1 ? (long)f->pos + o : (long)f->n->size + o;
  if (p < 0) return -1;
  f->pos = p; f->eof = 0;
  return 0;
}
long ftell(FILE *f) { return f->pos - (f->unget >= 0); }
int fgetc(FILE *f) {
  if (!f->rd) { f->err = 1; return -1; }
  if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
  if (f->pos >= f->n->size) { f->eof = 1; return -1; }
  return (unsigned char)f->n->buf[f->pos++];
}
int getc(FILE *f) { return fgetc(f); }
int _IO_getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *f) { if (c >= 0) { f->unget = c; f->eof = 0; } return c; }
static void put(FILE *f, const char *d, size_t n) {
  if (f->kind) return; // standard streams: discarded
  if (!f->wr) { f->err = 1; return; }
  Node *k = f->n;
  if (f->app) f->pos = k->size;
  if (f->pos + n > k->cap) {
    k->cap = (f->pos + n) * 2 + 256;
    k->buf = (char *)realloc(k->buf, k->cap);
  }
  memcpy(k->buf + f->pos, d, n);
  f->pos += n;
  if (f->pos > k->size) k->size = f->pos;
}
int fputc(int c, FILE *f) { char b = (char)c; put(f, &b, 1); return (unsigned char)c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return c; }
int puts(const char *) { return 0; }
int fputs(const char *s, FILE *f) { put(f, s, strlen(s)); return 0; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
  if (!f->kind && !f->wr) { f->err = 1; return 0; }
  put(f, (const char *)p, s * n);
  return n;
}
size_t fread(void *p, size_t s, size_t n, FILE *f) {
  char *d = (char *)p;
  if (s == 0 || n == 0) return 0;
  if (f->unget >= 0) { // slow path
    size_t k = 0;
    for (; k < s * n; k++) { int c = fgetc(f); if (c < 0) break; d[k] = (char)c; }
    return k / s;
  }
  size_t have = f->pos < f->n->size ? f->n->size - f->pos : 0, want = s * n;
  if (have < want) { f->eof = 1; want = have; }
  if (want) memcpy(d, f->n->buf + f->pos, want);
  f->pos += want;
  return want / s;
}
char *fgets(char *s, int n, FILE *f) {
  int i = 0;
  while (i < n - 1) {
    int c = fgetc(f);
    if (c < 0) break;
    s[i++] = (char)c;
    if (c == '\n') break;
  }
  if (i == 0) return 0;
  s[i] = 0;
  return s;
}
// pipes: the harness may define its own
__attribute__((weak)) FILE *popen(const char *, const char *) { errno_v = 2; return 0; }
__attribute__((weak)) int pclose(FILE *f) { return fclose(f); }

// ---- formatted output ----------------------------------------------------
struct Sink { char *b; size_t cap, n; FILE *f; };
static void em(Sink *k, char c) {
  if (k->f) put(k->f, &c, 1);
  else if (k->n + 1 < k->cap) k->b[k->n] = c;
  k->n++;
}
static void fmt(Sink *k, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { em(k, *f); continue; }
    const char *st = f++;
    int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) {
      if (*f == '-') left = 1;
      else if (*f == '0') zero = 1;
      else if (*f == '+') plus = 1;
      else if (*f == ' ' || *f == '#') ;
      else break;
    }
    if (*f == '*') { width = va_arg(ap, int); f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') {
      f++;
      prec = 0;
      if (*f == '*') { prec = va_arg(ap, int); f++; }
      while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0';
    }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'L') { if (*f != 'h') lng = 1; f++; }
    char tmp[420];
    const char *s = tmp;
    int n = 0;
    switch (*f) {
    case '%': em(k, '%'); continue;
    case 'c': tmp[0] = (char)va_arg(ap, int); n = 1; break;
    case 's':
      s = va_arg(ap, const char *);
      if (!s) s = "(null)";
      while ((prec < 0 || n < prec) && s[n]) n++;
      break;
    case 'd': case 'i': case 'u': case 'x': {
      long v = lng ? va_arg(ap, long) : (*f == 'u' || *f == 'x') ? (long)va_arg(ap, unsigned) : (long)va_arg(ap, int);
      unsigned long u = v;
      int neg = 0;
      if ((*f == 'd' || *f == 'i') && v < 0) { neg = 1; u = -(unsigned long)v; }
      int base = *f == 'x' ? 16 : 10;
      char r[40];
      int m = 0;
      do { r[m++] = "0123456789abcdef"[u % base]; u /= base; } while (u);
      while (zero && !left && m + neg < width && m < 30) r[m++] = '0';
      if (neg) r[m++] = '-';
      else if (plus) r[m++] = '+';
      while (m) tmp[n++] = r[--m];
      break;
    }
    case 'p': tmp[0] = 'p'; n = 1; va_arg(ap, void *); break;
    case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': {
      char spec[32];
      int m = 0;
      for (const char *q = st; q <= f && m < 30; q++)
        if (*q != 'l' && *q != 'L') spec[m++] = *q;
      spec[m] = 0;
      n = sx_fmt_double(tmp, sizeof tmp, spec, va_arg(ap, double));
      break;
    }
    default: abort();
    }
    for (int i = n; !left && i < width; i++) em(k, ' ');
    for (int i = 0; i < n; i++) em(k, s[i]);
    for (int i = n; left && i < width; i++) em(k, ' ');
  }
}
int vfprintf(FILE *f, const char *s, va_list ap) {
  if (f->kind) return 0;
  Sink k = {0, 0, 0, f};
  fmt(&k, s, ap);
  return (int)k.n;
}
int fprintf(FILE *f, const char *s, ...) {
  if (f->kind) return 0;
  va_list ap;
  va_start(ap, s);
  int r = vfprintf(f, s, ap);
  va_end(ap);
  return r;
}
int printf(const char *, ...) { return 0; }
int vsnprintf(char *b, size_t n, const char *s, va_list ap) {
  Sink k = {b, n, 0, 0};
  fmt(&k, s, ap);
  if (n) b[k.n < n ? k.n : n - 1] = 0;
  return (int)k.n;
}
int snprintf(char *b, size_t n, const char *s, ...) {
  va_list ap;
  va_start(ap, s);
  int r = vsnprintf(b, n, s, ap);
  va_end(ap);
  return r;
}
int sprintf(char *b, const char *s, ...) {
  va_list ap;
  va_start(ap, s);
  int r = vsnprintf(b, (size_t)1 << 40, s, ap);
  va_end(ap);
  return r;
}
// ---- formatted input -----------------------------------------------------
struct Src { const char *s; FILE *f; int n; };
static int gc(Src *k) {
  if (k->f) { int c = fgetc(k->f); if (c >= 0) k->n++; return c; }
  if (!*k->s) return -1;
  k->n++;
  return (unsigned char)*k->s++;
}
static void ug(Src *k, int c) {
  if (c < 0) return;
  k->n--;
  if (k->f) ungetc(c, k->f);
  else k->s--;
}
static int scan(Src *k, const char *f, va_list ap) {
  int got = 0, c;
  for (; *f; f++) {
    if (sp((unsigned char)*f)) {
      do c = gc(k); while (c >= 0 && sp(c));
      ug(k, c);
      continue;
    }
    if (*f != '%') {
      c = gc(k);
      if (c < 0) return got ? got : -1;
      if (c != (unsigned char)*f) { ug(k, c); return got; }
      continue;
    }
    f++;
    if (*f == '%') {
      do c = gc(k); while (c >= 0 && sp(c));
      if (c != '%') { ug(k, c); return got; }
      continue;
    }
    int skip = 0, width = 0, lng = 0;
    if (*f == '*') { skip = 1; f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    while (*f == 'l' || *f == 'h' || *f == 'z') { if (*f == 'l' || *f == 'z') lng++; f++; }
    if (*f == 'n') { *va_arg(ap, int *) = k->n; continue; }
    if (*f != 'c' && *f != '[') {
      do c = gc(k); while (c >= 0 && sp(c));
      if (c < 0) return got ? got : -1;
      ug(k, c);
    }
    if (*f == 'c') {
      c = gc(k);
      if (c < 0) return got ? got : -1;
      if (!skip) { *va_arg(ap, char *) = (char)c; got++; }
    } else if (*f == 's') {
      char *d = skip ? 0 : va_arg(ap, char *);
      int n = 0;
      while ((!width || n < width) && (c = gc(k)) >= 0) {
        if (sp(c)) { ug(k, c); break; }
        if (d) d[n] = (char)c;
        n++;
      }
      if (d) { d[n] = 0; got++; }
    } else if (*f == 'd' || *f == 'i' || *f == 'u') {
      char b[40];
      int n = 0;
      c = gc(k);
      if (c == '-' || c == '+') { b[n++] = (char)c; c = gc(k); }
      int dig = 0;
      while (c >= 0 && c >= '0' && c <= '9' && n < 38) { b[n++] = (char)c; dig++; c = gc(k); }
      ug(k, c);
      b[n] = 0;
      if (!dig) return got;
      long v = strtol(b, 0, 10);
      if (!skip) {
        if (lng) *va_arg(ap, long *) = v;
        else *va_arg(ap, int *) = (int)v;
        got++;
      }
    } else if (*f == 'f' || *f == 'g' || *f == 'e') {
      char b[80];
      int n = 0;
      c = gc(k);
      while (c >= 0 && !sp(c) && n < 78) { // conservative: the whole token
        if (!(isdigit(c) || isalpha(c) || c == '-' || c == '+' || c == '.' || c == '@')) break;
        b[n++] = (char)c;
        c = gc(k);
      }
      ug(k, c);
      b[n] = 0;
      char *e;
      double v = sx_strtod(b, &e);
      if (e == b) return got;
      if (!skip) {
        if (lng) *va_arg(ap, double *) = v;
        else *va_arg(ap, float *) = (float)v;
        got++;
      }
    } else abort();
  }
  return got;
}
int vsscanf(const char *s, const char *f, va_list ap) { Src k = {s, 0, 0}; return scan(&k, f, ap); }
int vfscanf(FILE *s, const char *f, va_list ap) { Src k = {0, s, 0}; return scan(&k, f, ap); }
int sscanf(const char *s, const char *f, ...) {
  va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r;
}
int __isoc23_sscanf(const char *s, const char *f, ...) {
  va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r;
}
int fscanf(FILE *s, const char *f, ...) {
  va_list ap; va_start(ap, f); int r = vfscanf(s, f, ap); va_end(ap); return r;
}
int __isoc23_fscanf(FILE *s, const char *f, ...) {
  va_list ap; va_start(ap, f); int r = vfscanf(s, f, ap); va_end(ap); return r;
}
long getline(char **lp, size_t *cap, FILE *f) {
  size_t n = 0;
  for (;;) {
    int c = fgetc(f);
    if (c < 0) break;
    if (!*lp || n + 2 > *cap) { *cap = (n + 2) * 2; *lp = (char *)realloc(*lp, *cap); }
    (*lp)[n++] = (char)c;
    if (c == '\n') break;
  }
  if (!n) return -1;
  (*lp)[n] = 0;
  return n;
}
} // extern "C"

