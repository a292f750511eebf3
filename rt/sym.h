// Harness interface.  In the engine these are solver operations; natively
// (symnative.cc) the inputs come from a replay file.
#ifndef SYM_H
#define SYM_H
#ifdef __cplusplus
extern "C" {
#endif
int sym_int(const char *name, int lo, int hi);
long sym_long(const char *name, long lo, long hi);
double sym_real(const char *name, double lo, double hi);
float sym_float(const char *name, double lo, double hi);
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_fail(const char *msg);
void sym_cover(const char *what);
int sym_fix(int v);        // one path per value
int sym_engine(void);      // 1 under the symbolic engine
void sym_exit_ok(int on);  // is exit() an acceptable end of the run?
void sym_stop(void);       // end this path
void sym_trace(const char *n, long v);
int sx_open_files(void);    // streams open now (natively: file descriptors)
void sx_main(void);        // the harness
#ifdef __cplusplus
}
#endif
#endif
