// Which file name opens what, and that the stream is closed the right way.
#include "hx.h"
#include "io.hh"
static std::string cmd, pmode;
static int popens, pcloses;
static bool pfail; // the system has no more processes
static FILE *pf;
extern "C" FILE *popen(const char *c, const char *m) { cmd = c; pmode = m; popens++; return pf = pfail ? NULL : tmpfile(); }
extern "C" int pclose(FILE *f) { pcloses++; return fclose(f); }
static const char *NAMES[] = {"-", "cmd|", "|cmd", "a.gz", "a.bz2", "a.txt", "", "gz", ".gz", "a.gzx", "x.gz|", "bz2", "none/a.txt"};
extern "C" void sx_main(void) {
  FILE *f = fopen("a.txt", "w"); fputs("hi\n", f); fclose(f);
  f = fopen("gz", "w"); fclose(f);
  f = fopen("old.txt", "w"); fclose(f);
  f = fopen("a.gzx", "w"); fclose(f);
  f = fopen("bz2", "w"); fclose(f);
  int k = sym_fix(sym_int("name", 0, 12));
  std::string n = NAMES[k];
  bool wr = sym_fix(sym_int("write", 0, 1)), allow = sym_fix(sym_int("allow_close", 0, 1));
  sym_assume(k != 12 || !wr);
  int seek = sym_fix(sym_int("seek", 0, 2));
  int twice = sym_fix(sym_int("twice", 0, 3)); // what the stream had open before: nothing, a pipe, a file
  bool pipe_in = n.size() && n[n.size() - 1] == '|', pipe_out = !pipe_in && n.size() && n[0] == '|';
  bool gz = k == 3 || k == 8, bz = k == 4;
  bool opened = false;
  int base = sx_open_files();
  {
    io::Stream s;
    if (twice == 1) s.open("cmd0|", "r");
    if (twice > 1) s.open("old.txt", twice == 2 ? "r" : "w");
    A(sx_open_files() == base + (twice != 0), "one stream is open");
    int p0 = popens;
    pfail = sym_fix(sym_int("popen fails", 0, 1));
    try { s.open(n, wr ? "w" : "r", (io::SeekType)seek, allow); opened = true; }
    catch (io::Stream::OpenError &e) {}
    A(twice != 1 || pcloses == (n.size() ? 1 : pcloses), "opening again closes the previous stream");
    if (n.size()) A(sx_open_files() == base + (opened && n != "-"), "opening again closes the previous file");
    bool expect = n.size() > 0;
    if (n == "-" && seek != io::LINEAR) expect = false;
    if ((pipe_in || pipe_out || gz || bz) && seek == io::SEEKABLE) expect = false;
    if (pfail && (pipe_in || pipe_out || gz || bz)) expect = false;
    if (k == 12) expect = false;
    A(opened == expect, "what can be opened");
    if (opened) {
      A(s.file != NULL, "an open stream has a handle");
      if (n == "-") A(s.file == (wr ? stdout : stdin), "a dash is the standard stream");
      A((popens - p0 == 1) == (pipe_in || pipe_out || gz || bz), "pipes are opened for pipe names and compressed files only");
      A(s.is_pipe == (popens - p0 == 1), "a pipe is known to be one");
      if (popens - p0 == 1) A(pmode == (wr ? "w" : "r"), "the mode of the pipe");
      if (pipe_in) A(cmd == n.substr(0, n.size() - 1), "the command of an input pipe");
      if (pipe_out) A(cmd == n.substr(1), "the command of an output pipe");
      if (gz) A(cmd == (wr ? "gzip > '" + n + "'" : "gzip -dc '" + n + "'"), "gzip command");
      if (bz) A(cmd == (wr ? "bzip2 --best > '" + n + "'" : "bzip2 -dc '" + n + "'"), "bzip2 command");
      int before = pcloses;
      bool pipe = s.is_pipe;
      s.close();
      bool closed = allow && n != "-";
      A((s.file == NULL) == closed, "closing closes, unless not allowed or standard");
      A(pcloses - before == (closed && pipe), "a pipe is closed as a pipe");
      before = pcloses;
      s.close();
      A(pcloses == before, "closing twice is harmless");
      A(sx_open_files() == base + (!allow && n != "-"), "closing gives the file back");
      sym_cover("opened");
    } else sym_cover("refused");
  }
}
