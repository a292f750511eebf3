// Options from a configuration file; the command line wins unless overridden;
// mandatory options.
#include "hx.h"
#include "conf.hh"
extern "C" void sx_main(void) {
  conf::Config c;
  c('v', "val", "arg", "dflt", "a value")('m', "must=NUM", "arg must", "", "needed");
  static char prog[] = "prog", a1[] = "--val", a2[] = "cmd", m1[] = "-m", m2[] = "7";
  char *argv[6] = {prog};
  int n = 1;
  bool cmd = sym_fix(sym_int("cmd", 0, 1)), must = sym_fix(sym_int("must", 0, 1));
  bool over = sym_fix(sym_int("override", 0, 1)), infile = sym_fix(sym_int("infile", 0, 1));
  if (cmd) { argv[n++] = a1; argv[n++] = a2; }
  if (must) { argv[n++] = m1; argv[n++] = m2; }
  argv[n] = 0;
  char q = hx_char("q", "'\"");
  char x = hx_char("x", "ab c\t");
  std::string text = "--val ";
  text += q; text += "p"; text += x; text += q; text += "\n\n";
  if (infile) {
    FILE *f = hx_file(text);
    c.read(f, over);
    fclose(f);
    A(c["val"].specified && c["val"].get_str() == std::string("p") + x, "a quoted value from the file");
  }
  if (!must) { sym_exit_ok(1); sym_cover("mandatory option missing"); }
  c.parse(n, argv, 0, over);
  A(must, "a missing mandatory option ends the program");
  A(c["must"].get_int() == 7 && c["must"].get_double() == 7.0, "the mandatory option");
  std::string want = infile ? std::string("p") + x : "dflt";
  if (cmd && (!infile || over)) want = "cmd";
  A(c["val"].get_str() == want, "which of two given values wins");
  sym_cover("file");
}
