// Command line parsing: options, grouped short options, --long value,
// --long=value, "--", defaults, positional arguments; bad lines end the program.
#include "hx.h"
#include "conf.hh"
#ifndef NARG
#define NARG 3
#endif
static const char *TOK[] = {"-f", "-v", "-fv", "-vw", "--flag", "--val", "--val=x", "--val=", "--", "-", "y", "--w=-q", "-z", "--nope", "-vf", "--flag=x"};
#define NT 15
extern "C" void sx_main(void) {
  sym_exit_ok(0);
  conf::Config c;
  c("usage: x\n")('f', "flag", "", "", "a flag")('v', "val", "arg", "dflt", "a value")('w', "w", "arg", "", "another");
  std::string arg[NARG];
  char *argv[NARG + 2];
  static char prog[] = "prog";
  argv[0] = prog;
  int n = sym_fix(sym_int("argc", 0, NARG));
  for (int i = 0; i < n; i++) {
    arg[i] = TOK[sym_fix(sym_int("arg", 0, NT - 1))];
    argv[i + 1] = const_cast<char *>(arg[i].c_str());
  }
  argv[n + 1] = 0;
  // oracle
  bool bad = false, flag = false, vs = false, ws = false, opts = true;
  std::string val = "dflt", w;
  SV pos;
  std::vector<int> pend;
  size_t ph = 0;
  for (int i = 0; i < n && !bad; i++) {
    std::string a = arg[i];
    bool inl = false;
    std::string p;
    if (ph < pend.size()) { p = a; inl = true; }
    else if (opts && a == "--") opts = false;
    else if (opts && a.size() > 1 && a[0] == '-' && a[1] != '-') {
      for (size_t k = 1; k < a.size() && !bad; k++) {
        if (a[k] == 'f') flag = true;
        else if (a[k] == 'v') pend.push_back(1);
        else if (a[k] == 'w') pend.push_back(2);
        else bad = true;
      }
    } else if (opts && a.size() > 1 && a[0] == '-') {
      std::string l = a.substr(2);
      size_t eq = l.find('=');
      if (eq != std::string::npos) { p = l.substr(eq + 1); l = l.substr(0, eq); inl = true; }
      if (l == "flag") flag = true;
      else if (l == "val") pend.push_back(1);
      else if (l == "w") pend.push_back(2);
      else bad = true;
    } else pos.push_back(a);
    if (inl && !bad) {
      if (pend[ph] == 1) { val = p; vs = true; }
      else { w = p; ws = true; }
      ph++;
    }
  }
  if (ph < pend.size()) bad = true;
  int need = sym_fix(sym_int("positional", 0, 2));
  if ((int)pos.size() != need) bad = true;
  if (bad) { sym_exit_ok(1); sym_cover("rejected"); }
  c.parse(n + 1, argv, need);
  A(!bad, "a bad command line ends the program");
  A(c["flag"].specified == flag && c['f'].specified == flag, "the flag");
  A(c["val"].specified == vs && c["val"].get_str() == val, "the value of an option, or its default");
  A(c["w"].specified == ws && c['w'].get_str() == w, "the value of the other option");
  A(c.arguments.size() == pos.size(), "the number of positional arguments");
  for (size_t k = 0; k < pos.size(); k++) A(c.arguments[k] == pos[k], "positional arguments in order");
  if (vs && flag) sym_cover("accepted");
}
