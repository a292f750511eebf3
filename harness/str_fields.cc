// Splitting, cleaning and chomping text, number parsing.
#include "hx.h"
#include "str.hh"
#ifndef L
#define L 4
#endif
static bool in(const char *set, char c) {
  for (; *set; set++) if (*set == c) return true;
  return false;
}
static void t_split() {
  std::string s = hx_str("len", 0, L, "ab, ");
  bool group = sym_fix(sym_int("group", 0, 1));
  int num = sym_fix(sym_int("num_fields", 0, 3));
  SV f, ref;
  f.push_back("junk");
  std::string before = s;
  str::split(&s, ", ", group, &f, num);
  A(s == before, "split: the input is untouched");
  // oracle: one character at a time
  std::string cur;
  size_t i = 0;
  bool open = false;
  while (i < s.size()) {
    if (num > 0 && (int)ref.size() == num - 1) { cur = s.substr(i); open = true; i = s.size(); break; }
    open = true;
    while (i < s.size() && s[i] != ',' && s[i] != ' ') cur += s[i++];
    if (i < s.size()) {
      ref.push_back(cur); cur = ""; open = false;
      i++;
      while (group && i < s.size() && (s[i] == ',' || s[i] == ' ')) i++;
    }
  }
  if (open) ref.push_back(cur);
  A(f.size() == ref.size(), "split: the number of fields");
  for (size_t k = 0; k < f.size(); k++) A(f[k] == ref[k], "split: every field");
  if (f.size() >= 2) sym_cover("split");
}
static void t_clean() {
  std::string s = hx_str("len", 0, L, "a \tb"), r = s;
  str::clean(&r, " \t");
  size_t b = 0, e = s.size();
  while (b < e && in(" \t", s[b])) b++;
  while (e > b && in(" \t", s[e - 1])) e--;
  A(r == s.substr(b, e - b), "clean: leading and trailing characters only");
  std::string q = s + "\n", w = q;
  str::chomp(&w);
  A(w == s, "chomp: removes one newline");
  w = s;
  str::chomp(&w);
  A(w == s, "chomp: nothing else");
  sym_cover("clean");
}
static void t_long() {
  std::string s = hx_str("len", 0, L, "0179-x ");
  bool ok = true;
  long v = str::str2long(&s, &ok);
  size_t i = 0;
  while (i < s.size() && s[i] == ' ') i++;
  bool neg = false;
  if (i < s.size() && s[i] == '-') { neg = true; i++; }
  long r = 0;
  size_t d0 = i;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') r = r * 10 + s[i++] - '0';
  bool good = i > d0 && i == s.size();
  A(ok == good, "str2long: the flag says whether all of the text was a number");
  if (good) A(v == (neg ? -r : r), "str2long: the value");
  bool o2 = false;
  str::str2long(&s, &o2);
  A(!o2, "str2long: never sets the flag");
  if (good) sym_cover("long");
}
static void t_float() {
  std::string s = hx_str("len", 0, L < 5 ? L : 5, "05.-ex ", true);
  // values outside the range end the program with a message
  for (size_t k = 0; k + 2 < s.size(); k++) sym_assume(s[k] != 'e' || s[k + 2] == 'e' || s[k + 2] == 'x');
  bool ok = true;
  double v = str::str2float(&s, &ok);
  // oracle: blanks, sign, digits with at most one point, exponent
  size_t i = 0;
  while (i < s.size() && s[i] == ' ') i++;
  bool neg = false;
  if (i < s.size() && s[i] == '-') { neg = true; i++; }
  double r = 0, sc = 1;
  int nd = 0;
  while (i < s.size() && (s[i] == '0' || s[i] == '5')) { r = r * 10 + (s[i++] - '0'); nd++; }
  if (i < s.size() && s[i] == '.') {
    i++;
    while (i < s.size() && (s[i] == '0' || s[i] == '5')) { sc /= 10; r += sc * (s[i++] - '0'); nd++; }
  }
  // numbers with an exponent and hexadecimal ones are left out of the value clause
  bool ex = false;
  for (size_t k = 0; k < s.size(); k++) if (s[k] == 'e' || s[k] == 'x') ex = true;
  bool o2 = false;
  str::str2float(s.c_str(), &o2);
  A(!o2, "str2float: never sets the flag");
  if (s.empty()) A(!ok, "str2float: nothing is not a number");
  if (ex) {
    if (s[s.size() - 1] == 'x' || (s[s.size() - 1] == 'e' && s.find('x') == std::string::npos)) A(!ok, "str2float: text after the number is an error");
    return;
  }
  bool good = nd > 0 && i == s.size();
  A(ok == good, "str2float: the flag says whether all of the text was a number");
  if (good) {
    A(near_(v, neg ? -r : r, 1e-5 * (1 + r)), "str2float: the value");
    sym_cover("float");
  }
}
static void t_range() {
  bool fl = sym_fix(sym_int("float", 0, 1)), ok = true;
  char d = hx_charf("first", "0189"), sg = hx_charf("sign", " -");
  int k = sym_fix(sym_int("digits", 17, 19));
  std::string s(1, sg);
  s += d;
  if (fl) {
    s += k == 17 ? "e9" : k == 18 ? "e37" : "e39";
    bool over = k == 19 && d != '0';
    if (over) sym_exit_ok(1);
    double v = str::str2float(&s, &ok), w = (d - '0') * (k == 17 ? 1e9 : k == 18 ? 1e37 : 1e39);
    A(!over || !ok, "str2float: a number out of range is never returned as a number");
    if (!over) A(ok && near_(v / (w + (w == 0)), (sg == '-' ? -1 : 1) * (w == 0 ? 0 : 1), 1e-5), "str2float: large numbers");
  } else {
    s += std::string(k, '9');
    bool over = k == 19 || (k == 18 && d == '9');
    if (over) sym_exit_ok(1);
    long v = str::str2long(&s, &ok), w = 0;
    A(!over || !ok, "str2long: a number out of range is never returned as a number");
    for (size_t i = 1; !over && i < s.size(); i++) w = w * 10 + s[i] - '0';
    if (!over) A(ok && v == (sg == '-' ? -w : w), "str2long: large numbers");
  }
  sym_cover("range");
}
static void t_lines() {
  // lines around the internal buffer size
  int n = sym_fix(sym_int("n", 4092, 4099)), last = sym_fix(sym_int("last", 0, 2));
  char c = hx_char("c", "xyz");
  std::string text, l1(n, c);
  text = l1 + "\n\n";
  if (last == 1) text += "tail";
  if (last == 2) text += "tail\n";
  for (int chomp = 0; chomp < 2; chomp++) {
    FILE *f = hx_file(text);
    std::string s;
    const char *nl = chomp ? "" : "\n";
    A(str::read_line(&s, f, chomp), "read_line: first line");
    A(s == l1 + nl, "read_line: a long line is read whole");
    A(str::read_line(&s, f, chomp), "read_line: empty line");
    A(s == nl, "read_line: the empty line");
    bool r = str::read_line(&s, f, chomp);
    A(r == (last > 0), "read_line: end of file");
    if (r) {
      A(s == std::string("tail") + (last == 2 ? nl : ""), "read_line: last line");
      A(!str::read_line(&s, f, chomp), "read_line: end of file after the last line");
    }
    fclose(f);
  }
  FILE *f = hx_file(text);
  int want = n + sym_fix(sym_int("extra", 0, 4));
  std::string s;
  bool ok = str::read_string(&s, want, f);
  A(ok == (want <= (int)text.size()), "read_string: enough bytes or not");
  if (ok) A(s == text.substr(0, want), "read_string: exactly the bytes asked for");
  rewind(f);
  A(str::read_file(&s, f) && s == text, "read_file: all of the file");
  // with a limit: the first bytes, on both sides of the buffer size
  rewind(f);
  int lim = 4094 + sym_fix(sym_int("limit", 0, 12));
  A(str::read_file(&s, f, lim) && s == text.substr(0, lim), "read_file: as many bytes as asked for");
  A(str::read_file(&s, f, 3) && s == (lim < (int)text.size() ? text.substr(lim, 3) : std::string()), "read_file: continues where it stopped");
  fclose(f);
  sym_cover("lines");
}
static void t_quotes() {
  std::string s = hx_str("len", 0, L, "a'\"\\ "), t = s;
  SV f, ref;
  bool group = sym_fix(sym_int("group", 0, 1));
  f.push_back("junk");
  str::split_with_quotes(&t, " ", group, &f);
  // oracle: characters with a quoted/plain mark
  size_t i = 0;
  char q = 0;
  std::string cur;
  bool any = false;
  while (i < s.size()) {
    char c = s[i++];
    any = true;
    if (q) { if (c == q) q = 0; else cur += c; }
    else if (c == '\\') { if (i < s.size()) cur += s[i++]; }
    else if (c == '\'' || c == '"') q = c;
    else if (c == ' ') {
      ref.push_back(cur); cur = ""; any = false;
      while (group && i < s.size() && s[i] == ' ') i++;
    } else cur += c;
  }
  if (any) ref.push_back(cur);
  A(f.size() == ref.size(), "quotes: the number of fields");
  for (size_t k = 0; k < f.size(); k++) A(f[k] == ref[k], "quotes: every field");
  if (f.size() >= 2) sym_cover("quotes");
}
extern "C" void sx_main(void) {
#ifdef LINES
  t_lines();
#elif defined QUOTES
  t_quotes();
#else
  int w = sym_fix(sym_int("test", 0, 4));
  if (w == 0) t_split();
  else if (w == 1) t_clean();
  else if (w == 2) t_long();
  else if (w == 3) t_float();
  else t_range();
#endif
}
