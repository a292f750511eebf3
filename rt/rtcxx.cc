// C++ runtime models for the symbolic engine.
#include <string>
#include <stdexcept>
#include <cstring>
extern "C" void *malloc(size_t);
// ---- C++ runtime ---------------------------------------------------------
template class std::basic_string<char>;

// exceptions of the standard library: objects with a working what()
struct SXVt { void *off, *ti, *d1, *d0, *what; };
struct SXEx { const void *vptr; char *msg; };
extern "C" {
extern const SXVt sx_vt;
static void sx_ctor(SXEx *e, const char *m) { e->vptr = &sx_vt.d1; e->msg = strdup(m); }
static const char *sx_what(SXEx *e) { return e->vptr == (const void *)&sx_vt.d1 ? e->msg : "exception"; }
static void sx_dtor(SXEx *) {}
const SXVt sx_vt = {0, 0, (void *)sx_dtor, (void *)sx_dtor, (void *)sx_what};
void _ZNSt11logic_errorC1EPKc(SXEx *e, const char *m) { sx_ctor(e, m); }
void _ZNSt11logic_errorC2EPKc(SXEx *e, const char *m) { sx_ctor(e, m); }
void _ZNSt13runtime_errorC1EPKc(SXEx *e, const char *m) { sx_ctor(e, m); }
void _ZNSt13runtime_errorC2EPKc(SXEx *e, const char *m) { sx_ctor(e, m); }
void _ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(SXEx *e, const std::string &m) { sx_ctor(e, m.c_str()); }
void _ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(SXEx *e, const std::string &m) { sx_ctor(e, m.c_str()); }
void _ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(SXEx *e, const std::string &m) { sx_ctor(e, m.c_str()); }
void _ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(SXEx *e, const std::string &m) { sx_ctor(e, m.c_str()); }
void _ZNSt16invalid_argumentC1EPKc(SXEx *e, const char *m) { sx_ctor(e, m); }
void _ZNSt12out_of_rangeC1EPKc(SXEx *e, const char *m) { sx_ctor(e, m); }
void _ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(SXEx *e, const std::string &m) { sx_ctor(e, m.c_str()); }
void _ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(SXEx *e, const std::string &m) { sx_ctor(e, m.c_str()); }
void _ZNSt11logic_errorD1Ev(SXEx *) {}
void _ZNSt11logic_errorD2Ev(SXEx *) {}
void _ZNSt13runtime_errorD1Ev(SXEx *) {}
void _ZNSt13runtime_errorD2Ev(SXEx *) {}
void _ZNSt16invalid_argumentD1Ev(SXEx *) {}
void _ZNSt12out_of_rangeD1Ev(SXEx *) {}
void _ZNSt9exceptionD1Ev(SXEx *) {}
void _ZNSt9exceptionD2Ev(SXEx *) {}
const char *_ZNKSt9exception4whatEv(SXEx *) { return "exception"; }
const char *_ZNKSt11logic_error4whatEv(SXEx *e) { return e->msg; }
const char *_ZNKSt13runtime_error4whatEv(SXEx *e) { return e->msg; }
}
namespace std {
void __throw_out_of_range_fmt(const char *, ...) { throw out_of_range("out_of_range"); }
void __throw_out_of_range(const char *) { throw out_of_range("out_of_range"); }
void __throw_logic_error(const char *) { throw logic_error("logic_error"); }
void __throw_length_error(const char *) { throw logic_error("length_error"); }
void __throw_invalid_argument(const char *) { throw invalid_argument("invalid_argument"); }
void __throw_bad_alloc() { throw logic_error("bad_alloc"); }
void __throw_bad_array_new_length() { throw logic_error("bad_array_new_length"); }
void __throw_bad_cast() { throw logic_error("bad_cast"); }
void __throw_bad_function_call() { throw logic_error("bad_function_call"); }

// red-black trees without the balancing: an ordinary search tree
struct Nd { int color; Nd *parent, *left, *right; };
static Nd *mini(Nd *x) { while (x->left) x = x->left; return x; }
static Nd *maxi(Nd *x) { while (x->right) x = x->right; return x; }
extern "C" {
Nd *sx_inc(Nd *x) {
  if (x->right) return mini(x->right);
  Nd *y = x->parent;
  while (x == y->right) { x = y; y = y->parent; }
  if (x->right != y) x = y;
  return x;
}
Nd *sx_dec(Nd *x) {
  if (x->color == 0 && x->parent->parent == x) return x->right; // header
  if (x->left) return maxi(x->left);
  Nd *y = x->parent;
  while (x == y->left) { x = y; y = y->parent; }
  return y;
}
Nd *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(Nd *x) { return sx_inc(x); }
Nd *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(Nd *x) { return sx_inc(x); }
Nd *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(Nd *x) { return sx_dec(x); }
Nd *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(Nd *x) { return sx_dec(x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, Nd *x, Nd *p, Nd &h) {
  x->parent = p;
  x->left = x->right = 0;
  x->color = 1; // black: the header is the only red node
  if (left) {
    p->left = x;
    if (p == &h) { h.parent = x; h.right = x; }
    else if (p == h.left) h.left = x;
  } else {
    p->right = x;
    if (p == h.right) h.right = x;
  }
}
Nd *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(Nd *z, Nd &h) {
  Nd *rep;
  if (!z->left) rep = z->right;
  else if (!z->right) rep = z->left;
  else {
    Nd *y = mini(z->right); // successor takes z's place
    if (y->parent != z) {
      y->parent->left = y->right;
      if (y->right) y->right->parent = y->parent;
      y->right = z->right;
      z->right->parent = y;
    }
    y->left = z->left;
    z->left->parent = y;
    rep = y;
  }
  if (rep) rep->parent = z->parent;
  if (h.parent == z) h.parent = rep;
  else if (z->parent->left == z) z->parent->left = rep;
  else z->parent->right = rep;
  if (h.left == z) h.left = h.parent ? mini(h.parent) : &h;
  if (h.right == z) h.right = h.parent ? maxi(h.parent) : &h;
  return z;
}
void _ZSt21ios_base_library_initv(void) {}
void _ZNSt8ios_base4InitC1Ev(void *) {}
void _ZNSt8ios_base4InitD1Ev(void *) {}
// std::cerr / std::cout: output is discarded; the objects are laid out as
// libstdc++ does (virtual base at 8, character classes at 240 in it)
struct SXOs { const void *vptr; char ios[240]; const void *ctype; char rest[40]; };
struct SXCt { char head[56]; char widen_ok; char widen[256]; char rest[300]; };
static const SXCt sx_ct = {{0}, 1, {0}, {0}};
static const long sx_ovt[4] = {8, 0, 0, 0};
SXOs _ZSt4cerr = {sx_ovt + 3, {0}, &sx_ct, {0}};
SXOs _ZSt4cout = {sx_ovt + 3, {0}, &sx_ct, {0}};
void *_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void *o, const char *, long) { return o; }
void *_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void *o, const char *) { return o; }
void *_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void *o, char) { return o; }
void *_ZNSo9_M_insertImEERSoT_(void *o, unsigned long) { return o; }
void *_ZNSo9_M_insertIlEERSoT_(void *o, long) { return o; }
void *_ZNSo9_M_insertIdEERSoT_(void *o, double) { return o; }
void *_ZNSo9_M_insertIbEERSoT_(void *o, bool) { return o; }
void *_ZNSolsEi(void *o, int) { return o; }
void *_ZNSo3putEc(void *o, char) { return o; }
void *_ZNSo5flushEv(void *o) { return o; }
void *_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void *o) { return o; }
void _ZNKSt5ctypeIcE13_M_widen_initEv(void *) {}
}
// hash maps: prime policy
namespace __detail {
struct Pol { float maxload; size_t next; };
extern "C" {
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(Pol *p, size_t n) {
  static const size_t pr[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 79, 97, 127, 199, 409, 823, 1741, 5087, 10273, 20753, 42043};
  for (size_t q : pr)
    if (q >= n) { p->next = q; return q; }
  return n | 1;
}
struct PR { bool b; size_t n; };
PR _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(Pol *p, size_t nb, size_t ne, size_t ni) {
  if (ne + ni > p->next) {
    size_t want = ne + ni + 1 > nb * 2 ? ne + ni + 1 : nb * 2;
    return {true, _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(p, want)};
  }
  return {false, 0};
}
size_t _ZSt11_Hash_bytesPKvmm(const void *p, size_t n, size_t seed) {
  const unsigned char *s = (const unsigned char *)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 131 + s[i];
  return h;
}
}
} // namespace __detail
} // namespace std
