// Byte order conversion reverses each element, leaves the gaps, and undoes itself.
#include "hx.h"
#include "Endian.hh"
extern "C" void sx_main(void) {
  unsigned char b[40], o[40];
  for (int i = 0; i < 40; i++) o[i] = b[i] = (unsigned char)sym_int("byte", 0, 255);
  int bytes = sym_fix(sym_int("bytes", 1, 8));
  int elems = sym_fix(sym_int("elems", 0, 3)), skip = sym_fix(sym_int("skip", 0, 4));
  if (sym_fix(sym_int("single", 0, 1))) {
    Endian::convert(b + 1, bytes);
    elems = 1; skip = 0;
  } else Endian::convert_buffer(b + 1, elems, bytes, skip);
  for (int i = 0; i < 40; i++) {
    int at = i;
    if (i >= 1) {
      int e = (i - 1) / (bytes + skip), w = (i - 1) % (bytes + skip);
      if (e < elems && w < bytes) at = 1 + e * (bytes + skip) + bytes - 1 - w;
    }
    A(b[i] == o[at], "each element reversed, everything else untouched");
  }
  Endian::convert_buffer(b + 1, elems, bytes, skip);
  A(memcmp(b, o, 40) == 0, "converting twice gives the original");
  A(!Endian::big, "this machine is little endian");
  sym_cover("converted");
}
