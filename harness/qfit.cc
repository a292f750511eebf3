// The search for discounts: every point tried lies within the limits, the search
// ends, and on a convex error it ends at the best point.
#include "hx.h"
#include "QFit.hh"
#ifndef SHAPE
#define SHAPE 0 // 0 parabola, 1 absolute value, 2 two slopes
#endif
#ifndef DIM
#define DIM 1
#endif
#ifndef LTOL
#define LTOL .05f
#endif
#ifndef HI
#define HI 1
#endif
#ifndef START
#define START .71f
#endif
#ifndef BASE
#define BASE 1
#endif
#ifndef MAXIT
#define MAXIT 1000 * DIM
#endif
static float best[DIM];
struct E : QFitEvaluator {
  int calls;
  E() : calls(0) {}
  float evaluate(std::vector<float> &v) {
    A(v.size() == DIM, "all parameters are given");
    A(++calls < 400 * DIM, "the search ends");
    float s = BASE;
    for (int i = 0; i < DIM; i++) {
      A(v[i] >= -1e-5 && v[i] <= HI + 1e-5, "a point tried lies within the limits");
      float d = v[i] - best[i];
      if (SHAPE == 0) s += d * d;
      else if (SHAPE == 1) s += d < 0 ? -d : d;
      else s += d < 0 ? -d : 3 * d;
    }
    return s;
  }
};
extern "C" void sx_main(void) {
  E e;
  for (int i = 0; i < DIM; i++) {
#ifdef GRID
    best[i] = (float)HI * sym_fix(sym_int("best", 0, GRID)) / GRID;
#else
    best[i] = sym_float("best", 0, HI);
#endif
  }
  QFit q(LTOL, .08f, &e);
  q.set_initial_point(std::vector<float>(DIM, START));
  q.set_minimum(std::vector<float>(DIM, 0));
  q.set_maximum(std::vector<float>(DIM, HI));
  std::vector<float> r = q.minimize(MAXIT);
  A(r.size() == DIM, "a value for every parameter");
  for (int i = 0; i < DIM; i++) {
    A(r[i] >= -1e-5 && r[i] <= HI + 1e-5, "the result lies within the limits");
    if (MAXIT >= 1000) A(near_(r[i], best[i], LTOL + 1e-4), "the result is the best point");
  }
  sym_cover("found");
}
