// The trained model by its definition: counts of a text, Kneser-Ney or absolute
// lower orders, leave-one-out discounts, pruning, interpolated probabilities.
#pragma once
#include "hx.h"
#include <map>
#include <set>
typedef std::vector<int> Rv;
struct Ref {
  int n, nw;
  bool abs, d3, nocontext;
  std::vector<std::map<Rv, long> > c, pr; // counts of grams, pruned mass of contexts
  std::vector<std::vector<double> > d;
  Ref(int order, int words, bool a, bool three) : n(order), nw(words), abs(a), d3(three), c(order + 1), pr(order + 1), d(order + 1, std::vector<double>(3, 0.71)) {}
  long get(const Rv &g) const {
    std::map<Rv, long>::const_iterator i = c[g.size()].find(g);
    return i == c[g.size()].end() ? 0 : i->second;
  }
  // clear: index of the word that starts a new history, -1: none
  void text(const Rv &t, int clear, bool partial = true) {
    Rv win;
    for (size_t i = 0; i < t.size(); i++) {
      if (t[i] == clear) win.clear();
      win.push_back(t[i]);
      if ((int)win.size() > n) win.erase(win.begin());
      if (partial || (int)win.size() == n) c[win.size()][win]++;
    }
    while (n > 1 && c[n].empty()) n--;
    for (int o = n; o > 1; o--)
      for (std::map<Rv, long>::iterator i = c[o].begin(); i != c[o].end(); ++i) c[o - 1][Rv(i->first.begin() + 1, i->first.end())] += abs ? i->second : 1;
  }
  int cls(long v) const { return d3 ? (v > 2 ? 2 : (int)v - 1) : 0; }
  struct St { long den, nz[3], pd; };
  St stat(const Rv &h) const {
    int o = h.size() + 1;
    St s = {0, {0, 0, 0}, 0};
    for (std::map<Rv, long>::const_iterator i = c[o].lower_bound(h); i != c[o].end() && std::equal(h.begin(), h.end(), i->first.begin()); ++i) {
      if (i->second <= 0) continue;
      s.den += i->second;
      s.nz[cls(i->second)]++;
    }
    std::map<Rv, long>::const_iterator p = pr[o].find(h);
    if (p != pr[o].end()) s.pd = p->second;
    s.den += s.pd;
    return s;
  }
  void leaveoneout() { for (int o = 1; o <= n; o++) leaveoneout(o); }
  void leaveoneout(int o) {
    {
      long m[5] = {0, 0, 0, 0, 0};
      for (std::map<Rv, long>::iterator i = c[o].begin(); i != c[o].end(); ++i)
        if (i->second >= 1 && i->second <= 4) m[i->second]++;
      for (int j = 0; j < (d3 ? 3 : 1); j++) {
        if (!m[1] || !m[2] || !m[j + 1]) continue;
        double y = (double)m[1] / (m[1] + 2.0 * m[2]), w = j + 1 - (j + 2) * y * m[j + 2] / m[j + 1];
        d[o][j] = w > j + 0.8 ? j + 0.8 : w < 0.1 ? 0.1 : w;
      }
    }
  }
  void again() {
    d.assign(n + 1, std::vector<double>(3, 0.71));
    leaveoneout();
  }
  double prob(const Rv &gram) const {
    Rv g = gram;
    if ((int)g.size() > n) g.erase(g.begin(), g.end() - n);
    double p = 1.0 / nw;
    for (int o = 1; o <= (int)g.size(); o++) {
      Rv x(g.end() - o, g.end()), h(x.begin(), x.end() - 1);
      St s = stat(h);
      if (s.den <= 0) continue;
      double k = s.pd;
      for (int j = 0; j < 3; j++) k += s.nz[j] * d[o][j];
      p *= k / s.den;
      long v = get(x);
      if (v > 0) p += (v - d[o][cls(v)]) / s.den;
    }
    return p;
  }
  void drop(const Rv &g, bool recorrect) {
    int o = g.size();
    long v = get(g);
    Rv h(g.begin(), g.end() - 1), l(g.begin() + 1, g.end());
    c[o].erase(g);
    St s = stat(h);
    if (s.den == s.pd) pr[o].erase(h);
    else pr[o][h] += v;
    if (recorrect && get(l) > 0) c[o - 1][l] += v - 1;
  }
  int limit(const std::vector<int> &cut, int o) const { return cut.empty() ? 0 : o > (int)cut.size() ? cut.back() : cut[o - 1]; }
  struct Prune {
    std::vector<int> cut;
    bool lose, unk;
    double thr;     // in the units of delta
    const Rv *real; // the text whose occurrences weigh, if not the counts
    bool any;       // whatever the order in which grams are looked at
    int left;       // steps allowed
  };
  static double lg(double p) { return p < 1e-20 ? -60 : log10(p); }
  // the models pruning may give: more than one when a gram is on the line
  void prune(Prune &p, std::vector<Ref> &out, int o = -1) const {
    if (o < 0) o = n;
    if (o < 2) {
      if (std::find(out.begin(), out.end(), *this) == out.end()) out.push_back(*this);
      return;
    }
    std::vector<Rv> todo;
    for (std::map<Rv, long>::const_iterator i = c[o].begin(); i != c[o].end(); ++i)
      if (i->second > 0) todo.push_back(i->first);
    step(p, out, o, todo);
  }
  void step(Prune &p, std::vector<Ref> &out, int o, const std::vector<Rv> &todo) const {
    if (p.left-- < 0) return;
    if (todo.empty()) { prune(p, out, o - 1); return; }
    for (size_t k = 0; k < (p.any ? todo.size() : 1); k++) {
      Rv g = todo[k];
      std::vector<Rv> rest(todo);
      rest.erase(rest.begin() + k);
      long v = get(g);
      Ref r(*this);
      if (v <= limit(p.cut, o)) { r.drop(g, !abs && !p.lose); r.step(p, out, o, rest); continue; }
      r.drop(g, !abs);
      if (p.unk && std::find(g.begin(), g.end(), 0) != g.end()) { r.step(p, out, o, rest); continue; }
      double w = v, a = lg(prob(g)) - lg(r.prob(g));
      if (p.real) {
        w = 0;
        for (size_t i = 0; i + o <= p.real->size(); i++) w += std::equal(g.begin(), g.end(), p.real->begin() + i);
      }
      double delta = a * w - p.thr;
      if (delta < 1e-5) r.step(p, out, o, rest);
      if (delta > -1e-5) step(p, out, o, rest);
    }
  }
  // growing: every history taken in turn gets all its continuations if they pay
  struct Grow {
    int maxo;
    double scale;                // cost of a gram in the units of delta
    std::map<Rv, long> text;     // occurrences of the text's grams
    bool any;
    int left;
  };
  long size() const {
    long r = 0;
    for (int o = 1; o <= n; o++) r += c[o].size();
    return r;
  }
  void grow(Grow &p, std::vector<Ref> &out, int k = 1) const {
    std::vector<Rv> todo;
    if (k < p.maxo && k <= n)
      for (std::map<Rv, long>::const_iterator i = c[k].begin(); i != c[k].end(); ++i) todo.push_back(i->first);
    Ref r(*this);
    if (k > 1) r.leaveoneout(k - 1);
    if (todo.empty()) {
      if (std::find(out.begin(), out.end(), r) == out.end()) out.push_back(r);
      return;
    }
    r.visit(p, out, k, todo, false);
  }
  void visit(Grow &p, std::vector<Ref> &out, int k, const std::vector<Rv> &todo, bool tried) const {
    if (p.left-- < 0) return;
    if (todo.empty()) { grow(p, out, k + 1); return; }
    for (size_t i = 0; i < (p.any ? todo.size() : 1); i++) {
      Rv h = todo[i];
      std::vector<Rv> rest(todo);
      rest.erase(rest.begin() + i);
      std::map<Rv, long> m;
      for (std::map<Rv, long>::iterator j = p.text.lower_bound(h); j != p.text.end() && j->first.size() >= h.size() && std::equal(h.begin(), h.end(), j->first.begin()); ++j)
        if ((int)j->first.size() == k + 1) m[j->first] = j->second;
      if (m.empty()) { visit(p, out, k, rest, tried); continue; }
      Ref b(*this);
      if (!tried) { // a new order starts with the discounts of the one below
        b.n = k + 1;
        b.c.resize(k + 2);
        b.pr.resize(k + 2);
        b.d.resize(k + 2);
        b.d[k + 1] = b.d[k];
      }
      Ref r(b);
      double delta = 0;
      for (std::map<Rv, long>::iterator j = m.begin(); j != m.end(); ++j) {
        delta += lg(b.prob(j->first)) * j->second;
        r.c[k + 1][j->first] = j->second;
        Rv l(j->first.begin() + 1, j->first.end());
        if (!abs && r.get(l) > 0) r.c[k][l] -= j->second - 1;
      }
      for (std::map<Rv, long>::iterator j = m.begin(); j != m.end(); ++j) delta -= lg(r.prob(j->first)) * j->second;
      double was = b.size(), is = r.size(); // the text takes this many more grams to describe
      delta += p.scale * (m.size() * (log2(nw) + 20) + is * log2(is) - was * log2(was));
      if (delta < 1e-5) r.visit(p, out, k, rest, true);
      if (delta > -1e-5) b.visit(p, out, k, rest, true);
    }
  }
  void nostart(int s) { c[1].erase(Rv(1, s)); }
  bool operator==(const Ref &r) const { return c == r.c && pr == r.pr; }
};
