// Shared by the training harnesses: random texts, trained models, plain-map references.
#ifndef VERIF_KN_HH
#define VERIF_KN_HH
#include "h.hh"
#include "model.hh"
#define private public
#define protected public
#include "InterKn.hh"
#include "NgramCounts.hh"
#include "VarigramFuncs.hh"
#undef private
#undef protected
using namespace h;
typedef std::map<G, long> Cnt;
struct St { long den = 0, prune = 0, nz[3] = {0, 0, 0};
  bool zero() const { return !den && !prune && !nz[0] && !nz[1] && !nz[2]; }
  bool operator==(const St &o) const { return den == o.den && prune == o.prune && nz[0] == o.nz[0] && nz[1] == o.nz[1] && nz[2] == o.nz[2]; }
  bool operator!=(const St &o) const { return !(*this == o); }
  std::string str() const { return fmt("den %ld pruned %ld extensions %ld/%ld/%ld", den, prune, nz[0], nz[1], nz[2]); } };
typedef std::map<G, St> Ctx;       // key: context prefixed by the order of its extensions
struct Snap { std::vector<Cnt> c; std::vector<std::map<G, St>> b; };   // c[o][gram], b[o][context]
inline G hd(const G &g) { return G(g.begin(), g.end() - 1); }
inline G tl(const G &g) { return G(g.begin() + 1, g.end()); }
inline void tost(St &s, const MultiOrderCounts_counter_types::bo_c<int> &b) { s.den = b.den; s.prune = b.prune_den; s.nz[0] = b.nzer; }
inline void tost(St &s, const MultiOrderCounts_counter_types::bo_3c<int> &b) { s.den = b.den; s.prune = b.prune_den; for (int i = 0; i < 3; i++) s.nz[i] = b.nzer[i]; }
struct One { typedef MultiOrderCounts_counter_types::bo_c<int> BO; typedef MultiOrderCounts_1nzer<int, int> MOC; typedef InterKn_int_disc<int, int> KN; enum { three = 0 }; };
struct Three { typedef MultiOrderCounts_counter_types::bo_3c<int> BO; typedef MultiOrderCounts_3nzer<int, int> MOC; typedef InterKn_int_disc3<int, int> KN; enum { three = 1 }; };
// everything the count tables hold (values that are not the default)
template <class X> Snap snap(MultiOrderCounts<int, int> *m0, bool strict = true) {
  typename X::MOC *m = static_cast<typename X::MOC *>(m0);
  Snap s; s.c.resize(m->m_counts.size() + 1); s.b.resize(std::max(m->m_counts.size(), m->m_backoffs.size()) + 2);
  for (size_t o = 1; o < m->m_counts.size(); o++) {
    std::vector<int> v(o); int val;
    sikMatrix<int, int> *x = m->m_counts[o];
    long n = 0;
    x->stepthrough(true, &v[0], &val);
    while (x->stepthrough(false, &v[0], &val)) {
      n++;
      if (!val) continue;
      CHECK(!s.c[o].count(v), "n-gram %s stored twice", vec(v).c_str());
      s.c[o][v] = val;
      CHECK(x->getvalue(&v[0]) == val, "look-up of %s gives %d, stepping %d", vec(v).c_str(), x->getvalue(&v[0]), val);
    }
    CHECK(n == (long)x->num_entries(), "order %d: stepped through %ld of %ld", (int)o, n, (long)x->num_entries());
  }
  tost(s.b[1][G()], m->m_uni_bo);
  if (s.b[1][G()].zero()) s.b[1].clear();
  for (size_t o = 2; o < m->m_backoffs.size(); o++) {
    std::vector<int> v(o - 1); typename X::BO val;
    sikMatrix<int, typename X::BO> *x = m->m_backoffs[o];
    x->stepthrough(true, &v[0], &val);
    while (x->stepthrough(false, &v[0], &val)) {
      St t; tost(t, val);
      if (!t.zero()) s.b[o][v] = t;
    }
  }
  while (s.c.size() > 1 && s.c.back().empty()) s.c.pop_back();
  while (s.b.size() > 1 && s.b.back().empty()) s.b.pop_back();
  return s;
}
inline std::string sdiff(const Snap &a, const Snap &b) {   // a: found, b: expected
  for (size_t o = 1; o < std::max(a.c.size(), b.c.size()); o++) {
    Cnt x = o < a.c.size() ? a.c[o] : Cnt(), y = o < b.c.size() ? b.c[o] : Cnt();
    for (auto &e : y) if (!x.count(e.first) || x[e.first] != e.second) return fmt("count of %s is %ld, expected %ld", vec(e.first).c_str(), x.count(e.first) ? x[e.first] : 0, e.second);
    for (auto &e : x) if (!y.count(e.first)) return fmt("count of %s is %ld, expected 0", vec(e.first).c_str(), e.second);
  }
  for (size_t o = 1; o < std::max(a.b.size(), b.b.size()); o++) {
    std::map<G, St> x = o < a.b.size() ? a.b[o] : std::map<G, St>(), y = o < b.b.size() ? b.b[o] : std::map<G, St>();
    for (auto &e : y) if (x[e.first] != e.second) return fmt("context %s of order %d: %s, expected %s", vec(e.first).c_str(), (int)o, x[e.first].str().c_str(), e.second.str().c_str());
    for (auto &e : x) if (y[e.first] != e.second) return fmt("context %s of order %d: %s, expected %s", vec(e.first).c_str(), (int)o, e.second.str().c_str(), y[e.first].str().c_str());
  }
  return "";
}
inline void put(const char *f, const std::string &s) { FILE *o = fopen(f, "w"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
struct Text { std::vector<int> ix; std::string s; int V; bool start; };
// word 0 <UNK>, word 1 <s> when start, then w0 w1 ...
inline std::string tword(bool start, int i) { return i == 0 ? "<UNK>" : start && i == 1 ? "<s>" : fmt("w%d", i - 1 - start); }
inline Text rtext(int V, int n, bool start, int pstart = 12, int punk = 5) {
  Text t; t.V = V; t.start = start;
  int nw = V - 1 - start;
  for (int i = 0; i < n; i++) {
    int w;
    if (start && (i == 0 ? ri(0, 4) : ri(0, 99) < pstart)) w = 1;
    else if (ri(0, 99) < punk || nw <= 0) w = 0;
    else { w = ri(0, nw - 1); if (ri(0, 2)) w = ri(0, w); if (ri(0, 3) == 0 && t.ix.size() > 3) w = std::max(0, t.ix[t.ix.size() - 3] - 1 - start); w = w + 1 + start; if (w >= V) w = V - 1; }
    t.ix.push_back(w);
    t.s += w == 0 ? (ri(0, 1) ? "<UNK>" : fmt("oov%d", ri(0, 3))) : tword(start, w);
    t.s += ri(0, 9) ? " " : "\n";
  }
  return t;
}
inline std::string vocabtxt(const Text &t) { std::string s; for (int i = 1; i < t.V; i++) s += tword(t.start, i) + "\n"; return s; }
inline std::vector<Cnt> rawwin(const Text &t, int order) {
  std::vector<Cnt> c(order + 1); size_t s = 0;
  for (size_t i = 0; i < t.ix.size(); i++) {
    if (t.start && t.ix[i] == 1) s = i;
    size_t b = i + 1 >= (size_t)order ? i + 1 - order : 0;
    if (b < s) b = s;
    G g(t.ix.begin() + b, t.ix.begin() + i + 1);
    c[g.size()][g]++;
  }
  return c;
}
// statistics of the contexts from the counts
inline void ctxstats(Snap &s, bool three) {
  s.b.assign(s.c.size(), std::map<G, St>());
  for (size_t o = 1; o < s.c.size(); o++)
    for (auto &x : s.c[o]) { St &t = s.b[o][hd(x.first)]; t.den += x.second; t.nz[three ? std::min(2L, x.second - 1) : 0]++; }
}
inline Snap refcounts(const Text &t, int order, bool three, bool absolute) {
  Snap s; s.c = rawwin(t, order);
  for (int o = order; o >= 2; o--) for (auto &x : s.c[o]) s.c[o - 1][tl(x.first)] += absolute ? x.second : 1;
  while (s.c.size() > 1 && s.c.back().empty()) s.c.pop_back();
  ctxstats(s, three);
  return s;
}
template <class X> typename X::KN *train(const Text &t, int order, bool absolute, bool usevocab, Storage_t<int, int> *ds = NULL, int hs = 1000) {
  put("kn.txt", t.s); put("kn.voc", vocabtxt(t));
  return new typename X::KN(absolute, "kn.txt", usevocab ? "kn.voc" : "", "", 0, order, 0, 9999999, ds, "", t.start ? "<s>" : "", hs);
}
#endif
