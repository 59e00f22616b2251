// C13: hash-based models.  Random ARPA files (not necessarily prefix closed, empty orders,
// values at the floor, positive weights) against the recursion over plain maps.
#include "h.hh"
#define private public
#define protected public
#include "model.hh"
#include "HashGram.hh"
#undef private
#undef protected
using namespace h;
static const double FL = -60;
// definition over plain maps; p <= floor counts as absent
struct HM { int order; std::vector<std::map<G, float>> p, b; };
static float getp(const HM &m, const G &g) { auto i = m.p[g.size()].find(g); return i == m.p[g.size()].end() || i->second <= FL ? FL : i->second; }
static float getb(const HM &m, const G &g) { auto i = m.b[g.size()].find(g); return i == m.b[g.size()].end() ? 0 : i->second; }
static G cutto(const HM &m, const G &g) { return (int)g.size() > m.order ? G(g.end() - m.order, g.end()) : g; }
static double dbo(const HM &m, const G &g, int &ord) {
  if (getp(m, g) > FL) { ord = g.size(); return getp(m, g); }
  if (g.size() == 1) { ord = 1; return FL; }
  return getb(m, head(g)) + dbo(m, tail(g), ord);
}
static double dip(const HM &m, const G &g, int &ord) {
  double lower = 0;
  if (g.size() > 1) lower = dip(m, tail(g), ord) * pow(10, getb(m, head(g)));
  if (g.size() == 1 || getp(m, g) > FL) { ord = g.size(); lower += pow(10, getp(m, g)); }
  return lower;
}
static HM rhm(int V, int maxO, bool zeros, bool floors = false) {
  HM m; m.order = ri(1, maxO); m.p.resize(m.order + 1); m.b.resize(m.order + 1);
  for (int n = 1; n <= m.order; n++) {
    int want = n == 1 ? V : ri(zeros && !ri(0, 4) ? 0 : 1, 50);
    for (int k = 0; k < want; k++) {
      G g(n);
      if (n == 1) g[0] = k;
      else for (auto &w : g) w = ri(0, V - 1);
      if (n > 1 && ri(0, 9) < 7) {          // mostly extend a known context
        auto &prev = m.p[n - 1];
        if (!prev.empty()) { auto i = prev.begin(); std::advance(i, ri(0, prev.size() - 1)); std::copy(i->first.begin(), i->first.end(), g.begin()); }
      }
      int c = ri(0, 19);
      m.p[n][g] = c == 0 ? 0 : n == 1 && !floors ? (float)(-4 * rd()) : c == 1 ? -99 : c == 2 ? -60 : (float)(-4.5 * rd() - 0.001);
      if (n < m.order && ri(0, 9) < 7) m.b[n][g] = ri(0, 5) == 0 ? (float)(rd() * 0.8) : (float)(-2 * rd());
    }
  }
  return m;
}
static std::string txt(const HM &m, bool interp) {
  std::string o = interp ? "\\interpolated\n\\data\\\n" : "\\data\\\n";
  for (int n = 1; n <= m.order; n++) o += fmt("ngram %d=%d\n", n, (int)m.p[n].size());
  for (int n = 1; n <= m.order; n++) {
    o += fmt("\n\\%d-grams:\n", n);
    for (auto &x : m.p[n]) {
      o += fmt("%.9g", x.second);
      for (int w : x.first) o += " " + wname(w);
      if (m.b[n].count(x.first)) o += fmt(" %.9g", m.b[n].find(x.first)->second);
      o += "\n";
    }
  }
  return o + "\n\\end\\\n";
}
template <class KT> static void load(HashGram_t<KT> &h, const std::string &s) {
  FILE *f = fmemopen((void *)s.data(), s.size(), "r");
  h.read(f);
  fclose(f);
}
template <class KT> static void cmp(HashGram_t<KT> &h, const HM &m, bool interp, int V, double tol, const char *what) {
  CHECK(h.order() == m.order, "%s: order is %d, want %d", what, h.order(), m.order);
  CHECK((h.get_type() == NGram::INTERPOLATED) == interp, "%s: type", what);
  for (auto &g : grams(V, m.order + 2, thorough ? 1500 : 300)) {
    G c = cutto(m, g);
    int ord = 0;
    double want = interp ? safelogprob(dip(m, c, ord)) : dbo(m, c, ord);
    std::vector<int> gi(g.begin(), g.end());
    // indices of the loaded model
    std::vector<int> q(g.size());
    for (size_t i = 0; i < g.size(); i++) q[i] = h.word_index(wname(g[i]));
    std::vector<unsigned short> qs(q.begin(), q.end());
    Gram qd(q.begin(), q.end());
    float a = h.log_prob(q), b; int oa = h.last_order();
    h.set_last_order(-7);
    b = h.log_prob(qd);
    CHECK(close(a, want, tol) || (interp && a < -58 && want < -58), "%s: log_prob %s is %g, want %g", what, vec(g).c_str(), a, want);
    CHECK(oa == ord, "%s: last_order for %s is %d, want %d", what, vec(g).c_str(), oa, ord);
    CHECK(a == b && h.last_order() == ord, "%s: deque query of %s gives %g order %d, want %g order %d", what, vec(g).c_str(), b, h.last_order(), a, ord);
    if (sizeof(KT) == 2) { b = h.log_prob(qs); CHECK(a == b, "%s: short query of %s gives %g, want %g", what, vec(g).c_str(), b, a); }
  }
}
template <class KT> static std::string dump(HashGram_t<KT> &h) {
  FILE *f = fopen("h.arpa", "w");
  h.write(f);
  fclose(f);
  return slurp("h.arpa");
}
template <class KT> static void run(int reps) {
  for (int rep = 0; rep < reps; rep++) {
    int V = ri(1, rep % 5 ? 8 : 60);
    bool interp = ri(0, 1);
    bool floors = ri(0, 3) == 0;
    HM m = rhm(V, rep % 3 ? 3 : 5, true, floors);
    std::string s = txt(m, interp);
    begin("model\n" + s);
    if (rep < 3) sample();
    if (m.order > 1) nontrivial();
    {
      HashGram_t<KT> h;
      load(h, s);
      cmp(h, m, interp, V, 2e-5, "read");
      h.remove_empty_grams();
      cmp(h, m, interp, V, 2e-5, "after remove_empty_grams");
      if (floors) continue;      // a unigram at the floor is not written
      // written and read again (four decimals)
      std::string t = dump(h);
      HashGram_t<KT> h2;
      load(h2, t);
      HM r = m;
      cmp(h2, r, interp, V, 1e-3, "written and read again");
      h.add_zeroprob_grams();
      cmp(h, m, interp, V, 2e-5, "after add_zeroprob_grams");
      std::string t3 = dump(h);
      HashGram_t<KT> h3;
      load(h3, t3);
      cmp(h3, m, interp, V, 1e-3, "with zero-probability n-grams, written and read again");
    }
  }
}
// a tree model and a hash model read from one file agree
static void agree(int reps) {
  for (int rep = 0; rep < reps; rep++) {
    Model m = rmodel(10, 4, false);
    for (auto &lv : m.t) for (auto &x : lv) if (x.second.p < -50) x.second.p = -3;
    bool interp = ri(0, 1);
    std::string s = arpa(m, wnames(m.V), interp);
    begin("tree and hash model\n" + s);
    TreeGram t; HashGram_t<int> h;
    load(h, s);
    FILE *f = fmemopen((void *)s.data(), s.size(), "r");
    t.read(f);
    fclose(f);
    for (auto &g : grams(m.V, m.order + 1, 300)) {
      std::vector<int> a(g.size()), b(g.size());
      for (size_t i = 0; i < g.size(); i++) { a[i] = t.word_index(wname(g[i])); b[i] = h.word_index(wname(g[i])); }
      float x = t.log_prob(Gram(a.begin(), a.end())), y = h.log_prob(b);
      CHECK(close(x, y, 2e-5), "%s: tree gives %g, hash gives %g", vec(g).c_str(), x, y);
      CHECK(t.last_order() == h.last_order(), "%s: tree order %d, hash order %d", vec(g).c_str(), t.last_order(), h.last_order());
    }
  }
}
// interpolation of two back-off models
static void mixed(int reps) {
  for (int rep = 0; rep < reps; rep++) {
    int V = ri(1, 8);
    HM a = rhm(V, 4, false), b = rhm(V, 4, false);
    double l = ri(0, 9) == 0 ? ri(0, 1) : rd();
    std::string sa = txt(a, false), sb = txt(b, false);
    begin(fmt("interpolation with weight %g of\n", l) + sa + "and\n" + sb);
    HashGram_t<int> x, y;
    load(x, sa); load(y, sb);
    x.fake_interpolate(y, l);
    CHECK(x.order() == std::max(a.order, b.order), "order of the result %d", x.order());
    auto val = [&](const G &g) {
      std::vector<int> q(g.size());
      for (size_t i = 0; i < g.size(); i++) q[i] = x.word_index(wname(g[i]));
      return x.log_prob(q);
    };
    for (const HM *m : {&a, &b})
      for (int n = 2; n <= m->order; n++)
        for (auto &e : m->p[n]) {
          if (e.second <= FL) continue;
          int o;
          double pa = pow(10, dbo(a, cutto(a, e.first), o)), pb = pow(10, dbo(b, cutto(b, e.first), o));
          float wl = l; double want = wl * pa + (1 - wl) * pb;
          if (want <= 1e-50) continue;
          float got = val(e.first);
          CHECK(close(pow(10, got), want, 1e-4), "%s: %g, want %g*%g + %g*%g", vec(e.first).c_str(), pow(10, got), wl, pa, 1 - wl, pb);
          CHECK(x.last_order() == n, "%s: order %d after interpolation", vec(e.first).c_str(), x.last_order());
        }
  }
}
int main() {
  start();
  int k = thorough ? 12 : 1;
  run<int>(150 * k);
  run<unsigned short>(80 * k);
  agree(150 * k);
  mixed(200 * k);
  return done();
}
