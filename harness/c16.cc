// C16: growing steps that are rejected / accepted, and the cached increments themselves.
#include "kn.hh"
static Storage_t<int, int> *g_ds;
// continuations of a history in the training data (windows do not cross sentence starts)
static std::map<int, long> conts(const Text &t, const G &h) {
  std::map<int, long> c; size_t s = 0;
  for (size_t i = 0; i < t.ix.size(); i++) {
    if (t.start && t.ix[i] == 1) s = i;
    if (i < s + h.size()) continue;
    if (std::equal(h.begin(), h.end(), t.ix.begin() + (i - h.size()))) c[t.ix[i]]++;
  }
  return c;
}
static void cls(Snap &s, const G &g, bool three, int d) { long n = s.c[g.size()][g]; s.b[g.size()][hd(g)].nz[three ? std::min(2L, n - 1) : 0] += d; }
static void grow(Snap &s, int o) { if ((int)s.c.size() <= o) s.c.resize(o + 1); if ((int)s.b.size() <= o) s.b.resize(o + 1); }
// reference for an accepted step
static Snap accept(Snap s, const G &h, const std::map<int, long> &nc, bool three, bool absolute) {
  int o = h.size() + 1; grow(s, o);
  for (auto &x : nc) {
    G g(h); g.push_back(x.first);
    s.c[o][g] += x.second; s.b[o][h].den += x.second; s.b[o][h].nz[three ? std::min(2L, x.second - 1) : 0]++;
    if (absolute || x.second == 1) continue;
    G l = tl(g);
    if (!s.c[o - 1].count(l)) continue;
    cls(s, l, three, -1);
    s.c[o - 1][l] -= x.second - 1; s.b[o - 1][hd(l)].den -= x.second - 1;
    cls(s, l, three, 1);
  }
  return s;
}
static void clean(Snap &s) {
  for (auto &m : s.c) for (auto i = m.begin(); i != m.end();) if (!i->second) m.erase(i++); else ++i;
  for (auto &m : s.b) for (auto i = m.begin(); i != m.end();) if (i->second.zero()) m.erase(i++); else ++i;
}
template <class X> static void growing(int V, int nt, bool start, bool absolute, float scale, bool vocabfile) {
  Text t = rtext(V, nt, start);
  begin(fmt("growing: %s absolute=%d start=%d scale=%g text: %s", X::three ? "3 classes" : "1 class", absolute, start, scale, t.s.substr(0, 1500).c_str()));
  sample();
  put("vg.txt", t.s); put("vg.voc", vocabtxt(t));
  Varigram_t<int, int> vg(X::three, absolute);
  vg.set_datacost_scale(scale);
  vg.initialize("vg.txt", ri(0, 1) ? 0 : ri(1000, 5000), 0, 9999999, "", start ? "<s>" : "", false, "vg.voc");
  Snap cur = snap<X>(vg.m_kn->moc);
  std::string d = sdiff(cur, refcounts(t, 1, X::three, absolute));
  CHECK(d == "", "start: %s", d.c_str());
  std::vector<int> h; int oldsize = -1, acc = 0, rej = 0, steps = 0;
  while (vg.m_kn->MocNextVector(h) && h.size() < 5 && steps++ < 200) {
    if ((int)h.size() != oldsize) vg.m_data->initialize_fast_search_lists(h.size() + 1, vg.m_kn->moc->m_counts[h.size()], NULL);
    oldsize = h.size();
    bool a = vg.reestimate_with_history(h);
    Snap now = snap<X>(vg.m_kn->moc);
    std::map<int, long> nc = conts(t, h);
    if (a) { acc++; CHECK(!nc.empty(), "accepted history %s without continuations", vec(h).c_str()); cur = accept(cur, h, nc, X::three, absolute); clean(cur); }
    else rej++;
    d = sdiff(now, cur);
    CHECK(d == "", "%s step for history %s: %s", a ? "accepted" : "rejected", vec(h).c_str(), d.c_str());
  }
  if (acc && rej) nontrivial();
}
// random cached increments of all kinds, then undo
template <class X> static void caches(int rounds) {
  std::string log;
  typename X::MOC m; m.vocabsize = 20; m.hashsize = ri(0, 1) ? 1000 : ri(1, 30);
  Snap cur; int top = 1;
  int one = 1; m.IncrementBackoffDen(1, &one, 0); m.IncrementCount(1, &one, 1);
  for (int r = 0; r < rounds; r++) {
    Snap before = snap<X>(&m);
    size_t nb = before.c.size();
    m.ResetCaches();
    std::vector<long> sizes; for (int o = 1; o < (int)m.m_counts.size(); o++) sizes.push_back(m.order_size(o));
    Snap want = before; clean(want);
    int n = ri(1, 40), lim = (int)std::max<size_t>(1, std::min(m.m_counts.size(), std::max<size_t>(m.m_backoffs.size(), 2)));
    std::string ops;
    for (int k = 0; k < n; k++) {
      int o = ri(1, std::min(lim, 4)); G v(o); for (auto &w : v) w = ri(0, 5);
      int val = ri(-3, 6), kind = ri(0, 3);
      grow(want, o);
      if (kind == 0) { long exp = (want.c[o][v] += val); int got = m.IncrementCountCache(o, &v[0], val); ops += fmt(" C%s%+d", vec(v).c_str(), val); begin(log + ops); CHECK(got == exp, "count %s is %d, expected %ld", vec(v).c_str(), got, exp); continue; }
      G c = hd(v);
      if (kind == 1) { m.IncrementBackoffCacheDen(o, &v[0], val); want.b[o][c].den += val; ops += fmt(" D%s%+d", vec(c).c_str(), val); }
      else if (kind == 2) { typename X::BO bo; int p = ri(0, 2); memset(&bo, 0, sizeof bo); bo.den = val; bo.prune_den = p; m.IncrementBackoffCache(o, &v[0], &bo); want.b[o][c].den += val; want.b[o][c].prune += p; ops += fmt(" B%s%+d/%d", vec(c).c_str(), val, p); }
      else { int pos = X::three ? ri(0, 2) : 0; nz(m, o, v, pos, val); want.b[o][c].nz[pos] += val; ops += fmt(" N%s/%d%+d", vec(c).c_str(), pos, val); }
    }
    begin(log + "{" + ops + " }");
    nontrivial();
    clean(want); while (want.c.size() > 1 && want.c.back().empty()) want.c.pop_back();
    std::string d = sdiff(snap<X>(&m), want);
    CHECK(d == "", "after the increments: %s", d.c_str());
    if (ri(0, 2)) {
      m.UndoCached();
      d = sdiff(snap<X>(&m), before);
      CHECK(d == "", "after the undo: %s", d.c_str());
      for (int o = 1; o <= (int)sizes.size(); o++) CHECK((long)m.order_size(o) == sizes[o - 1], "order %d keeps %ld entries, had %ld", o, (long)m.order_size(o), sizes[o - 1]);
      log += "undone{" + ops + "} ";
    } else log += "kept{" + ops + "} ";
    if (log.size() > 1500) log = "... " + log.substr(log.size() - 1200);
  }
}

static void nz(MultiOrderCounts_1nzer<int, int> &m, int o, G &v, int, int val) { m.IncrementBackoffCacheNzer(o, &v[0], val); }
static void nz(MultiOrderCounts_3nzer<int, int> &m, int o, G &v, int pos, int val) {
  if (ri(0, 1)) m.IncrementBackoffCacheNzer(o, &v[0], pos, val);
  else { int a[3] = {0, 0, 0}; a[pos] = val; m.IncrementBackoffCacheNzer(o, &v[0], a); }
}
int main() {
  start();
  int N = thorough ? 600 : 80;
  for (int k = 0; k < N; k++) {
    caches<One>(ri(1, 12)); caches<Three>(ri(1, 12));
    int V = ri(3, 10), nt = ri(10, 150); bool st = ri(0, 1), ab = ri(0, 3) == 0;
    static const float sc[] = {1e-4, 0.02, 0.05, 0.1, 0.3, 1};
    if (ri(0, 1)) growing<One>(V, nt, st, ab, sc[ri(0, 5)], true); else growing<Three>(V, nt, st, ab, sc[ri(0, 5)], true);
  }
  return done();
}
