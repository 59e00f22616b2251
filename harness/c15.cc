// C15: prepared counts and context statistics against plain-map references.
#include "kn.hh"
template <class X> static void one(int V, int nt, int order, bool abs, bool start, bool useds) {
  Text t = rtext(V, nt, start, ri(3, 30));
  begin(fmt("%s order=%d absolute=%d start=%d storage=%d V=%d text: %s", X::three ? "3 classes" : "1 class", order, abs, start, useds, V, t.s.substr(0, 1500).c_str()));
  sample();
  Storage_t<int, int> ds;
  std::unique_ptr<typename X::KN> kn(train<X>(t, order, abs, true, useds ? &ds : NULL, ri(0, 1) ? 3000 : ri(1, 60)));
  Snap e = refcounts(t, order, X::three, abs);
  if (e.c.size() > 2) nontrivial();
  Snap g = snap<X>(kn->moc);
  std::string d = sdiff(g, e);
  CHECK(d == "", "%s", d.c_str());
  CHECK((size_t)kn->input_data_size == t.ix.size(), "data size %ld", (long)kn->input_data_size);
  // the accessors agree
  typename X::MOC *m = static_cast<typename X::MOC *>(kn->moc);
  for (size_t o = 1; o < e.b.size(); o++)
    for (auto &x : e.b[o]) {
      G v = x.first; v.push_back(0);
      CHECK(m->GetBackoffDen(o, &v[0]) == x.second.den, "GetBackoffDen %s", vec(x.first).c_str());
      typename X::BO b; m->GetBackoff(o, &v[0], &b); St s; tost(s, b);
      CHECK(s == x.second, "GetBackoff %s: %s, expected %s", vec(x.first).c_str(), s.str().c_str(), x.second.str().c_str());
    }
  for (int k = 0; k < 20; k++) {
    int o = ri(2, order + 1); G v(o); for (auto &w : v) w = ri(0, V - 1);
    G c = hd(v);
    long den = o < (int)e.b.size() && e.b[o].count(c) ? e.b[o][c].den : 0;
    CHECK(m->GetBackoffDen(o, &v[0]) == den, "GetBackoffDen %s", vec(c).c_str());
    long n = o < (int)e.c.size() && e.c[o].count(v) ? e.c[o][v] : 0;
    CHECK(m->GetCount(v) == n, "GetCount %s", vec(v).c_str());
  }
  if (!start) return;
  // the sentence start taken out of the unigrams, once or twice
  for (int k = 0; k < 2; k++) {
    kn->remove_sent_start_prob();
    Snap g2 = snap<X>(kn->moc);
    if (!k && e.c.size() > 1 && e.c[1].count(G(1, 1))) {
      long x = e.c[1][G(1, 1)];
      e.c[1].erase(G(1, 1));
      St &u = e.b[1][G()]; u.den -= x; u.nz[X::three ? (x < 3 ? x - 1 : 2) : 0]--;
      if (u.zero()) e.b[1].erase(G());
    }
    d = sdiff(g2, e);
    CHECK(d == "", "sentence start removed %d times: %s", k + 1, d.c_str());
  }
}
int main() {
  start();
  int N = thorough ? 2000 : 250;
  for (int k = 0; k < N; k++) {
    int V = ri(3, 12), order = ri(1, 5), nt = ri(0, 5) ? ri(2, 150) : ri(1, 6);
    bool abs = ri(0, 2) == 0, st = ri(0, 1), ds = ri(0, 1);
    if (ri(0, 1)) one<One>(V, nt, order, abs, st, ds); else one<Three>(V, nt, order, abs, st, ds);
  }
  one<One>(400, thorough ? 60000 : 9000, 3, false, true, false);
  one<Three>(400, thorough ? 60000 : 9000, 4, false, true, true);
  return done();
}
