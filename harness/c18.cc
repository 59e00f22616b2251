// C18: smoothed probabilities of trained / grown / pruned models sum to one and follow the formula.
#include "kn.hh"
static double disc(InterKn_int_disc<int, int> *k, int o, int) { return k->m_discount[o]; }
static double disc(InterKn_int_disc3<int, int> *k, int o, int c) { return k->m_discount[o][c]; }
// smoothed probability from the counts
template <class X> static double ref(typename X::KN *k, const Snap &s, const G &g, bool *defd) {
  double p = 1.0 / k->vocab.num_words();
  for (int n = 1; n <= (int)std::min(g.size(), (size_t)k->m_order); n++) {
    G h(g.end() - n, g.end());
    St c; if (n < (int)s.b.size()) { auto i = s.b[n].find(hd(h)); if (i != s.b[n].end()) c = i->second; }
    if (c.den == 0) { if (n == 1) *defd = false; continue; }
    double share = c.prune;
    for (int i = 0; i < 3; i++) if (c.nz[i]) share += c.nz[i] * disc(k, n, X::three ? i : 0);
    p *= share / c.den;
    if (n < (int)s.c.size()) { auto i = s.c[n].find(h); if (i != s.c[n].end() && i->second > 0) p += (i->second - disc(k, n, X::three ? (int)std::min(2L, i->second - 1) : 0)) / c.den; }
  }
  return p;
}
static void range(InterKn_int_disc<int, int> *k) { for (int o = 1; o <= k->m_order; o++) CHECK(k->m_discount[o] >= 0 && k->m_discount[o] <= 1, "discount of order %d is %g", o, k->m_discount[o]); }
static void range(InterKn_int_disc3<int, int> *k) { for (int o = 1; o <= k->m_order; o++) for (int i = 0; i < 3; i++) CHECK(k->m_discount[o][i] >= 0 && k->m_discount[o][i] <= i + 1, "discount %d of order %d is %g", i, o, k->m_discount[o][i]); }
template <class X> static void probs(typename X::KN *k, const char *when) {
  Snap s = snap<X>(k->moc);
  int V = k->vocab.num_words();
  range(k);
  std::vector<G> ctx; ctx.push_back(G());
  for (size_t o = 2; o < s.b.size(); o++) for (auto &x : s.b[o]) if (ctx.size() < 60 || ri(0, 5) == 0) ctx.push_back(x.first);
  for (int i = 0; i < 20; i++) { G g(ri(1, k->m_order + 1)); for (auto &w : g) w = ri(0, V - 1); ctx.push_back(g); }
  for (auto &h : ctx) {
    double sum = 0; bool defd = true;
    for (int w = 0; w < V; w++) {
      G g(h); g.push_back(w);
      double p = k->tableprob(g), e = ref<X>(k, s, g, &defd);
      if (!defd) return;                // empty text
      CHECK(p == p && p >= -1e-6 && p <= 1 + 1e-5, "%s: probability of %s is %g", when, vec(g).c_str(), p);
      CHECK(close(p, e, 2e-6), "%s: probability of %s is %.8g, the formula gives %.8g", when, vec(g).c_str(), p, e);
      sum += p;
    }
    CHECK(std::fabs(sum - 1) < 2e-5, "%s: probabilities after %s sum to %.8g", when, vec(h).c_str(), sum);
  }
}
// leave-one-out discounts: inside [0.1, i + 0.8], untouched when there is nothing to estimate from
static std::vector<float> loo(const Cnt &c, std::vector<float> cur) {
  int n = cur.size(); std::vector<long> cc(n + 1);
  for (auto &x : c) if (x.second >= 1 && x.second <= n + 1) cc[x.second - 1]++;
  if (!cc[0] || !cc[1]) return cur;
  double Y = cc[0] / (cc[0] + 2.0 * cc[1]);
  for (int i = 0; i < n; i++) if (cc[i]) cur[i] = std::max(0.1, std::min(i + 0.8, i + 1 - (i + 2) * Y * cc[i + 1] / cc[i]));
  return cur;
}
template <class X> static void one(const Text &t, int order, bool start, bool abs) {
  begin(fmt("%s order=%d start=%d absolute=%d text: %s", X::three ? "3 classes" : "1 class", order, start, abs, t.s.substr(0, 1500).c_str()));
  sample();
  nontrivial();
  std::unique_ptr<typename X::KN> kn(train<X>(t, order, abs, true));
  typename X::KN *k = kn.get();
  Snap s = snap<X>(k->moc);
  order = k->m_order;   // sentences may be shorter than the requested order
  // discount vectors are clamped into the range
  std::vector<float> d; k->disc2flatv(d);
  size_t per = X::three ? 3 : 1;
  CHECK(d.size() == per * order, "%d discounts", (int)d.size());
  std::vector<float> in(d.size());
  bool outside = ri(0, 1);
  for (size_t i = 0; i < in.size(); i++) in[i] = outside ? (float)(rd() * 8 - 3) : (float)(rd() * (i % per + 1));
  std::vector<float> arg(in);
  float pen = k->flatv2disc(arg);
  k->disc2flatv(d);
  bool out = false;
  for (size_t i = 0; i < in.size(); i++) {
    float hi = i % per + 1, e = std::min(hi, std::max(0.f, in[i]));
    if (e != in[i]) out = true;
    CHECK(d[i] == e, "discount %d set to %g becomes %g, expected %g", (int)i, in[i], d[i], e);
  }
  CHECK(out ? pen > 0 : pen == 0, "penalty %g for %s", pen, vec(in).c_str());
  range(k);
  if (t.ix.size() > 0) probs<X>(k, "after setting discounts");
  for (int o = 1; o <= order; o++) {
    std::vector<float> cur(d.begin() + (o - 1) * per, d.begin() + o * per);
    std::vector<float> r = k->calculate_leaveoneout_discounts(o, cur), e = loo(o < (int)s.c.size() ? s.c[o] : Cnt(), cur);
    CHECK(r.size() == per, "%d discounts", (int)r.size());
    for (size_t i = 0; i < per; i++) CHECK(close(r[i], e[i], 1e-5), "leave-one-out discount %d of order %d is %g, expected %g", (int)i, o, r[i], e[i]);
    k->set_leaveoneout_discounts(o);
    for (size_t i = 0; i < per; i++) CHECK(disc(k, o, i) == r[i], "discount %d of order %d not set", (int)i, o);
  }
  k->cutoffs.clear(); k->discard_cutoffs = false; k->discard_ngrams_with_unk = false;
  probs<X>(k, "after leave-one-out");
  if (order > 1) {
    if (ri(0, 1)) k->cutoffs.assign(ri(1, 3), ri(0, 2));
    k->prune_model((float)(rd() * 0.6 - 0.1), ri(0, 3), NULL);
    probs<X>(k, "after pruning");
  }
  if (ri(0, 3) == 0) {
    k->init_disc((float)rd()); range(k); probs<X>(k, "after init_disc");
    if (ri(0, 1)) { k->add_zeroprob_grams(); probs<X>(k, "after adding zero-probability n-grams"); }
    else { k->remove_zeroprob_grams(); probs<X>(k, "after removing zero-probability n-grams"); }
  }
}
template <class X> static void grown(const Text &t, bool start) {
  begin(fmt("grown: %s start=%d text: %s", X::three ? "3 classes" : "1 class", start, t.s.substr(0, 1500).c_str()));
  put("vg.txt", t.s); put("vg.voc", vocabtxt(t));
  Varigram_t<int, int> vg(X::three, ri(0, 4) == 0);
  vg.set_datacost_scale((float)(rd() * 0.3)); vg.set_datacost_scale2((float)(rd() * 0.3)); vg.set_max_order(5);
  vg.initialize("vg.txt", 0, 0, 9999999, "", start ? "<s>" : "", false, "vg.voc");
  vg.m_kn->discard_cutoffs = false;
  std::vector<int> h; int old = -1;
  for (int k = 0; k < 60 && vg.m_kn->MocNextVector(h) && h.size() < 5; k++) {
    if ((int)h.size() != old) vg.m_data->initialize_fast_search_lists(h.size() + 1, vg.m_kn->moc->m_counts[h.size()], NULL);
    old = h.size();
    vg.reestimate_with_history(h);
    if (k % 7 == 0) probs<X>(static_cast<typename X::KN *>(vg.m_kn), "while growing");
  }
  probs<X>(static_cast<typename X::KN *>(vg.m_kn), "after growing");
}
template <class X> static void full(const Text &t, bool start) {
  begin(fmt("varigram training: %s start=%d text: %s", X::three ? "3 classes" : "1 class", start, t.s.substr(0, 1500).c_str()));
  put("vg.txt", t.s); put("vg.voc", vocabtxt(t));
  put("vg.opt", rtext(t.V, ri(5, 40), start).s);
  Varigram_t<int, int> vg(X::three, false);
  vg.set_datacost_scale((float)(rd() * 0.2)); vg.set_datacost_scale2((float)(rd() * 0.2)); vg.set_max_order(4);
  vg.initialize("vg.txt", 0, 0, 9999999, ri(0, 1) ? "vg.opt" : "", start ? "<s>" : "", false, "vg.voc");
  vg.m_kn->discard_cutoffs = false;
  vg.grow(ri(1, 2));
  probs<X>(static_cast<typename X::KN *>(vg.m_kn), "after varigram training");
}
int main() {
  start();
  int N = thorough ? 800 : 90;
  for (int k = 0; k < N; k++) {
    bool st = ri(0, 1), ab = ri(0, 3) == 0;
    Text t = rtext(ri(3, 9), ri(3, 130), st, ri(3, 30));
    int order = ri(1, 4);
    if (ri(0, 1)) { one<One>(t, order, st, ab); grown<One>(t, st); } else { one<Three>(t, order, st, ab); grown<Three>(t, st); }
    if (k % 3 == 0) { if (ri(0, 3) == 0) t = rtext(t.V, ri(3, 60), st, 0); if (k % 2) full<One>(t, st); else full<Three>(t, st); }
  }
  return done();
}
