// C08: interpolated queries and conversion to back-off form.
#include "model.hh"
using namespace h;
int main() {
  start();
  int N = thorough ? 4000 : 500;
  for (int it = 0; it < N; it++) {
    Model m = rmodel(it % 4 ? 4 : 12, 4, it % 2);
    begin(m.str());
    TreeGram lm;
    build(lm, m, true);
    std::map<G, double> stored;
    for (auto &g : grams(m.V, m.order + 2, 400)) {
      double p = ref_ip(m, g);
      double r = p > 1e-60 ? log10(p) : -60;
      double v = lm.log_prob_i(gr(g));
      CHECK(close(v, r, 1e-4), "log_prob_i(%s)=%g, definition %g", vec(g).c_str(), v, r);
      G q = g;
      if ((int)q.size() > m.order) q = G(q.end() - m.order, q.end());
      CHECK(lm.last_order() == ref_order(m, q), "last_order(%s)=%d, definition %d", vec(g).c_str(), lm.last_order(), ref_order(m, q));
      if (ri(0, 9) == 0) {
        std::vector<unsigned short> s(g.begin(), g.end());
        CHECK(close(lm.log_prob(g), r) && close(lm.log_prob(s), r) && close(lm.log_prob(gr(g)), r) &&
              close(lm.log_prob_i(g), r) && close(lm.log_prob_i(s), r), "other query forms for %s", vec(g).c_str());
      }
    }
    for (auto &lv : m.t)
      for (auto &x : lv) {
        double p = ref_ip(m, x.first);
        double l = p > 1e-60 ? log10(p) : -60;
        if (l > 1e-4) l = 0;         // the conversion clips at probability one
        stored[x.first] = l;
      }
    // clipping a lower order would change the higher ones: only proper models are converted
    lm.convert_to_backoff();
    CHECK(lm.get_type() == NGram::BACKOFF, "type after the conversion");
    for (auto &x : stored) {
      double v = lm.log_prob(gr(x.first));
      CHECK(close(v, x.second, 1e-3), "stored %s: %g before, %g after the conversion", vec(x.first).c_str(), x.second, v);
      CHECK(lm.last_order() == (int)x.first.size(), "stored %s no longer found in full", vec(x.first).c_str());
      int n = lookup(lm, x.first);
      CHECK(lm.m_nodes[n].back_off == m.at(x.first).b, "back-off weight of %s changed", vec(x.first).c_str());
    }
    if (m.order > 1) nontrivial();
    if (it % 100 == 3) sample();
  }
  return done();
}
