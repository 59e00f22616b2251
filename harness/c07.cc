// C07: back-off queries.
#include "model.hh"
using namespace h;
int main() {
  start();
  int N = thorough ? 5000 : 600;
  for (int it = 0; it < N; it++) {
    Model m = rmodel(it % 4 ? 4 : 12, 4, it % 2);
    begin(m.str());
    TreeGram lm;
    build(lm, m);
    for (auto &g : grams(m.V, m.order + 2, 500)) {
      double r = ref_bo(m, g);
      double v = lm.log_prob_bo(gr(g));
      CHECK(close(v, r, 1e-5), "log_prob_bo(%s)=%g, definition %g", vec(g).c_str(), v, r);
      CHECK(lm.last_order() == ref_order(m, g), "last_order(%s)=%d, definition %d", vec(g).c_str(), lm.last_order(), ref_order(m, g));
      if (ri(0, 9) == 0) {
        std::vector<unsigned short> s(g.begin(), g.end());
        CHECK(close(lm.log_prob(g), r, 1e-5) && close(lm.log_prob(s), r, 1e-5) && close(lm.log_prob(gr(g)), r, 1e-5) &&
              close(lm.log_prob_bo(g), r, 1e-5) && close(lm.log_prob_bo(s), r, 1e-5), "other query forms for %s", vec(g).c_str());
      }
    }
    if (m.order > 1) nontrivial();
    if (it % 100 == 3) sample();
  }
  return done();
}
