#include "model.hh"
#include "InterTreeGram.hh"
using namespace h;
static std::vector<int> list(int V) {
  std::vector<int> l;
  if (ri(0, 1)) for (int i = 0; i < V; i++) l.push_back(i);
  else for (int i = ri(1, V + 3); i > 0; i--) l.push_back(ri(0, V - 1));
  return l;
}
int main() {
  start();
  for (int rep = 0; rep < (thorough ? 20000 : 1500); rep++) {
    Model m = rmodel(12, 4, false, rep % 4 == 0 ? ri(1, 10) : -1);
    TreeGram lm;
    begin("building");
    build(lm, m);
    std::string log = m.str();
    if (m.order >= 2) nontrivial();
    int nctx = std::min(m.V * (m.V + 1), 60);
    for (int q = 0; q < nctx; q++) {
      bool tri = q >= m.V && q % 4;
      int w1 = ri(0, m.V - 1), w2 = q < m.V ? q : ri(0, m.V - 1);
      if (tri && ri(0, 2) == 0 && m.order >= 2 && !m.t[1].empty()) {      // an existing bigram, the last one among them
        auto it = m.t[1].begin();
        std::advance(it, ri(0, 3) ? ri(0, (int)m.t[1].size() - 1) : (int)m.t[1].size() - 1);
        w1 = it->first[0]; w2 = it->first[1];
      }
      std::vector<int> next = list(m.V), keep = next;
      std::vector<float> res(next.size(), 123.f);
      cur = log + fmt(" context %s%d list %s", tri ? fmt("%d ", w1).c_str() : "", w2, vec(next).c_str());
      if (tri) lm.fetch_trigram_list(w1, w2, next, res); else lm.fetch_bigram_list(w2, next, res);
      CHECK(res.size() == next.size() && next == keep, "sizes");
      for (size_t i = 0; i < next.size(); i++) {
        G g;
        if (tri) g.push_back(w1);
        g.push_back(w2);
        g.push_back(next[i]);
        // an individual query over an n-gram longer than the model falls back by itself
        double want = lm.log_prob(gr(g));
        CHECK(close(res[i], want, 1e-5), "element %zu (word %d) is %g, the individual query gives %g", i, next[i], res[i], want);
        CHECK(close(res[i], ref_bo(m, g), 1e-5), "element %zu (word %d) is %g, by definition %g", i, next[i], res[i], ref_bo(m, g));
      }
    }
    if (rep < 5) sample();
  }
  // mixtures
  for (int rep = 0; rep < (thorough ? 1000 : 100); rep++) {
    int nm = ri(1, 3);
    std::vector<std::string> files;
    std::vector<float> c;
    std::string log = "mixture:";
    int V = 0;
    float left = 1;
    for (int i = 0; i < nm; i++) {
      Model m = rmodel(7, 3);
      V = std::max(V, m.V);
      files.push_back(fmt("m%d.arpa", i));
      spit(files[i], arpa(m, wnames(m.V)));
      float x = i == nm - 1 ? left : left * (float)rd();
      left -= x;
      c.push_back(x);
      log += fmt(" [%g * %s]", x, m.str().c_str());
    }
    begin((const std::string &)log);
    InterTreeGram lm(files, c);
    for (int w = 0; w < V; w++) {
      std::vector<int> next = list(V);
      std::vector<float> res(next.size(), 123.f);
      lm.fetch_bigram_list(w, next, res);
      for (size_t i = 0; i < next.size(); i++) {
        double want = lm.log_prob(gr(G{w, next[i]}));
        CHECK(close(res[i], want, 1e-4) || (res[i] < -35 && want < -35), "context %d, element %zu (word %d) is %g, the individual query gives %g", w, i, next[i], res[i], want);
      }
    }
  }
  return done();
}
