#include "model.hh"
using namespace h;
typedef TreeGram::Iterator It;
static G cur_gram(It &it, int order) {
  G g;
  for (int o = 1; o <= order; o++) g.push_back(it.node(o).word);
  return g;
}
static G at(It &it) { return cur_gram(it, it.order()); }
int main() {
  start();
  for (int rep = 0; rep < (thorough ? 30000 : 2500); rep++) {
    Model m = rmodel(rep % 3 ? 6 : 12, 5, false, rep % 5 == 0 ? ri(1, 10) : -1);
    // leave whole levels thin now and then: only a few parents keep children
    if (rep % 3 == 1 && m.order > 1) {
      for (int n = 1; n < m.order; n++) {
        for (auto it = m.t[n].begin(); it != m.t[n].end();) {
          if (ri(0, 2) || (n > 1 && !m.has(head(it->first)))) it = m.t[n].erase(it); else ++it;
        }
        if (m.t[n].empty()) { m.t.resize(n); m.order = n; break; }
      }
    }
    TreeGram lm;
    begin("building");
    build(lm, m);
    std::string log = m.str();
    cur = log;
    if (rep < 5) sample();
    if (m.order > 2) nontrivial();
    std::vector<G> all;
    for (auto &l : m.t) for (auto &x : l) all.push_back(x.first);
    std::sort(all.begin(), all.end());               // lexicographic order: parents first, siblings in order
    // ---- full iteration
    It it(&lm);
    size_t k = 0;
    while (it.next()) {
      CHECK(k < all.size(), "more nodes visited than n-grams stored");
      CHECK(at(it) == all[k], "visit %zu is %s, expected %s", k, vec(at(it)).c_str(), vec(all[k]).c_str());
      CHECK(it.order() == (int)all[k].size(), "order() is %d", it.order());
      PB pb = m.at(all[k]);
      CHECK(it.node().log_prob == pb.p && it.node().back_off == pb.b && it.node(0).word == all[k].back(), "node of %s has other weights", vec(all[k]).c_str());
      k++;
    }
    CHECK(k == all.size(), "%zu nodes visited, %zu stored", k, all.size());
    // ---- one order
    It it2;
    for (int o = 1; o <= m.order; o++) {
      it2.reset(&lm);
      auto w = m.t[o - 1].begin();
      while (it2.next_order(o)) {
        CHECK(w != m.t[o - 1].end(), "order %d: more n-grams than stored", o);
        CHECK(at(it2) == w->first, "order %d: %s visited, expected %s", o, vec(at(it2)).c_str(), vec(w->first).c_str());
        ++w;
      }
      CHECK(w == m.t[o - 1].end(), "order %d: iteration ended before %s", o, vec(w->first).c_str());
    }
    // ---- moves from every n-gram
    for (auto &g : all) {
      It b = lm.iterator(gr(g));
      cur = log + " at " + vec(g);
      CHECK(at(b) == g, "iterator(gram) is at %s", vec(at(b)).c_str());
      std::vector<int> sib, kids;
      if (g.size() == 1) for (int w = 0; w < m.V; w++) sib.push_back(w);
      else for (auto &x : m.t[g.size() - 1]) if (head(x.first) == head(g)) sib.push_back(x.first.back());
      if ((int)g.size() < m.order) for (auto &x : m.t[g.size()]) if (head(x.first) == g) kids.push_back(x.first.back());
      CHECK(b.has_children() == !kids.empty(), "has_children() %d, children %zu", b.has_children(), kids.size());
      It d = b;
      bool r = d.down();
      CHECK(r == !kids.empty(), "down() gave %d, children %zu", r, kids.size());
      if (r) { G e = g; e.push_back(kids[0]); CHECK(at(d) == e, "down() went to %s", vec(at(d)).c_str()); }
      else CHECK(at(d) == g, "failed down() moved to %s", vec(at(d)).c_str());
      It u = b;
      r = u.up();
      CHECK(r == (g.size() > 1), "up() gave %d", r);
      CHECK(at(u) == (r ? head(g) : g), "up() went to %s", vec(at(u)).c_str());
      int pos = std::find(sib.begin(), sib.end(), g.back()) - sib.begin();
      for (int delta = -pos - 2; delta <= (int)sib.size() - pos + 1; delta++) {
        It s = b;
        r = s.move_in_context(delta);
        bool want = pos + delta >= 0 && pos + delta < (int)sib.size();
        CHECK(r == want, "move_in_context(%d) gave %d with %zu siblings, at position %d", delta, r, sib.size(), pos);
        G e = g;
        if (want) e.back() = sib[pos + delta];
        CHECK(at(s) == e, "move_in_context(%d) went to %s, expected %s", delta, vec(at(s)).c_str(), vec(e).c_str());
      }
    }
    // ---- iteration continued from the middle
    if (all.size() > 1) {
      int s = ri(0, all.size() - 1);
      It b = lm.iterator(gr(all[s]));
      cur = log + " continued from " + vec(all[s]);
      for (size_t j = s + 1; j < all.size(); j++) {
        CHECK(b.next(), "iteration ended before %s", vec(all[j]).c_str());
        CHECK(at(b) == all[j], "%s visited, expected %s", vec(at(b)).c_str(), vec(all[j]).c_str());
      }
      CHECK(!b.next(), "iteration went on past the end");
    }
  }
  return done();
}
