#include <sys/resource.h>
#include <unistd.h>
// C06: insertion and lookup in the n-gram tree.
#include "model.hh"
using namespace h;

static void compare(TreeGram &lm, const Model &m, const char *when) {
  for (auto &g : grams(m.V, m.order + 1, 400)) {
    int n = lookup(lm, g);
    if (m.has(g)) {
      CHECK(n >= 0 && n < (int)lm.m_nodes.size(), "%s: %s not found", when, vec(g).c_str());
      PB x = m.at(g);
      CHECK(lm.m_nodes[n].word == g.back(), "%s: %s found node of word %d", when, vec(g).c_str(), lm.m_nodes[n].word);
      CHECK(lm.m_nodes[n].log_prob == x.p && lm.m_nodes[n].back_off == x.b, "%s: %s has %g/%g, inserted %g/%g",
            when, vec(g).c_str(), lm.m_nodes[n].log_prob, lm.m_nodes[n].back_off, x.p, x.b);
    } else
      CHECK(n < 0, "%s: %s found though never inserted", when, vec(g).c_str());
  }
  for (size_t o = 0; o < m.t.size(); o++) {
    CHECK(lm.gram_count(o + 1) == (int)m.t[o].size(), "%s: gram_count(%d)=%d, inserted %d", when, (int)o + 1,
          lm.gram_count(o + 1), (int)m.t[o].size());
    for (auto &x : m.t[o]) {   // distinct n-grams have distinct nodes, iterator() lands there
      TreeGram::Iterator it = lm.iterator(gr(x.first));
      CHECK(it.order() == (int)o + 1 && it.node().log_prob == x.second.p, "%s: iterator(%s)", when, vec(x.first).c_str());
    }
  }
}
static void expect_refused(TreeGram &lm, const Model &m, const G &g, const char *why) {
  std::string c0 = cur;
  // an insertion may be refused by an exception or by ending the process
  int r = child([&]() -> int {
    try { lm.add_gram(gr(g), -1, -1); } catch (TreeGram::ReadError &) { compare(lm, m, "after a refused insertion"); return 3; }
    return 0;
  });
  CHECK(r != 0, "insertion of %s accepted (%s)", vec(g).c_str(), why);
  CHECK(r == 3 || r == 1, "refusal of %s (%s) ended with status %d", vec(g).c_str(), why, r);
  if (r == 3) {
    size_t n = lm.m_nodes.size();
    try { lm.add_gram(gr(g), -1, -1); } catch (TreeGram::ReadError &) {}
    CHECK(n == lm.m_nodes.size(), "refused insertion of %s (%s) changed the node array", vec(g).c_str(), why);
  }
}
int main() {
  start();
  int N = thorough ? 6000 : 700;
  for (int it = 0; it < N; it++) {
    Model full = rmodel(it % 3 ? 5 : 14, it % 3 ? 4 : 3), m = full;
    begin(full.str());
    TreeGram lm;
    for (int w = 1; w < m.V; w++) lm.add_word(wname(w));
    lm.reserve_nodes(1);
    m.t.assign(1, std::map<G, PB>());
    m.t[0][G(1, 0)] = PB{-99, 0};
    m.order = full.order;
    int bad = 0;
    for (int o = 0; o < full.order; o++) {
      if ((int)m.t.size() <= o) m.t.resize(o + 1);
      for (auto &x : full.t[o]) {
        if (o == 0 && x.first[0] == 0 && ri(0, 1)) { full.t[0][x.first] = m.t[0][x.first]; continue; }
        lm.add_gram(gr(x.first), x.second.p, x.second.b);
        m.t[o][x.first] = x.second;
        if (ri(0, 15) == 0 && bad < 6) {
          // refusals: duplicate, smaller, order skipped, lower order, missing prefix
          const G &g = x.first;
          bad++;
          int k = ri(0, 5);
          if (o > 0) {
            if (k == 0) expect_refused(lm, m, g, "duplicate");
            if (k == 1 && m.t[o].size() > 1) expect_refused(lm, m, m.t[o].begin()->first, "duplicate of the first");
            if (k == 2) { G s = g; int j = ri(0, o); if (s[j] > 0) { s[j]--; expect_refused(lm, m, s, "out of order"); } }
            if (k == 3) { G s = g; s.push_back(0); s.push_back(0); expect_refused(lm, m, s, "skips an order"); }
            if (k == 4) { G s(1, ri(1, m.V - 1)); expect_refused(lm, m, s, "lower order"); }
            if (k == 5) {   // missing prefix, greater than g
              for (int tr = 0; tr < 20; tr++) {
                G s(g.size());
                for (auto &w : s) w = ri(0, m.V - 1);
                if (g < s && !m.has(head(s))) { expect_refused(lm, m, s, "prefix missing"); break; }
              }
            }
          } else if (g[0] > 0) {
            if (k == 0) expect_refused(lm, m, g, "duplicate unigram");
            if (k == 1) expect_refused(lm, m, G(1, g[0] + 2), "unigram skipped");
            if (k == 2) expect_refused(lm, m, G(3, 0), "skips an order");
          }
        }
        if (ri(0, 20) == 0) {   // the unknown word may be updated at any time
          PB q{rprob(), rbow()};
          lm.add_gram(gr(G(1, 0)), q.p, q.b);
          m.t[0][G(1, 0)] = q;
          full.t[0][G(1, 0)] = q;
          if (o > 0) {
            expect_refused(lm, m, x.first, "duplicate after an update of the unknown word");
            G s = x.first;
            int j = ri(0, o);
            if (s[j] > 0) { s[j]--; expect_refused(lm, m, s, "out of order after an update of the unknown word"); }
          }
        }
      }
      if (ri(0, 3) == 0) compare(lm, m, "before finalize");
    }
    lm.finalize();
    compare(lm, full, "after finalize");
    if (full.order > 1) nontrivial();
    if (it % 100 == 7) sample();
  }
  // wide nodes: every fan-out size, so that the binary search takes every shape
  for (int n = 0; n <= (thorough ? 700 : 160); n++) {
    int V = n + 2 + ri(0, 3);
    begin(fmt("fan-out %d", n));
    Model m;
    m.V = V; m.order = 2; m.t.resize(2);
    for (int w = 0; w < V; w++) m.t[0][G(1, w)] = PB{rprob(), rbow()};
    std::set<int> kids;
    while ((int)kids.size() < n) kids.insert(ri(0, V - 1));
    for (int w : kids) { G g; g.push_back(1); g.push_back(w); m.t[1][g] = PB{rprob(), rbow()}; }
    G last; last.push_back(V - 1); last.push_back(0);
    m.t[1][last] = PB{-1, 0};
    TreeGram lm;
    build(lm, m);
    for (int w = 0; w < V; w++) {
      G g; g.push_back(1); g.push_back(w);
      int x = lookup(lm, g);
      if (kids.count(w)) CHECK(x >= V && lm.m_nodes[x].word == w && lm.m_nodes[x].log_prob == m.at(g).p, "[1 %d] not found", w);
      else CHECK(x < 0, "[1 %d] found though never inserted", w);
    }
    nontrivial();
  }
  // a word without a unigram is no prefix
  for (int it = 0; it < (thorough ? 400 : 60); it++) {
    int V = ri(3, 9), u = ri(1, V - 2);
    begin(fmt("V=%d, unigrams up to %d", V, u));
    TreeGram lm;
    Model m;
    m.V = V; m.order = 2; m.t.resize(2);
    for (int w = 1; w < V; w++) lm.add_word(wname(w));
    lm.reserve_nodes(1);
    m.t[0][G(1, 0)] = PB{-99, 0};
    for (int w = 1; w <= u; w++) { lm.add_gram(gr(G(1, w)), -w, -0.5); m.t[0][G(1, w)] = PB{(float)-w, -0.5}; }
    G g(2, ri(0, u));
    lm.add_gram(gr(g), -0.25, 0);
    for (int k = 0; k < 3; k++) {
      G b(2, ri(0, V - 1));
      b[k & 1] = ri(u + 1, V - 1);
      int r = child([&]() -> int { try { lm.add_gram(gr(b), -1, -1); } catch (TreeGram::ReadError &) { return 3; } return 0; });
      CHECK(r == 3 || r == 1, "bigram %s accepted though a word of it has no unigram (%d)", vec(b).c_str(), r);
    }
    nontrivial();
  }
  // missing unigrams are filled in on request
  for (int it = 0; it < (thorough ? 400 : 60); it++) {
    int V = ri(2, 9);
    std::set<int> given;
    for (int w = 1; w < V; w++) if (ri(0, 1)) given.insert(w);
    bool bi = !given.empty() && ri(0, 1);
    begin(fmt("missing unigrams V=%d given=%s bigram=%d", V, vec(std::vector<int>(given.begin(), given.end())).c_str(), bi));
    TreeGram lm;
    for (int w = 1; w < V; w++) lm.add_word(wname(w));
    lm.reserve_nodes(1);
    for (int w : given) lm.add_gram(gr(G(1, w)), -1 - w, -0.5, true);
    for (int w : given) {      // a unigram given twice
      int r = child([&]() -> int {
        alarm(10);
        struct rlimit rl = {(rlim_t)2 << 30, (rlim_t)2 << 30};
        setrlimit(RLIMIT_AS, &rl);
        try { lm.add_gram(gr(G(1, w)), -1, -1, true); } catch (TreeGram::ReadError &) { return 3; } catch (std::bad_alloc &) { return 7; }
        return 0;
      });
      CHECK(r == 3 || r == 1, "unigram %d given twice with missing unigrams filled in: not refused (%d)", w, r);
      if (ri(0, 1)) break;
    }
    if (bi) lm.add_gram(gr(G(2, *given.begin())), -0.25, 0, true);
    lm.finalize(true);
    for (int w = 1; w < V; w++) {
      int n = lookup(lm, G(1, w));
      CHECK(n == w && n < (int)lm.m_nodes.size() && lm.m_nodes[n].word == w, "unigram %d", w);
      if (given.count(w)) CHECK(lm.m_nodes[n].log_prob == -1 - w && lm.m_nodes[n].back_off == -0.5f, "unigram %d", w);
      else CHECK(lm.m_nodes[n].log_prob == (float)MINLOGPROB && lm.m_nodes[n].back_off == 0, "unigram %d not the floor", w);
    }
    if (bi) { int n = lookup(lm, G(2, *given.begin())); CHECK(n >= V && lm.m_nodes[n].log_prob == -0.25f, "bigram"); }
    CHECK(lm.gram_count(1) == V, "gram_count(1)=%d", lm.gram_count(1));
  }
  return done();
}
