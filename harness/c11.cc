#include "model.hh"
using namespace h;
static std::string dump(TreeGram &lm) {
  FILE *f = fopen("out.bin", "wb");
  lm.write(f, true);
  fclose(f);
  return slurp("out.bin");
}
// 0 = loaded, 1 = refused
static int load(const std::string &s, TreeGram &lm) {
  spit("in.bin", s);
  FILE *f = fopen("in.bin", "rb");
  int r = 0;
  try { lm.read(f, true); } catch (std::exception &) { r = 1; }
  fclose(f);
  return r;
}
static void same(TreeGram &a, TreeGram &b) {
  CHECK(a.get_type() == b.get_type(), "type");
  CHECK(a.order() == b.order(), "order %d, was %d", b.order(), a.order());
  CHECK(a.num_words() == b.num_words(), "%d words, were %d", b.num_words(), a.num_words());
  for (int i = 0; i < a.num_words(); i++) {
    CHECK(a.word(i) == b.word(i), "word %d is '%s', was '%s'", i, b.word(i).c_str(), a.word(i).c_str());
    CHECK(b.word_index(a.word(i)) == i, "index of '%s'", a.word(i).c_str());
  }
  for (int o = 1; o <= a.order(); o++) CHECK(a.gram_count(o) == b.gram_count(o), "gram_count(%d) is %d, was %d", o, b.gram_count(o), a.gram_count(o));
  CHECK(a.m_nodes.size() == b.m_nodes.size(), "%zu nodes, were %zu", b.m_nodes.size(), a.m_nodes.size());
  for (size_t i = 0; i < a.m_nodes.size(); i++)
    CHECK(a.m_nodes[i].word == b.m_nodes[i].word && a.m_nodes[i].log_prob == b.m_nodes[i].log_prob &&
          a.m_nodes[i].back_off == b.m_nodes[i].back_off && a.m_nodes[i].child_index == b.m_nodes[i].child_index, "node %zu differs", i);
}
static std::vector<std::string> names(int V) {
  std::vector<std::string> v = wnames(V);
  for (int i = 3; i < V; i++) {
    int k = ri(0, 7);
    if (k == 0) v[i] = fmt("x%d\xc3\xa4", i);
    if (k == 1) v[i] = fmt("#%d", i);
    if (k == 2) v[i] = fmt("w (%d) ", i);
    if (k == 3) v[i] = std::string(ri(1, 5000), 'q') + fmt("%d", i);
    if (k == 4) v[i] = fmt("\t%d w", i);
  }
  return v;
}
static int random_load(TreeGram &lm, Model &m, bool plain) {
  bool inter = ri(0, 1);
  std::vector<std::string> n = plain ? wnames(m.V) : names(m.V);
  // another unknown word; then the usual name is a word like any other
  if (m.V > 1 && ri(0, 7) == 0) { lm.set_oov("<oov>"); n[ri(1, m.V - 1)] = "<UNK>"; }
  for (int w = 1; w < m.V; w++) lm.add_word(n[w]);
  lm.set_type(inter ? NGram::INTERPOLATED : NGram::BACKOFF);
  lm.reserve_nodes(1);
  for (auto &lv : m.t) for (auto &x : lv) lm.add_gram(gr(x.first), x.second.p, x.second.b);
  lm.finalize();
  return inter;
}
int main() {
  start();
  for (int rep = 0; rep < (thorough ? 8000 : 800); rep++) {
    Model m = rmodel(rep % 3 ? 10 : 30, 4, false, rep % 4 == 0 ? ri(1, 10) : -1);
    // words that look like white space or digits in the node block
    if (rep % 5 == 0) for (auto &x : m.t[0]) { x.second.p = rep % 2 ? 0 : -x.first[0]; }
    TreeGram a, b;
    begin("building");
    bool inter = random_load(a, m, rep % 2);
    cur = m.str() + (inter ? " interpolated" : "");
    if (m.order > 1) nontrivial();
    if (rep < 4) sample();
    std::string s = dump(a);
    if (rep % 4 == 1) {                // read into an object that held another model
      Model q = rmodel(6, 3);
      random_load(b, q, true);
    }
    CHECK(load(s, b) == 0, "the model written was refused");
    same(a, b);
    CHECK(dump(b) == s, "written again, the bytes differ");
    for (auto &g : grams(m.V, m.order + 1, 60)) {
      if (!inter && m.order >= 1) {
        float x = a.log_prob(gr(g)); int xo = a.last_order();
        float y = b.log_prob(gr(g)); int yo = b.last_order();
        CHECK(x == y && xo == yo, "query %s gives %g (order %d), was %g (order %d)", vec(g).c_str(), y, yo, x, xo);
      } else {
        float x = a.log_prob(gr(g)), y = b.log_prob(gr(g));
        CHECK(x == y, "query %s gives %g, was %g", vec(g).c_str(), y, x);
      }
    }
  }
  // ---- models with many words and n-grams
  for (int n : {40000, 70001}) {
    begin(fmt("%d unigrams and as many bigrams", n));
    TreeGram a, b;
    for (int w = 1; w < n; w++) a.add_word(fmt("w%d", w));
    a.set_type(n % 2 ? NGram::INTERPOLATED : NGram::BACKOFF);
    a.reserve_nodes(2 * n);
    for (int w = 0; w < n; w++) a.add_gram(gr({w}), -1.5f - w % 7, -0.25f * (w % 5));
    for (int w = 0; w < n; w++) a.add_gram(gr({w, n - 1 - w}), -0.5f - w % 3, 0);
    a.finalize();
    std::string s = dump(a);
    CHECK(load(s, b) == 0, "the model written was refused");
    same(a, b);
    CHECK(dump(b) == s, "written again, the bytes differ");
  }
  // ---- truncated files: every strict prefix is refused
  for (int rep = 0; rep < (thorough ? 100 : 12); rep++) {
    Model m = rmodel(4, 3, false, ri(10, 90));
    TreeGram a;
    random_load(a, m, true);
    std::string s = dump(a);
    for (size_t k = 0; k < s.size(); k++) {
      begin(fmt("model %s cut after %zu of %zu bytes", m.str().c_str(), k, s.size()));
      TreeGram b;
      CHECK(load(s.substr(0, k), b) == 1, "a truncated file was loaded");
    }
  }
  // ---- inconsistent headers
  for (int rep = 0; rep < (thorough ? 2000 : 200); rep++) {
    Model m = rmodel(6, 3, false, ri(10, 90));
    TreeGram a;
    random_load(a, m, true);
    std::string s = dump(a), type = a.get_type() == NGram::BACKOFF ? "backoff" : "interpolated";
    size_t vpos = s.find(type) + type.size() + 1;
    size_t pos = vpos;
    for (int i = 0; i <= m.V; i++) pos = s.find('\n', pos) + 1;
    std::string head = s.substr(0, pos), rest = s.substr(pos);
    std::istringstream is(rest);
    int ord, nodes;
    is >> ord >> nodes;
    std::vector<int> c(ord);
    for (auto &x : c) is >> x;
    std::string block = rest.substr(rest.size() - a.m_nodes.size() * sizeof(TreeGram::Node));
    auto mk = [&](int o, int n, const std::vector<int> &cc) {
      std::string r = head + fmt("%d %d\n", o, n);
      for (int x : cc) r += fmt("%d\n", x);
      return r + block;
    };
    auto refuse = [&](const std::string &t, const char *what) {
      begin(fmt("model %s with %s", m.str().c_str(), what));
      TreeGram b;
      CHECK(load(t, b) == 1, "a file with %s was loaded", what);
    };
    CHECK(mk(ord, nodes, c) == s, "header layout");
    int sum = 0;
    for (int x : c) sum += x;
    for (int k = 0; k < ord; k++)
      for (int d = -3; d <= 3; d++) {
        std::vector<int> q = c;
        q[k] += d;
        if (sum + d == nodes || sum + d + 1 == nodes) continue;
        refuse(mk(ord, nodes, q), "order counts that do not add up to the number of nodes");
      }
    for (int d : {2, 5, 1000}) refuse(mk(ord, nodes + d, c), "more nodes than the order counts say");
    refuse(mk(ord, sum - 1, c), "fewer nodes than the order counts say");
    refuse(mk(ord, 0, std::vector<int>(ord, 0)), "no nodes");
    refuse(s.substr(0, s.find(type)) + "Backoff\n" + s.substr(vpos), "an unknown type");
    refuse(s.substr(0, s.find(type)) + "\n" + s.substr(vpos), "an empty type");
    size_t vend = s.find('\n', vpos) + 1;
    refuse(s.substr(0, vpos) + "0\n" + s.substr(vend), "no words");
    refuse(s.substr(0, vpos) + "-3\n" + s.substr(vend), "a negative number of words");
    refuse(s.substr(0, vpos) + "words\n" + s.substr(vend), "a number of words that is no number");
    refuse(s.substr(0, vpos) + fmt("%d\n", m.V - 1) + s.substr(vend), "fewer words announced than listed");
    refuse(s.substr(0, vpos) + fmt("%d\n", m.V + 1) + s.substr(vend), "more words announced than listed");
    refuse(s.substr(0, s.size() - 16), "a node missing");
    refuse("", "nothing in it");
  }
  return done();
}
