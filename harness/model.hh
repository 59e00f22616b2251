// Reference n-gram model (plain maps) and random generators for tree models.
#ifndef VERIF_MODEL_HH
#define VERIF_MODEL_HH
#include "h.hh"
#define private public
#define protected public
#include "TreeGram.hh"
#include "def.hh"
#undef private
#undef protected
typedef std::vector<int> G;
struct PB { float p, b; };
struct Model {
  int V, order;
  std::vector<std::map<G, PB>> t;   // t[n]: the (n+1)-grams, sorted
  bool has(const G &g) const { return g.size() >= 1 && g.size() <= t.size() && t[g.size() - 1].count(g); }
  PB at(const G &g) const { return t[g.size() - 1].find(g)->second; }
  std::string str() const {
    std::ostringstream o;
    o << "V=" << V << " order=" << order;
    for (size_t n = 0; n < t.size(); n++)
      for (auto &x : t[n]) o << " " << vec(x.first) << ":" << x.second.p << "/" << x.second.b;
    return o.str();
  }
  static std::string vec(const G &g) { return h::vec(g); }
};
inline G tail(const G &g) { return G(g.begin() + 1, g.end()); }
inline G head(const G &g) { return G(g.begin(), g.end() - 1); }
inline float rprob() {
  int k = h::ri(0, 9);
  if (k == 0) return 0;
  if (k == 1) return -99;
  return -4.0f * (float)h::rd();
}
inline float rbow() {
  int k = h::ri(0, 9);
  if (k == 0) return 0;
  return (float)(h::rd() * 2 - 1.7);
}
// random prefix-closed model; suffix_closed: also closed under dropping the first word
inline Model rmodel(int maxV, int maxO, bool suffix_closed = false, int density = -1) {
  Model m;
  m.V = h::ri(2, maxV);
  m.order = h::ri(1, maxO);
  if (density < 0) density = h::ri(5, 95);
  m.t.resize(m.order);
  for (int w = 0; w < m.V; w++) m.t[0][G(1, w)] = PB{rprob(), rbow()};
  for (int n = 1; n < m.order; n++) {
    for (auto &x : m.t[n - 1])
      for (int w = 0; w < m.V; w++) {
        if (m.t[n].size() > 60) break;
        if (h::ri(0, 99) >= density) continue;
        G g = x.first;
        g.push_back(w);
        if (suffix_closed && !m.has(tail(g))) continue;
        m.t[n][g] = PB{rprob(), rbow()};
      }
    if (m.t[n].empty()) { m.t.resize(n); m.order = n; break; }
  }
  return m;
}
inline std::string wname(int i) {
  if (i == 0) return "<UNK>";
  if (i == 1) return "<s>";
  if (i == 2) return "</s>";
  return h::fmt("w%d", i);
}
inline Gram gr(const G &g) { return Gram(g.begin(), g.end()); }
inline void build(TreeGram &lm, const Model &m, bool interpolated = false) {
  for (int w = 1; w < m.V; w++) lm.add_word(wname(w));
  lm.set_type(interpolated ? NGram::INTERPOLATED : NGram::BACKOFF);
  lm.reserve_nodes(1);
  for (auto &lv : m.t)
    for (auto &x : lv) lm.add_gram(gr(x.first), x.second.p, x.second.b);
  lm.finalize();
}
// ---- definitions the code is compared with
inline double ref_bo(const Model &m, const G &g) {
  if (m.has(g)) return m.at(g).p;
  if (g.size() == 1) return -1e30;
  G c = head(g);
  return (m.has(c) ? m.at(c).b : 0.0) + ref_bo(m, tail(g));
}
inline int ref_order(const Model &m, G g) {
  while (!g.empty() && !m.has(g)) g = tail(g);
  return g.size();
}
inline double ref_ip(const Model &m, const G &g) {     // probability (not log)
  if (g.empty()) return 0;
  if ((int)g.size() > m.order) return ref_ip(m, tail(g));
  double own = m.has(g) ? pow(10, m.at(g).p) : 0;
  G c = head(g);
  double w = c.empty() ? 1 : (m.has(c) ? pow(10, m.at(c).b) : 1);
  return own + w * ref_ip(m, tail(g));
}
// every n-gram over V words up to length n (or a random sample when too many)
inline std::vector<G> grams(int V, int n, int cap) {
  std::vector<G> out;
  double total = 0, p = 1;
  for (int i = 0; i < n; i++) { p *= V; total += p; }
  if (total <= cap) {
    std::vector<G> lev(1);
    for (int i = 0; i < n; i++) {
      std::vector<G> nx;
      for (auto &g : lev)
        for (int w = 0; w < V; w++) { G q = g; q.push_back(w); nx.push_back(q); out.push_back(q); }
      lev = nx;
    }
  } else
    for (int i = 0; i < cap; i++) {
      G g(h::ri(1, n));
      for (auto &w : g) w = h::ri(0, V - 1);
      out.push_back(g);
    }
  return out;
}
// node of an n-gram by walking find_child; -1 if absent
inline int lookup(TreeGram &lm, const G &g) {
  int p = -1;
  for (int w : g) {
    p = lm.find_child(w, p);
    if (p < 0) return -1;
  }
  return p;
}
// ARPA text of a model; names[i] is the word with index i
inline std::string arpa(const Model &m, const std::vector<std::string> &names, bool interpolated = false, bool shuffle = false, bool allbows = true) {
  std::string o;
  if (interpolated) o += "\\interpolated\n";
  o += "\\data\\\n";
  for (int n = 0; n < m.order; n++) o += h::fmt("ngram %d=%d\n", n + 1, (int)m.t[n].size());
  for (int n = 0; n < m.order; n++) {
    o += h::fmt("\n\\%d-grams:\n", n + 1);
    std::vector<std::string> lines;
    for (auto &x : m.t[n]) {
      std::string l = h::fmt("%.9g", x.second.p);
      for (int w : x.first) l += " " + names[w];
      if (n + 1 < m.order && (allbows || x.second.b != 0)) l += h::fmt(" %.9g", x.second.b);
      lines.push_back(l);
    }
    if (shuffle) for (int i = (int)lines.size() - 1; i > 0; i--) std::swap(lines[i], lines[h::ri(0, i)]);
    for (auto &l : lines) o += l + "\n";
  }
  return o + "\n\\end\\\n";
}
inline std::vector<std::string> wnames(int V) {
  std::vector<std::string> v;
  for (int i = 0; i < V; i++) v.push_back(wname(i));
  return v;
}
inline void spit(const std::string &f, const std::string &s) {
  FILE *o = fopen(f.c_str(), "wb");
  fwrite(s.data(), 1, s.size(), o);
  fclose(o);
}
inline std::string slurp(const std::string &f) {
  std::ifstream i(f.c_str(), std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
#endif
