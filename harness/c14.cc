// C14: counting a text.  Random texts against the windows enumerated directly.
#include "h.hh"
#include "model.hh"
#define private public
#define protected public
#include "InterKn.hh"
#include "NgramCounts.hh"
#undef private
#undef protected
using namespace h;
typedef std::map<G, long> Cnt;
struct Txt { std::vector<std::string> w; std::string s; };
static Txt rtext(int n, int V, const char *start, int pstart) {
  Txt t;
  for (int i = 0; i < n; i++) {
    std::string x = start && ri(0, 99) < pstart ? start : ri(0, 30) == 0 ? "<UNK>" : wname(ri(0, V - 1));
    t.w.push_back(x);
    t.s += x + (ri(0, 7) ? " " : ri(0, 1) ? "\n" : "\t \n ");
  }
  return t;
}
static FILE *mem(const std::string &s) { FILE *f = tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
// expected: index sequence -> counts of the windows ending at each position
static Cnt windows(const std::vector<int> &ix, int order, int start) {
  Cnt c; size_t s = 0;
  for (size_t i = 0; i < ix.size(); i++) {
    if (start >= 0 && ix[i] == start) s = i;
    size_t b = i + 1 >= (size_t)order ? i + 1 - order : 0;
    if (b < s) b = s;
    c[G(ix.begin() + b, ix.begin() + i + 1)]++;
  }
  return c;
}
template <class KT, class CT, class MOC> static Cnt dumpk(MOC &m) {
  Cnt c;
  for (size_t o = 1; o < m.m_counts.size(); o++) {
    std::vector<KT> v(o); CT val; long n = 0;
    m.StepCountsOrder(true, o, &v[0], &val);
    while (m.StepCountsOrder(false, o, &v[0], &val)) { n++; if (val) { G g(v.begin(), v.end()); CHECK(!c.count(g), "n-gram %s stored twice", vec(g).c_str()); c[g] = (long)val; } }
    CHECK(n == (long)m.order_size(o), "order %d has %ld entries, size says %ld", (int)o, n, (long)m.order_size(o));
  }
  return c;
}
static std::string diff(const Cnt &a, const Cnt &b) {
  for (auto &x : b) { auto i = a.find(x.first); long g = i == a.end() ? 0 : i->second; if (g != x.second) return vec(x.first) + fmt(": counted %ld, occurs %ld", g, x.second); }
  for (auto &x : a) if (!b.count(x.first)) return vec(x.first) + fmt(": counted %ld, occurs 0", x.second);
  return "";
}
template <class KT, class CT, class MOC> static void one(int V, int nt, int order, bool grow, bool start, int known) {
  Txt t = rtext(nt, V, start ? "<s>" : NULL, ri(3, 30));
  Vocabulary voc;
  if (!grow) { if (start) voc.add_word("<s>"); for (int i = 0; i < known; i++) voc.add_word(wname(i)); }
  begin(fmt("V=%d tokens=%d order=%d grow=%d start=%d known=%d text: %s", V, nt, order, grow, start, known, t.s.substr(0, 1500).c_str()));
  sample();
  MOC m; m.hashsize = ri(0, 2) ? 0 : ri(1, 40);
  FILE *f = mem(t.s);
  long r = m.InitializeCountsFromText(f, &voc, grow, order, start ? "<s>" : "");
  fclose(f);
  CHECK(r == nt, "read %ld of %d words", r, nt);
  // independent indexing
  std::map<std::string, int> id; id["<UNK>"] = 0;
  std::vector<int> ix;
  if (start) id["<s>"] = 1;
  if (!grow) for (int i = 0; i < known; i++) { int k = id.size(); id.insert(std::make_pair(wname(i), k)); }
  for (auto &w : t.w) {
    if (!id.count(w) && grow) { int k = id.size(); id[w] = k; }
    ix.push_back(id.count(w) ? id[w] : 0);
  }
  for (auto &x : id) CHECK(voc.word_index(x.first) == x.second, "word %s has index %d, expected %d", x.first.c_str(), voc.word_index(x.first), x.second);
  Cnt e = windows(ix, order, start ? 1 : -1);
  if (e.size() > 3) nontrivial();
  std::string d = diff(dumpk<KT, CT>(m), e);
  CHECK(d == "", "text: %s", d.c_str());
  for (auto &x : e) { std::vector<KT> k(x.first.begin(), x.first.end()); CHECK(m.GetCount(k) == x.second, "GetCount %s", vec(x.first).c_str()); }
  // the in-memory copy gives the same
  Storage_t<KT, CT> st;
  f = mem(t.s); st.read(f, voc); fclose(f);
  CHECK(st.size() == ix.size(), "storage holds %d of %d words", (int)st.size(), nt);
  for (size_t i = 0; i < ix.size(); i++) CHECK((int)st.data(i) == ix[i], "storage word %d is %d, expected %d", (int)i, (int)st.data(i), ix[i]);
  MOC m2; m2.vocabsize = voc.num_words();
  r = m2.InitializeCountsFromStorage(&st, order, start ? voc.word_index("<s>") : -1);
  CHECK(r == nt, "storage: %ld words", r);
  d = diff(dumpk<KT, CT>(m2), e);
  CHECK(d == "", "storage: %s", d.c_str());
  // fixed-order counts (no sentence boundaries)
  Cnt full;
  for (size_t i = order - 1; i < ix.size(); i++) full[G(ix.begin() + i + 1 - order, ix.begin() + i + 1)]++;
  for (int way = 0; way < 2; way++) {
    NgramCounts_t<int, CT> nc(order, 0, ri(100, 5000));
    Vocabulary v2; if (start) v2.add_word("<s>"); if (!grow) for (int i = 0; i < known; i++) v2.add_word(wname(i));
    nc.use_vocabulary(way ? &voc : &v2);
    long n;
    if (way) { Storage_t<int, CT> s2; f = mem(t.s); s2.read(f, voc); fclose(f); n = nc.count(&s2); }
    else { f = mem(t.s); n = nc.count(f, grow); fclose(f); }
    CHECK(n == (long)(ix.size() >= (size_t)order ? ix.size() - order + 1 : 0), "fixed order: %ld n-grams", n);
    Cnt got; std::vector<int> v(order); CT val;
    nc.counts->stepthrough(true, &v[0], &val);
    while (nc.counts->stepthrough(false, &v[0], &val)) if (val) got[v] += (long)val;
    d = diff(got, full);
    CHECK(d == "", "fixed order (%s): %s", way ? "storage" : "text", d.c_str());
  }
}
// restricting the vocabulary afterwards
static void restricted(int V, int nt, int order) {
  Txt t = rtext(nt, V, NULL, 0);
  float ndrop = ri(0, 3) ? ri(0, 6) : ri(0, 60); int nfirst = ri(0, 2) ? 0 : ri(1, V + 2);
  begin(fmt("vocabulary restricted: ndrop=%g nfirst=%d order=%d text: %s", ndrop, nfirst, order, t.s.substr(0, 1500).c_str()));
  NgramCounts_t<int, int> nc(order, 0, ri(1, 300));
  FILE *f = mem(t.s); nc.count(f, true); fclose(f);
  std::map<std::vector<std::string>, long> before; std::map<std::string, long> wc; std::set<std::string> old;
  for (int i = 0; i < nc.vocab->num_words(); i++) old.insert(nc.vocab->word(i));
  for (size_t i = 0; i + order <= t.w.size(); i++) {
    std::vector<std::string> g(t.w.begin() + i, t.w.begin() + i + order); before[g]++;
    for (auto &w : g) wc[w]++;
  }
  bool nothing = nc.vocab->num_words() < (nfirst ? nfirst : INT_MAX) && ndrop <= 0;
  nc.shrink(ndrop, nfirst);
  Vocabulary *v = nc.vocab;
  if (nothing) CHECK(v->num_words() == (int)old.size(), "words dropped though none had to be");
  CHECK(v->num_words() >= 1 && v->word(0) == "<UNK>", "no unknown word");
  std::set<std::string> kept; long least = LONG_MAX;
  for (int i = 1; i < v->num_words(); i++) {
    CHECK(old.count(v->word(i)) && kept.insert(v->word(i)).second && v->word_index(v->word(i)) == i, "word %d: %s", i, v->word(i).c_str());
    long c = wc[v->word(i)];
    if (!nothing) CHECK(c > ndrop && c <= least, "word %s seen %ld times kept behind %ld", v->word(i).c_str(), c, least);
    least = c;
  }
  if (!nothing) {
    CHECK(nfirst == 0 || (int)kept.size() <= nfirst, "%d words kept", (int)kept.size());
    for (auto &x : old) if (x != "<UNK>" && !kept.count(x)) {
      CHECK(wc[x] <= ndrop || (nfirst && (int)kept.size() == nfirst && wc[x] <= least), "word %s seen %ld times dropped", x.c_str(), wc[x]);
      CHECK(v->word_index(x) == 0, "dropped word %s is still known", x.c_str());
    }
  }
  Cnt want, got;
  for (auto &g : before) { G k; for (auto &w : g.first) k.push_back(v->word_index(w)); want[k] += g.second; }
  std::vector<int> k(order); int val;
  nc.counts->stepthrough(true, &k[0], &val);
  while (nc.counts->stepthrough(false, &k[0], &val)) if (val) got[k] += val;
  std::string d = diff(got, want);
  CHECK(d == "", "after restricting: %s", d.c_str());
  if (before.size() > want.size()) nontrivial();
}
int main() {
  start();
  for (int k = 0; k < 300; k++) restricted(ri(1, 10), ri(0, 5) ? ri(1, 80) : ri(0, 4), ri(1, 4));
  int N = thorough ? 3000 : 400;
  for (int k = 0; k < N; k++) {
    int V = ri(1, 12), order = ri(1, 5), nt = ri(0, 5) ? ri(1, 120) : ri(0, 6);
    bool grow = ri(0, 1), st = ri(0, 2);
    int known = ri(0, V);
    switch (ri(0, 2)) {
    case 0: one<int, int, MultiOrderCounts_1nzer<int, int>>(V, nt, order, grow, st, known); break;
    case 1: one<int, int, MultiOrderCounts_3nzer<int, int>>(V, nt, order, grow, st, known); break;
    default: one<unsigned short, int, MultiOrderCounts_1nzer<unsigned short, int>>(V, nt, order, grow, st, known);
    }
  }
  // large enough to grow the tables
  one<int, int, MultiOrderCounts_1nzer<int, int>>(3000, thorough ? 200000 : 30000, 3, true, true, 0);
  // a start symbol outside the vocabulary is refused
  begin("start symbol missing from the vocabulary");
  int r = child([] { Vocabulary v; v.add_word("a"); MultiOrderCounts_1nzer<int, int> m; FILE *f = mem("a b a"); m.InitializeCountsFromText(f, &v, false, 2, "<s>"); return 0; });
  CHECK(r != 0 && r < 1000, "accepted (%d)", r);
  return done();
}
