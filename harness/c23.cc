// C23: count files of trained, grown and pruned models read back.
#include "kn.hh"
#define private public
#define protected public
#undef private
#undef protected
static std::string content(FILE *f) { rewind(f); std::string s; int c; while ((c = fgetc(f)) != EOF) s += (char)c; return s; }
template <class X> static void trip(typename X::MOC *m, const char *when) {
  Snap s = snap<X>(m);
  FILE *f = tmpfile(); m->WriteCounts(f); fflush(f);
  std::string txt = content(f);
  rewind(f);
  typename X::MOC r; r.vocabsize = 3; r.hashsize = ri(0, 2) ? 0 : ri(1, 50);
  r.ReadCounts(f); fclose(f);
  Snap g = snap<X>(&r);
  std::string d = sdiff(g, s);
  CHECK(d == "", "%s: read back: %s; file: %s", when, d.c_str(), txt.substr(0, 1500).c_str());
  CHECK(r.vocabsize == m->vocabsize, "%s: vocabulary size %d, was %d", when, r.vocabsize, m->vocabsize);
  // a second trip gives the same file up to the order of its lines
  f = tmpfile(); r.WriteCounts(f); std::string t2 = content(f); fclose(f);
  std::multiset<std::string> a, b; std::istringstream i1(txt), i2(t2); std::string l;
  while (std::getline(i1, l)) if (l.size() && l[0] != '\\') a.insert(l);
  while (std::getline(i2, l)) if (l.size() && l[0] != '\\') b.insert(l);
  CHECK(a == b, "%s: the file written after reading differs", when);
}
template <class X> static void one(const Text &t, int order, bool start, bool abs) {
  begin(fmt("%s order=%d start=%d absolute=%d text: %s", X::three ? "3 classes" : "1 class", order, start, abs, t.s.substr(0, 1500).c_str()));
  sample(); nontrivial();
  std::unique_ptr<typename X::KN> kn(train<X>(t, order, abs, true));
  typename X::KN *k = kn.get(); typename X::MOC *m = static_cast<typename X::MOC *>(k->moc);
  k->init_disc(0.6);
  trip<X>(m, "trained");
  k->discard_cutoffs = false; k->discard_ngrams_with_unk = false;
  if (ri(0, 1)) k->cutoffs.assign(ri(1, 3), ri(0, 2));
  k->prune_model((float)(rd() - 0.2), ri(0, 3), NULL);
  trip<X>(m, "pruned");
  if (ri(0, 1)) { k->add_zeroprob_grams(); trip<X>(m, "zero-probability n-grams added"); }
  // a model built from the count file has the same tables (read_counts = 1)
  { FILE *f = fopen("m.cnt", "w"); k->write_counts(f); fclose(f); f = fopen("m.voc", "w"); k->vocab.write(f); fclose(f); }
  Snap s = snap<X>(m);
  typename X::KN k2(abs, "m.cnt", "m.voc", "", 1, k->m_order, 0, 9999999, NULL, "", start ? "<s>" : "", 0);
  std::string d = sdiff(snap<X>(k2.moc), s);
  CHECK(d == "", "model built from the count file: %s", d.c_str());
  k2.init_disc(0.6);
  k->init_disc(0.6);
  for (int i = 0; i < 30; i++) {
    G g(ri(1, order + 1)); for (auto &w : g) w = ri(0, t.V - 1);
    double p = k->tableprob(g), q = k2.tableprob(g);
    CHECK(p == q || p != p, "probability of %s is %.9g, was %.9g", vec(g).c_str(), q, p);
  }
}
// arbitrary tables, large and negative numbers
static void nzs(MultiOrderCounts_counter_types::bo_c<int> &b) { b.nzer = ri(0, 1000); }
static void nzs(MultiOrderCounts_counter_types::bo_3c<int> &b) { for (int i = 0; i < 3; i++) b.nzer[i] = ri(0, 1000); }
template <class X> static void arbitrary() {
  typename X::MOC m; m.vocabsize = ri(1, 70000);
  int order = ri(1, 6), n = ri(1, 60);
  std::string log;
  for (int o = 1; o <= order; o++)
    for (int k = 0; k < n; k++) {
      G v(o); for (auto &w : v) w = ri(0, 3) ? ri(0, 5) : ri(0, 2147483646);
      int val = ri(0, 9) ? ri(1, 9) : ri(1, 2147483646);
      m.SetCount(v, val); log += " " + vec(v) + fmt("=%d", val);
      typename X::BO b; memset(&b, 0, sizeof b); b.den = ri(1, 2000000000); b.prune_den = ri(0, 1) ? 0 : ri(0, b.den); if (ri(0, 7) == 0) b.den = -b.den; nzs(b);
      G c = hd(v);
      m.SetBackoff(c, &b);
    }
  begin(fmt("%s tables: %s", X::three ? "3 classes" : "1 class", log.substr(0, 1500).c_str()));
  trip<X>(&m, "arbitrary tables");
}
// counts of one order (word form and index form)
static void plain(const Text &t, int order) {
  begin(fmt("fixed-order counts, order=%d text: %s", order, t.s.substr(0, 1500).c_str()));
  NgramCounts_t<int, int> a(order, 0, 1000);
  FILE *f = tmpfile(); fputs(t.s.c_str(), f); rewind(f); a.count(f, true); fclose(f);
  Cnt ca; std::vector<int> v(order); int val;
  for (a.counts->stepthrough(true, &v[0], &val); a.counts->stepthrough(false, &v[0], &val);) ca[v] = val;
  for (int way = 0; way < 4; way++) {
    bool idx = way & 1, sort = way & 2;
    NgramCounts_t<int, int> b(order, 0, 50);
    FILE *o = tmpfile(), *vo = idx ? tmpfile() : NULL;
    a.write(o, vo, sort);
    rewind(o); if (vo) rewind(vo);
    b.read(o, vo);
    Cnt cb;
    for (b.counts->stepthrough(true, &v[0], &val); b.counts->stepthrough(false, &v[0], &val);) {
      G g; for (int w : v) g.push_back(a.vocab->word_index(b.vocab->word(w)));
      CHECK(!cb.count(g), "%s stored twice", vec(g).c_str());
      cb[g] = val;
    }
    CHECK(ca == cb, "fixed-order counts read back differ (%s form, sorted %d)", idx ? "index" : "word", sort);
    fclose(o); if (vo) fclose(vo);
  }
}
// counts of type long, beyond the range of int
static void wide_set(MultiOrderCounts_counter_types::bo_c<long> &b, long (*w)()) { b.den = w(); b.prune_den = w(); b.nzer = w(); }
static void wide_set(MultiOrderCounts_counter_types::bo_3c<long> &b, long (*w)()) { b.den = w(); b.prune_den = w(); for (long &x : b.nzer) x = w(); }
static std::string wide_str(const MultiOrderCounts_counter_types::bo_c<long> &b) { return fmt("den %ld pruned %ld extensions %ld", b.den, b.prune_den, b.nzer); }
static std::string wide_str(const MultiOrderCounts_counter_types::bo_3c<long> &b) { return fmt("den %ld pruned %ld extensions %ld %ld %ld", b.den, b.prune_den, b.nzer[0], b.nzer[1], b.nzer[2]); }
template <class MOC, class BO> static void wide() {
  MOC m, r; m.vocabsize = 9; m.hashsize = ri(1, 50); r.hashsize = ri(1, 50);
  long (*w)() = [] { return ri(0, 1) ? (long)ri(1, 100) : (long)((rnd() >> ri(2, 60)) | 1) * (ri(0, 5) ? 1 : -1); };
  std::map<G, long> c; std::map<G, BO> bo; std::string log;
  BO u; wide_set(u, w); G one(1, 1); m.SetCount(1, &one[0], 1); m.SetBackoff(1, &one[0], &u);
  c[one] = 1;
  for (int i = ri(0, 25); i > 0; i--) {
    G g(ri(1, 4)); for (int &x : g) x = ri(0, 8);
    long v = w(); m.SetCount(g.size(), &g[0], v); c[g] = v; log += vec(g) + fmt(": %ld\n", v);
    if (g.size() > 1 && ri(0, 1)) { BO b; wide_set(b, w); m.SetBackoff(g.size(), &g[0], &b); g.back() = 0; bo[g] = b; log += vec(g) + ": " + wide_str(b) + "\n"; }
  }
  begin("counts of type long:\n" + log); nontrivial();
  FILE *f = tmpfile(); m.WriteCounts(f); rewind(f); r.ReadCounts(f); fclose(f);
  for (auto &x : c) CHECK(r.GetCount(x.first.size(), &x.first[0]) == x.second, "%s comes back as %ld, was %ld", vec(x.first).c_str(), r.GetCount(x.first.size(), &x.first[0]), x.second);
  BO q; r.GetBackoff(1, &one[0], &q);
  CHECK(wide_str(q) == wide_str(u), "unigram statistics %s come back as %s", wide_str(u).c_str(), wide_str(q).c_str());
  for (auto &x : bo) { r.GetBackoff(x.first.size(), &x.first[0], &q); CHECK(wide_str(q) == wide_str(x.second), "context of %s: %s comes back as %s", vec(x.first).c_str(), wide_str(x.second).c_str(), wide_str(q).c_str()); }
}
int main() {
  start();
  for (int k = 0; k < (thorough ? 500 : 60); k++) {
    wide<MultiOrderCounts_1nzer<int, long>, MultiOrderCounts_counter_types::bo_c<long>>();
    wide<MultiOrderCounts_3nzer<int, long>, MultiOrderCounts_counter_types::bo_3c<long>>();
  }
  int N = thorough ? 1500 : 200;
  for (int k = 0; k < N; k++) {
    bool st = ri(0, 1), ab = ri(0, 3) == 0;
    Text t = rtext(ri(3, 9), ri(2, 130), st, ri(3, 30));
    int order = ri(1, 4);
    if (ri(0, 1)) { one<One>(t, order, st, ab); arbitrary<One>(); } else { one<Three>(t, order, st, ab); arbitrary<Three>(); }
    if (k % 4 == 0) plain(t, ri(1, 4));
  }
  return done();
}
