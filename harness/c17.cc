// C17: pruning single n-grams, count cutoffs and whole-model pruning.
#include "kn.hh"
static void clean(Snap &s) {
  for (auto &m : s.c) for (auto i = m.begin(); i != m.end();) if (!i->second) m.erase(i++); else ++i;
  for (auto &m : s.b) for (auto i = m.begin(); i != m.end();) if (i->second.zero()) m.erase(i++); else ++i;
  while (s.c.size() > 1 && s.c.back().empty()) s.c.pop_back();
  while (s.b.size() > 1 && s.b.back().empty()) s.b.pop_back();
}
static int kl(bool three, long n) { return three ? (int)std::min(2L, n - 1) : 0; }
// the effect of pruning one n-gram
static void prune(Snap &s, const G &g, bool three, bool recorrect) {
  int o = g.size(); long n = s.c[o][g]; s.c[o].erase(g);
  St &c = s.b[o][hd(g)];
  c.nz[kl(three, n)]--;
  c.prune += n;
  if (c.prune == c.den) c.den = c.prune = 0;        // last extension: the context is emptied
  if (!recorrect || n == 1) return;
  G l = tl(g);
  if (!s.c[o - 1].count(l) || !s.c[o - 1][l]) return;
  long &m = s.c[o - 1][l]; St &d = s.b[o - 1][hd(l)];
  d.nz[kl(three, m)]--; m += n - 1; d.den += n - 1; d.nz[kl(three, m)]++;
}
// context bookkeeping consistent with the counts
static std::string consistent(const Snap &s, bool three) {
  Snap e; e.c = s.c; ctxstats(e, three);
  for (size_t o = 1; o < std::max(s.b.size(), e.b.size()); o++) {
    std::set<G> keys;
    if (o < s.b.size()) for (auto &x : s.b[o]) keys.insert(x.first);
    if (o < e.b.size()) for (auto &x : e.b[o]) keys.insert(x.first);
    for (auto &k : keys) {
      St a = o < s.b.size() && s.b[o].count(k) ? s.b[o].find(k)->second : St(), b = o < e.b.size() && e.b[o].count(k) ? e.b[o].find(k)->second : St();
      if (a.den != b.den + a.prune) return fmt("context %s of order %d: total %ld is not counts %ld + pruned %ld", vec(k).c_str(), (int)o, a.den, b.den, a.prune);
      for (int i = 0; i < 3; i++) if (a.nz[i] != b.nz[i]) return fmt("context %s of order %d: class %d has %ld n-grams, recorded %ld", vec(k).c_str(), (int)o, i, b.nz[i], a.nz[i]);
      if (a.prune < 0 || (b.den == 0 && !a.zero())) return fmt("context %s of order %d without extensions: %s", vec(k).c_str(), (int)o, a.str().c_str());
    }
  }
  return "";
}
template <class X> static void single(const Text &t, int order, bool start, bool abs) {
  std::unique_ptr<typename X::KN> kn(train<X>(t, order, abs, true));
  kn->init_disc(0.6);
  Snap cur = snap<X>(kn->moc);
  std::string log;
  for (int k = 0; k < 40; k++) {
    std::vector<G> all;
    for (size_t o = 2; o < cur.c.size(); o++) for (auto &x : cur.c[o]) all.push_back(x.first);
    if (all.empty()) break;
    G g = all[ri(0, all.size() - 1)];
    if (ri(0, 1)) for (auto &x : all) if (cur.c[x.size()][x] >= 2 && ri(0, 5) == 0) { g = x; break; }
    bool rec = ri(0, 2), undo = ri(0, 3) == 0;
    long n = cur.c[g.size()][g];
    log += " " + vec(g) + fmt(":%ld%s%s", n, rec ? "r" : "", undo ? "u" : "");
    begin(fmt("pruning one by one: %s order=%d start=%d text: %s prunes:%s", X::three ? "3 classes" : "1 class", order, start, t.s.substr(0, 900).c_str(), log.c_str()));
    nontrivial();
    Snap want = cur; prune(want, g, X::three, rec); clean(want);
    kn->moc->ResetCaches();
    std::vector<int> v(g);
    kn->prune_gram(v, (int)n, rec, (typename X::BO *)NULL);
    std::string d = sdiff(snap<X>(kn->moc), want);
    CHECK(d == "", "after pruning %s (count %ld, correction %d): %s", vec(g).c_str(), n, rec, d.c_str());
    if (undo) {
      kn->moc->UndoCached();
      d = sdiff(snap<X>(kn->moc), cur);
      CHECK(d == "", "after taking back the pruning of %s: %s", vec(g).c_str(), d.c_str());
    } else cur = want;
  }
}
template <class X> static void whole(const Text &t, int order, bool start, bool abs) {
  std::unique_ptr<typename X::KN> kn(train<X>(t, order, abs, true));
  kn->init_disc(0.6);
  Snap ref = snap<X>(kn->moc);
  if (ri(0, 1)) kn->cutoffs.assign(1, 0); 
  for (int i = ri(0, 4); i > 0; i--) kn->cutoffs.push_back(ri(0, 3));
  kn->discard_cutoffs = ri(0, 1);
  kn->discard_ngrams_with_unk = ri(0, 3) == 0;
  bool rec = ri(0, 3);
  int mode = ri(0, 3);
  float tr = mode == 0 ? -1e30f : mode == 1 ? 0.f : (float)(rd() * 3);
  bool real = ri(0, 3) == 0;
  begin(fmt("pruning a model: %s order=%d start=%d absolute=%d cutoffs=%s discard=%d unk=%d correction=%d threshold=%g real=%d text: %s", X::three ? "3 classes" : "1 class", order, start, abs, vec(kn->cutoffs).c_str(), kn->discard_cutoffs, kn->discard_ngrams_with_unk, rec, tr, real, t.s.substr(0, 1500).c_str()));
  sample();
  Storage_t<int, int> rc;
  if (real) { FILE *f = fopen("kn.txt", "r"); rc.read(f, kn->vocab); fclose(f); if (start) rc.clear_lm_history = kn->vocab.word_index("<s>"); }
  auto cut = [&](int o) { return kn->cutoffs.empty() ? 0 : o > (int)kn->cutoffs.size() ? kn->cutoffs.back() : kn->cutoffs[o - 1]; };
  for (int o = 1; o <= order + 1; o++) CHECK(kn->cutoff(o) == cut(o), "cutoff of order %d", o);
  kn->prune_model(tr, rec, real ? &rc : NULL);
  bool rk = rec && !abs;
  Snap got = snap<X>(kn->moc);
  std::string d = consistent(got, X::three);
  CHECK(d == "", "%s", d.c_str());
  if (mode == 0) {                       // only the cutoffs and the unknown-word filter prune
    nontrivial();
    for (int o = (int)ref.c.size() - 1; o >= 2; o--) {
      Cnt old = ref.c[o];
      for (auto &x : old) {
        bool low = x.second <= cut(o), unk = kn->discard_ngrams_with_unk && std::find(x.first.begin(), x.first.end(), 0) != x.first.end();
        if (low) prune(ref, x.first, X::three, rk && !kn->discard_cutoffs);
        else if (unk) prune(ref, x.first, X::three, rk);
      }
    }
    clean(ref);
    d = sdiff(got, ref);
    CHECK(d == "", "%s", d.c_str());
  } else
    for (size_t o = 2; o < got.c.size(); o++)
      for (auto &x : got.c[o]) {
        CHECK(x.second > cut(o), "%s with count %ld survives cutoff %d", vec(x.first).c_str(), x.second, cut(o));
        CHECK(ref.c[o].count(x.first), "%s appeared", vec(x.first).c_str());
        CHECK(!kn->discard_ngrams_with_unk || std::find(x.first.begin(), x.first.end(), 0) == x.first.end(), "%s holds the unknown word", vec(x.first).c_str());
      }
  for (size_t o = 2; o < (size_t)kn->moc->m_counts.size(); o++)
    CHECK(kn->moc->order_size(o) == (indextype)(o < got.c.size() ? got.c[o].size() : 0), "order %d keeps %ld entries for %d n-grams", (int)o, (long)kn->moc->order_size(o), (int)(o < got.c.size() ? got.c[o].size() : 0));
}
int main() {
  start();
  int N = thorough ? 2000 : 250;
  for (int k = 0; k < N; k++) {
    bool st = ri(0, 1), ab = ri(0, 4) == 0;
    Text t = rtext(ri(3, 9), ri(2, 130), st, ri(3, 30));
    int order = ri(2, 4);
    if (ri(0, 1)) { single<One>(t, order, st, ab); whole<One>(t, order, st, ab); }
    else { single<Three>(t, order, st, ab); whole<Three>(t, order, st, ab); }
  }
  return done();
}
