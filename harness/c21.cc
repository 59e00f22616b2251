// C21: fast search lists of the training data against direct enumeration.
#include "kn.hh"
typedef std::map<int, long> Cont;
static std::map<G, Cont> conts(const Text &t, int order, bool boundary) {
  std::map<G, Cont> r; size_t s = 0;
  for (size_t i = 0; i < t.ix.size(); i++) {
    if (boundary && t.ix[i] == 1) s = i;
    if (i + 1 < s + order) continue;
    r[G(t.ix.begin() + (i + 1 - order), t.ix.begin() + i)][t.ix[i]]++;
  }
  return r;
}
template <class S> static Cont walk(S &st, const G &h, int limit) {
  std::vector<int> v(h); Cont c; int idx = -5, val = 0;
  st.fast_search_next(&v, &idx, &val);
  CHECK(idx == -1, "starting a search returned %d", idx);
  st.fast_search_next(NULL, &idx, &val);
  int n = 0;
  while (idx >= 0) { CHECK(n++ < limit, "walk does not end"); CHECK(val > 0, "continuation %d with count %d", idx, val); c[idx] += val; st.fast_search_next(NULL, &idx, &val); }
  for (int k = 0; k < 2; k++) { idx = 7; st.fast_search_next(NULL, &idx, &val); CHECK(idx == -1, "search goes on after its end (%d)", idx); }
  return c;
}
static std::string cs(const Cont &c) { std::string s; for (auto &x : c) s += fmt(" %d:%ld", x.first, x.second); return s; }
static void check(Storage_t<int, int> &st, const Text &t, int order, bool boundary, std::set<G> &refs, sikMatrix<int, int> *cur, const char *how) {
  std::map<G, Cont> e = conts(t, order, boundary);
  std::vector<G> rs(refs.begin(), refs.end());
  for (int k = rs.size() - 1; k > 0; k--) std::swap(rs[k], rs[ri(0, k)]);
  for (auto &h : rs) {
    Cont want = e.count(h) ? e[h] : Cont();
    if (cur) for (auto i = want.begin(); i != want.end();) { G g(h); g.push_back(i->first); if (FindEntry(cur->m, (byte *)&g[0], 0) >= 0) want.erase(i++); else ++i; }
    Cont got = walk(st, h, (int)t.ix.size() + 5);
    CHECK(got == want, "%s, order %d: context %s has continuations%s, expected%s", how, order, vec(h).c_str(), cs(got).c_str(), cs(want).c_str());
  }
  // contexts that are not in the model have no lists
  for (int k = 0; k < 10; k++) {
    G h(order - 1); for (auto &w : h) w = ri(0, t.V);
    if (refs.count(h)) continue;
    Cont got = walk(st, h, (int)t.ix.size() + 5);
    CHECK(got.empty(), "%s, order %d: unknown context %s has continuations%s", how, order, vec(h).c_str(), cs(got).c_str());
  }
}
static void one(int V, int nt, bool start) {
  Text t = rtext(V, nt, start, ri(3, 30));
  Storage_t<int, int> st;
  Vocabulary voc; for (int i = 1; i < V; i++) voc.add_word(tword(start, i));
  { FILE *f = tmpfile(); fputs(t.s.c_str(), f); rewind(f); st.read(f, voc); fclose(f); }
  put("st.txt", t.s);
  if (start) st.clear_lm_history = 1;
  int first = ri(2, 5), second = ri(2, 5);
  begin(fmt("V=%d start=%d orders %d then %d text: %s", V, start, first, second, t.s.substr(0, 1500).c_str()));
  sample();
  for (int round = 0; round < 3; round++) {
    int order = round == 0 ? first : round == 1 ? second : ri(2, 5);
    // contexts of the current model: a part of the ones in the text and some others
    sikMatrix<int, int> ref(order - 1, ri(1, 60), 0);
    std::set<G> refs;
    for (auto &x : conts(t, order, false)) if (ri(0, 3)) refs.insert(x.first);
    for (int k = ri(0, 4); k > 0; k--) { G h(order - 1); for (auto &w : h) w = ri(0, V - 1); refs.insert(h); }
    for (auto &h : refs) ref.setvalue(&h[0], ri(1, 9));
    // n-grams that are in the model already
    sikMatrix<int, int> cur(order, 40, 0); bool usecur = ri(0, 2) == 0;
    for (auto &x : conts(t, order, start)) for (auto &y : x.second) if (ri(0, 2) == 0) { G g(x.first); g.push_back(y.first); cur.setvalue(&g[0], 2); }
    if (refs.size() > 3) nontrivial();
    int how = ri(0, 2);
    if (how) { st.initialize_fast_search_lists(order, &ref, usecur ? &cur : NULL); check(st, t, order, start, refs, usecur ? &cur : NULL, "lists"); }
    else { std::string f = "st.txt"; st.init_fsl_file(order, &ref, f, &voc); check(st, t, order, start, refs, NULL, "lists from file"); }
    if (ri(0, 1)) {   // number of occurrences of each stored n-gram
      std::map<G, Cont> e = conts(t, order, start);
      for (int k = ri(0, 4); k > 0; k--) { G h(order); for (auto &w : h) w = ri(0, V - 1); cur.setvalue(&h[0], 1); }
      st.initialize_fast_search_lists_for_pruning(order, &cur);
      CHECK((indextype)st.prune_lists.size() == cur.num_entries(), "prune lists for %d of %d n-grams", (int)st.prune_lists.size(), (int)cur.num_entries());
      for (indextype i = 0; i < cur.num_entries(); i++) {
        G g(cur.Idx2Keyp(i), cur.Idx2Keyp(i) + order);
        long n = 0; auto f = e.find(hd(g)); if (f != e.end() && f->second.count(g.back())) n = f->second[g.back()];
        CHECK(st.prune_lists[i] == n, "%s occurs %ld times, recorded %d", vec(g).c_str(), n, (int)st.prune_lists[i]);
      }
    }
  }
}
int main() {
  start();
  int N = thorough ? 4000 : 500;
  for (int k = 0; k < N; k++) one(ri(3, 10), ri(0, 4) ? ri(5, 120) : ri(0, 6), ri(0, 1));
  return done();
}
