#include "h.hh"
#include "sikMatrix.hh"
using namespace h;
// ---- any sikMatrix against std::map, by bytes of the key
template <class K> std::string kb(const std::vector<K> &k) { return std::string((const char *)&k[0], k.size() * sizeof(K)); }
struct S3 {
  int a, b[2];
  S3 operator+=(const S3 o) { a += o.a; b[0] += o.b[0]; b[1] += o.b[1]; return *this; }
};
template <class V> V mk(int x);
template <> int mk<int>(int x) { return x; }
template <> float mk<float>(int x) { return x * 0.25f; }
template <> double mk<double>(int x) { return x * 0.25; }
template <> S3 mk<S3>(int x) { S3 s = {x, {x * 2, -x}}; return s; }
template <class V> bool same(const V &a, const V &b) { return !memcmp(&a, &b, sizeof(V)); }

// key bases: collisions (few hash slots or equal hash), long common prefixes, negative words
template <class K> std::vector<K> mkkey(int dims, int i, int style) {
  std::vector<K> k(dims, 0);
  for (int d = 0; d < dims; d++) {
    if (style == 0) k[d] = (K)(i >> (d * 2)) & (d == dims - 1 ? ~0 : 3);
    else if (style == 1) k[d] = (K)(d == dims - 1 ? i : 7);
    else if (style == 2) k[d] = (K)(d == 0 ? i * 1009 : -i);
    else k[d] = (K)(d == 0 ? i << 8 : (i & 1) ? -1 : 255);
  }
  return k;
}
template <class K, class V>
void consistent(sikMatrix<K, V> &m, std::map<std::string, V> &ref, const V &def, int dims,
                const std::vector<std::vector<K>> &keys, bool clean) {
  long n = 0;
  for (auto &k : keys) {
    V v = m.getvalue(&k[0]), w;
    m.getvalue(&k[0], &w);
    auto it = ref.find(kb(k));
    V want = it == ref.end() ? def : it->second;
    CHECK(same(v, want) && same(w, want), "value read back differs for key %s", vec(k).c_str());
    if (it != ref.end() && !same(it->second, def)) n++;
  }
  if (clean) CHECK(m.num_entries() == n, "num_entries %d, keys with a non-default value %ld", (int)m.num_entries(), n);
  else CHECK(m.num_entries() >= n, "num_entries %d < %ld", (int)m.num_entries(), n);
}
template <class K, class V>
void run(int dims, int hashs, int defi, int nkeys, int nops, int style, int mode) {
  V def = mk<V>(defi);
  sikMatrix<K, V> m(dims, hashs, def);
  std::map<std::string, V> ref;
  std::vector<std::vector<K>> keys;
  for (int i = 0; i < nkeys; i++) keys.push_back(mkkey<K>(dims, i, style));
  { std::set<std::string> u; for (auto &k : keys) u.insert(kb(k)); if (u.size() != keys.size()) return; }
  std::string log = fmt("sikMatrix K=%d V=%d dims=%d hashs=%d def=%d keys=%d style=%d ops:", (int)sizeof(K), (int)sizeof(V), dims, hashs, defi, nkeys, style);
  begin(log);
  bool clean = true, small = nops < 200;
  int every = small ? 1 : nops / 6;
  for (int o = 0; o < nops; o++) {
    int ki = mode == 1 ? (o < nops / 2 ? o % nkeys : nkeys - 1 - (o - nops / 2) % nkeys) : ri(0, nkeys - 1);
    const std::vector<K> &k = keys[ki];
    std::string b = kb(k);
    if (!ref.count(b)) ref[b] = def;
    int op = ri(0, 11);
    if (mode == 1) op = o < nops / 2 ? 1 : 4;             // fill up, then remove everything
    int x = ri(-2, 3);
    if (mode == 1 && o < nops / 2) x = defi + 1 + o % 5;
    if (op == 11 && ri(0, 30)) op = 1;
    V val = mk<V>(x);
    switch (op) {
    case 0: case 1: m.setvalue(&k[0], val); ref[b] = val; break;
    case 2: m.setvalue(&k[0], &val); ref[b] = val; break;
    case 3: case 4: val = def; m.setvalue(&k[0], &val); ref[b] = def; break;
    case 5: case 6: { V r = m.increment(&k[0], val); ref[b] += val; cur = log + fmt(" inc(%d,%d)", ki, x);
        CHECK(same(r, ref[b]), "increment returned another value, key %s", vec(k).c_str()); break; }
    case 7: { V r = m.increment(&k[0], &val); ref[b] += val; cur = log + fmt(" incp(%d,%d)", ki, x);
        CHECK(same(r, ref[b]), "increment(ptr) returned another value, key %s", vec(k).c_str()); break; }
    case 8: { V r = m.increment_wo_del(&k[0], val); ref[b] += val; clean = false; cur = log + fmt(" incwd(%d,%d)", ki, x);
        CHECK(same(r, ref[b]), "increment_wo_del returned another value, key %s", vec(k).c_str()); break; }
    case 9: { V r = m.getvalue(&k[0]); CHECK(same(r, ref[b]), "value of %s before other operations differs", vec(k).c_str()); break; }
    case 10: RemoveDefaultValues(m.m); clean = true; break;
    case 11: m.clear(); ref.clear(); clean = true; break;
    }
    if (small) { log += fmt(" %d(%d,%d)", op, ki, x); cur = log; }
    if (o % every == 0 || o == nops - 1) {
      consistent(m, ref, def, dims, keys, clean && small);
      if (!small && o == nops - 1) {
        RemoveDefaultValues(m.m);
        consistent(m, ref, def, dims, keys, true);
      }
    }
  }
  if (nkeys > 3) nontrivial();
}
// ---- the plain C interface
void crun(int nops) {
  int d = ri(1, 3), hs = ri(0, 3) ? ri(0, 6) : 1010, nk = ri(1, 12);
  int di = ri(-1, 1);
  struct matrix *I = CreateMatrixI(d, hs, di), *F = CreateMatrixF(d, hs, di * 0.5f), *D = CreateMatrixD(d, hs, di * 0.5);
  std::map<std::vector<int>, int> ri_;
  std::map<std::vector<int>, float> rf;
  std::map<std::vector<int>, double> rdd;
  std::string log = fmt("C interface d=%d hashs=%d def=%d:", d, hs, di);
  begin(log);
  std::vector<std::vector<int>> keys;
  for (int i = 0; i < nk; i++) keys.push_back(mkkey<int>(d, i, ri(0, 3) ? 1 : 2));
  for (auto &k : keys) { ri_[k] = di; rf[k] = di * 0.5f; rdd[k] = di * 0.5; }
  for (int o = 0; o < nops; o++) {
    const std::vector<int> &k = keys[ri(0, nk - 1)];
    int x = ri(-2, 2), op = ri(0, 6);
    if (op == 6 && ri(0, 10)) op = 0;
    log += fmt(" %d(%s,%d)", op, vec(k).c_str(), x);
    cur = log;
    switch (op) {
    case 0: SetValueI(I, &k[0], x); ri_[k] = x; SetValueF(F, &k[0], x * 0.5f); rf[k] = x * 0.5f; SetValueD(D, &k[0], x * 0.5); rdd[k] = x * 0.5; break;
    case 1: case 2: ri_[k] += x; CHECK(IncrementI(I, &k[0], x) == ri_[k], "IncrementI result"); break;
    case 3: case 4: rf[k] += x * 0.5f; CHECK(IncrementF(F, &k[0], x * 0.5f) == rf[k], "IncrementF result"); break;
    case 5: { indextype r = FindEntry(I, (byte *)&k[0], -1); CHECK(r == -1, "FindEntry(delete) returned %d", r); ri_[k] = di; break; }
    case 6: ClearMatrix(I); ClearMatrix(F); ClearMatrix(D); for (auto &q : keys) { ri_[q] = di; rf[q] = di * 0.5f; rdd[q] = di * 0.5; } break;
    }
    int nI = 0, nF = 0, nD = 0;
    for (auto &q : keys) {
      CHECK(GetValueI(I, &q[0]) == ri_[q], "GetValueI %s", vec(q).c_str());
      CHECK(GetValueF(F, &q[0]) == rf[q], "GetValueF %s", vec(q).c_str());
      CHECK(GetValueD(D, &q[0]) == rdd[q], "GetValueD %s", vec(q).c_str());
      bool there = FindEntry(I, (byte *)&q[0], 0) >= 0;
      CHECK(there == (ri_[q] != di), "FindEntry presence of %s", vec(q).c_str());
      nI += ri_[q] != di; nF += rf[q] != di * 0.5f; nD += rdd[q] != di * 0.5;
    }
    CHECK(I->num_entries == nI && F->num_entries == nF && D->num_entries == nD, "entries %d %d %d, expected %d %d %d",
          (int)I->num_entries, (int)F->num_entries, (int)D->num_entries, nI, nF, nD);
  }
  DeleteMatrix(I); DeleteMatrix(F); DeleteMatrix(D);
  nontrivial();
}
int main() {
  start();
  int hs[] = {0, 1, 2, 5, 6, 40, 1009, 1010};
  for (int rep = 0; rep < (thorough ? 20 : 2); rep++)
    for (int h : hs)
      for (int style = 0; style < 4; style++)
        for (int dims = 1; dims <= 4; dims++)
          for (int def = 0; def < 2; def++) {
            run<int, int>(dims, h, def, ri(1, 12), 60, style, 0);
            run<unsigned short, int>(dims, h, def, ri(1, 12), 60, style, 0);
            run<int, float>(dims, h, def, ri(1, 12), 40, style, 0);
            run<int, double>(dims, h, def, ri(1, 8), 40, style, 0);
            run<int, S3>(dims, h, def, ri(1, 12), 60, style, 0);
            run<int, int>(dims, h, def, 30, 150, style, 1);
            sample();
          }
  for (int rep = 0; rep < (thorough ? 60 : 12); rep++) {
    run<int, int>(ri(1, 3), rep % 3 ? ri(0, 7) : ri(100, 3000), 0, ri(500, 2500), 20000, rep % 4, rep % 2);
    run<int, S3>(ri(1, 3), rep % 3 ? ri(0, 7) : ri(100, 3000), 0, ri(500, 1500), 12000, rep % 4, (rep + 1) % 2);
    run<unsigned short, int>(ri(2, 5), ri(1, 2000), 0, ri(300, 900), 8000, rep % 4, 0);
  }
  for (int rep = 0; rep < (thorough ? 5000 : 600); rep++) crun(ri(3, 40));
  return done();
}
