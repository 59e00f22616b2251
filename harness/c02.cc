#include "h.hh"
#include "sikMatrix.hh"
using namespace h;
typedef std::vector<int> Key;
static std::string kb(const Key &k) { return std::string((const char *)&k[0], k.size() * sizeof(int)); }
static bool less(const Key &a, const Key &b) { return memcmp(&a[0], &b[0], a.size() * 4) < 0; }
struct S3 {
  int a, b[2];
  S3 operator+=(const S3 o) { a += o.a; b[0] += o.b[0]; b[1] += o.b[1]; return *this; }
};
template <class V> V mk(int x);
template <> int mk<int>(int x) { return x; }
template <> S3 mk<S3>(int x) { S3 s = {x, {x * 2, -x}}; return s; }
template <class V> bool same(const V &a, const V &b) { return !memcmp(&a, &b, sizeof(V)); }
template <class V> struct Store {
  sikMatrix<int, V> m;
  std::map<Key, V> ref;
  int dims;
  Store(int d, int h) : m(d, h, mk<V>(0)), dims(d) {}
  void fill(int n, int style) {
    for (int i = 0; i < n; i++) {
      Key k(dims);
      for (auto &x : k) x = style == 0 ? ri(0, 6) : style == 1 ? ri(0, 3) * 256 + ri(0, 1) : ri(-300, 300);
      int x = ri(-3, 60);
      if (ri(0, 3)) m.setvalue(&k[0], mk<V>(x)); else { m.increment(&k[0], mk<V>(x)); if (ref.count(k)) { V v = ref[k]; v += mk<V>(x); ref[k] = v; } else ref[k] = mk<V>(x); if (same(ref[k], mk<V>(0))) ref.erase(k); continue; }
      if (x) ref[k] = mk<V>(x); else ref.erase(k);
    }
  }
  void content() {
    CHECK((size_t)m.num_entries() == ref.size(), "%d entries, expected %zu", (int)m.num_entries(), ref.size());
    for (auto &x : ref) CHECK(same(m.getvalue(&x.first[0]), x.second), "value of %s differs after the traversal", vec(x.first).c_str());
  }
};
template <class V> void one(int rep) {
  int dims = ri(1, 4), hs = ri(0, 2) ? ri(0, 9) : ri(900, 1300), n = ri(0, rep % 7 == 0 ? 400 : 25);
  Store<V> s(dims, hs);
  s.fill(n, ri(0, 2));
  begin(fmt("dims=%d hashs=%d entries=%zu", dims, hs, s.ref.size()));
  if (rep < 3) sample();
  if (s.ref.size() > 2) nontrivial();
  int pdel = ri(0, 3) * 33;
  for (int pass = 0; pass < 3; pass++) {
    Key k(dims);
    V v;
    // a traversal begun and abandoned first must not matter
    if (ri(0, 1)) { s.m.stepthrough(true, &k[0], &v); for (int i = ri(0, 3); i > 0; i--) if (!s.m.stepthrough(false, &k[0], &v)) break; }
    // unordered, with deletions
    std::map<Key, V> before = s.ref, seen;
    void *p;
    s.m.stept_sortsearch = false;
    bool viast = ri(0, 1);
    CHECK((viast ? s.m.stept(true, &k[0], &v) : s.m.stepthrough(true, &k[0], &v)) == NULL, "initialising step returned a value");
    size_t steps = 0;
    while ((p = viast ? s.m.stept(false, &k[0], &v) : s.m.stepthrough(false, &k[0], &v))) {
      CHECK(++steps <= before.size(), "more steps than entries");
      CHECK(before.count(k), "visited a key that is not stored: %s", vec(k).c_str());
      CHECK(!seen.count(k), "visited %s twice", vec(k).c_str());
      CHECK(same(before[k], v), "value of %s in the traversal differs", vec(k).c_str());
      CHECK(same(*(V *)p, v), "returned pointer does not address the value of %s", vec(k).c_str());
      seen[k] = v;
      if (ri(0, 99) < pdel) {
        s.m.delete_current_st();
        s.ref.erase(k);
        cur += fmt(" del%s", vec(k).c_str());
        if (s.ref.size() < 40) s.content();
      } else if (ri(0, 9) == 0) {          // update through the returned pointer
        *(V *)p = mk<V>(77);
        s.ref[k] = mk<V>(77);
      }
    }
    CHECK(seen.size() == before.size(), "visited %zu of %zu entries", seen.size(), before.size());
    s.content();
    // ordered
    std::vector<Key> order;
    s.m.stept_sortsearch = true;
    viast = ri(0, 1);
    if (ri(0, 2) == 0) { s.m.ordered_stepthrough(true, &k[0], &v); if (s.ref.size() > 1) s.m.ordered_stepthrough(false, &k[0], &v); }
    CHECK((viast ? s.m.stept(true, &k[0], &v) : s.m.ordered_stepthrough(true, &k[0], &v)) == NULL, "initialising step returned a value");
    while ((p = viast ? s.m.stept(false, &k[0], &v) : s.m.ordered_stepthrough(false, &k[0], &v))) {
      CHECK(order.size() < s.ref.size(), "more steps than entries");
      CHECK(s.ref.count(k), "visited a key that is not stored: %s", vec(k).c_str());
      CHECK(same(s.ref[k], v) && same(*(V *)p, v), "value of %s in the ordered traversal differs", vec(k).c_str());
      CHECK(order.empty() || less(order.back(), k), "%s visited after %s", vec(k).c_str(), order.empty() ? "" : vec(order.back()).c_str());
      order.push_back(k);
    }
    CHECK(order.size() == s.ref.size(), "visited %zu of %zu entries in order", order.size(), s.ref.size());
    s.content();
    if (ri(0, 1)) s.fill(ri(0, 10), 0);
    pdel = ri(0, 3) * 33;
  }
}
// two stores traversed one after the other; plain C interface
void two() {
  struct matrix *a = CreateMatrixI(2, ri(0, 9), 0), *b = CreateMatrixF(1, ri(0, 9), 0);
  std::map<Key, int> ra;
  std::map<Key, float> rb;
  for (int i = ri(0, 20); i > 0; i--) { Key k = {ri(0, 5), ri(-2, 2)}; int x = ri(1, 9); SetValueI(a, &k[0], x); ra[k] = x; }
  for (int i = ri(0, 20); i > 0; i--) { Key k = {ri(-20, 20)}; float x = ri(1, 9); SetValueF(b, &k[0], x); rb[k] = x; }
  begin(fmt("C interface %zu and %zu entries", ra.size(), rb.size()));
  for (int r = 0; r < 4; r++) {
    Key k2(2), k1(1);
    int vi; float vf;
    if (r % 2) {
      size_t n = 0;
      Key prev;
      bool ord = ri(0, 1);
      ord ? OrderedStepThroughI(a, &k2[0], &vi) : StepThroughI(a, &k2[0], &vi);
      while (ord ? OrderedStepThroughI(NULL, &k2[0], &vi) : StepThroughI(NULL, &k2[0], &vi)) {
        CHECK(ra.count(k2) && ra[k2] == vi, "entry %s=%d", vec(k2).c_str(), vi);
        if (ord) { CHECK(n == 0 || less(prev, k2), "order"); prev = k2; }
        n++;
      }
      CHECK(n == ra.size(), "visited %zu of %zu", n, ra.size());
    } else {
      size_t n = 0;
      Key prev;
      bool ord = ri(0, 1);
      ord ? OrderedStepThroughF(b, &k1[0], &vf) : StepThroughF(b, &k1[0], &vf);
      while (ord ? OrderedStepThroughF(NULL, &k1[0], &vf) : StepThroughF(NULL, &k1[0], &vf)) {
        CHECK(rb.count(k1) && rb[k1] == vf, "entry %s=%f", vec(k1).c_str(), vf);
        if (ord) { CHECK(n == 0 || less(prev, k1), "order"); prev = k1; }
        n++;
      }
      CHECK(n == rb.size(), "visited %zu of %zu", n, rb.size());
    }
  }
  DeleteMatrix(a);
  DeleteMatrix(b);
}
int main() {
  start();
  for (int rep = 0; rep < (thorough ? 60000 : 4000); rep++) {
    one<int>(rep);
    one<S3>(rep);
    two();
  }
  return done();
}
