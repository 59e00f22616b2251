#include "h.hh"
#include "GramSorter.hh"
using namespace h;
typedef std::vector<int> G;
int main() {
  start();
  GramSorter reused(1, 0);
  for (int rep = 0; rep < (thorough ? 60000 : 4000); rep++) {
    int order = ri(1, 5), n = rep % 50 == 0 ? ri(100, 2000) : ri(0, 20), range = ri(1, 12), mode = ri(0, 4);
    std::string log = fmt("order=%d range=%d mode=%d grams:", order, range, mode);
    begin((const std::string &)log);
    GramSorter fresh(order, ri(0, 1) ? n : 0);
    GramSorter &s = ri(0, 1) ? reused : fresh;
    if (&s == &reused) s.reset(order, ri(0, 1) ? n : 0);
    CHECK(s.num_grams() == 0, "not empty at the start");
    std::vector<std::pair<G, std::pair<float, float>>> all;
    for (int i = 0; i < n; i++) {
      G g(order);
      for (auto &x : g) x = ri(0, range);
      if (mode == 3) for (auto &x : g) x = x * 40000000 - 200000000;
      all.push_back({g, {(float)i, -0.5f * i}});
    }
    auto cmp = [](const std::pair<G, std::pair<float, float>> &a, const std::pair<G, std::pair<float, float>> &b) { return a.first < b.first; };
    if (mode == 1) std::stable_sort(all.begin(), all.end(), cmp);
    if (mode == 2) { std::stable_sort(all.begin(), all.end(), cmp); std::reverse(all.begin(), all.end()); }
    if (mode == 4 && n > 2) { std::stable_sort(all.begin(), all.end(), cmp); std::swap(all[ri(0, n - 1)], all[ri(0, n - 1)]); }
    int early = ri(0, 3) == 0 ? ri(0, n) : -1;      // sorted once already in the middle
    for (int i = 0; i < n; i++) {
      if (i == early) s.sort();
      auto &x = all[i];
      s.add_gram(GramSorter::Gram(x.first.begin(), x.first.end()), x.second.first, x.second.second);
      if (n < 30) log += " " + vec(x.first);
    }
    cur = log;
    s.sort();
    CHECK(s.num_grams() == n, "%d n-grams, %d added", s.num_grams(), n);
    std::vector<char> used(n, 0);
    G prev;
    for (int i = 0; i < n; i++) {
      GramSorter::Gram q = s.gram(i);
      G g(q.begin(), q.end());
      GramSorter::Data d = s.data(i);
      CHECK(i == 0 || !(g < prev), "%s after %s", vec(g).c_str(), vec(prev).c_str());
      int k = (int)d.log_prob;
      CHECK(k >= 0 && k < n && !used[k], "data of position %d is not that of a new n-gram", i);
      used[k] = 1;
      CHECK(d.back_off == -0.5f * k, "back-off weight of another n-gram at %d", i);
      int src = -1;
      for (int j = 0; j < n && src < 0; j++) if ((int)all[j].second.first == k) src = j;
      CHECK(all[src].first == g, "%s carries the data of %s", vec(g).c_str(), vec(all[src].first).c_str());
      prev = g;
    }
    if (n > 5) nontrivial();
    if (rep > 0 && rep < 8) sample();
  }
  begin("n-gram of another length");
  CHECK(child([] { GramSorter s(2, 0); s.add_gram(GramSorter::Gram(3, 1), 0, 0); return 0; }) != 0, "a 3-gram was accepted by a 2-gram sorter");
  CHECK(child([] { GramSorter s(2, 0); s.add_gram(GramSorter::Gram(1, 1), 0, 0); return 0; }) != 0, "a 1-gram was accepted by a 2-gram sorter");
  return done();
}
