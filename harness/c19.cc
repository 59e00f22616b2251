// C19: mixtures of ARPA models.
#include "model.hh"
#define private public
#include "InterTreeGram.hh"
#undef private
#define private public
#include "PerplexityFuncs.hh"
#undef private
using namespace h;
typedef std::map<std::string, int> Ix;
struct Comp { Model m; std::vector<std::string> names; bool interp; Ix ix; };
static double floorlp(double p) { return p > 1e-60 ? log10(p) : -60; }
int main() {
  start();
  for (int rep = 0; rep < (thorough ? 3000 : 250); rep++) {
    int K = ri(1, 4), VV = ri(3, 9);
    std::vector<Comp> cs(K);
    std::vector<std::string> files;
    std::vector<float> w;
    std::string log;
    std::vector<std::string> all(1, "<UNK>");
    for (int k = 0; k < K; k++) {
      Comp &c = cs[k];
      std::vector<std::string> pool;
      for (int i = 1; i < VV; i++) pool.push_back(i == 1 ? "<s>" : i == 2 ? "</s>" : fmt("w%d", i));
      for (int i = (int)pool.size() - 1; i > 0; i--) std::swap(pool[i], pool[ri(0, i)]);
      c.m = rmodel(VV, 4, ri(0, 1));
      while (c.m.V > VV) c.m = rmodel(VV, 4);
      c.names.assign(1, ri(0, 3) ? "<UNK>" : "other");
      for (int i = 1; i < c.m.V; i++) c.names.push_back(pool[i - 1]);
      for (int i = 0; i < c.m.V; i++) c.ix[c.names[i]] = i;
      c.interp = rep % 3 == 0 && ri(0, 1);
      for (auto &x : c.m.t.back()) x.second.b = 0;    // not written at the highest order
      // with interpolation weights are at most one, so log weights must not be positive
      if (c.interp) for (auto &t : c.m.t) for (auto &x : t) if (x.second.b > 0) x.second.b = -x.second.b;
      for (auto &n : c.names) if (std::find(all.begin(), all.end(), n) == all.end()) all.push_back(n);
      std::string f = fmt("c%d.arpa", k), t = arpa(c.m, c.names, c.interp, ri(0, 1));
      spit(f, t);
      files.push_back(f);
      w.push_back((float)(ri(0, 5) ? rd() + 0.01 : 0));
      log += fmt("--- weight %d, %s\n%s", k, f.c_str(), t.c_str());
    }
    float s = 0;
    for (float x : w) s += x;
    if (s == 0) { w[0] = 1; s = 1; }
    for (float &x : w) x /= s;
    begin("weights " + vec(w) + "\n" + log);
    // refused configurations
    if (rep % 10 == 0) {
      auto refused = [&](std::vector<std::string> f, std::vector<float> v) {
        return child([=]() { if (!freopen("/dev/null", "w", stderr)) return 3; InterTreeGram t(f, v); return 0; }) == 1;
      };
      std::vector<float> v = w;
      v.push_back(0);
      CHECK(refused(files, v), "%zu models with %zu weights accepted", files.size(), v.size());
      if (K > 1) {
        v = w;
        v[0] += v[K - 1];
        v.pop_back();
        CHECK(refused(files, v), "%zu models with %zu weights accepted", files.size(), v.size());
      }
      for (float d : {-1.f, -0.3f, -0.02f, 0.02f, 0.5f, 2.f}) {
        v = w;
        v[ri(0, K - 1)] += d;
        CHECK(refused(files, v), "weights %s summing to %g accepted", vec(v).c_str(), 1 + d);
      }
      for (float d : {-0.005f, 0.005f}) {
        v = w;
        v[0] += d;
        CHECK(!refused(files, v), "weights %s summing to %g refused", vec(v).c_str(), 1 + d);
      }
    }
    InterTreeGram t(files, w);
    CHECK(t.num_words() == (int)all.size(), "%d words in the mixture, %zu in the union", t.num_words(), all.size());
    int mo = 0;
    for (auto &c : cs) mo = std::max(mo, c.m.order);
    CHECK(t.order() == mo, "order %d, expected %d", t.order(), mo);
    std::vector<int> id;
    for (auto &n : all) {
      id.push_back(t.word_index(n));
      CHECK(t.word(id.back()) == n, "word %s not in the vocabulary", n.c_str());
    }
    if (K > 1 && mo > 1) nontrivial();
    auto mix = [&](const G &g, bool bo) {    // g: positions in `all`
      double p = 0;
      for (int k = 0; k < K; k++) {
        Comp &c = cs[k];
        Model m = c.m;                        // absent words: floor unigrams
        G q;
        int extra = m.V;
        for (int a : g) {
          auto f = c.ix.find(all[a]);
          if (f != c.ix.end()) q.push_back(f->second);
          else { m.t[0][G(1, extra)] = PB{-60, 0}; q.push_back(extra++); }
        }
        p += w[k] * (c.interp ? ref_ip(m, q) : pow(10, ref_bo(m, q)));
      }
      return p;
    };
    auto samep = [&](double lp, double p) {
      return std::fabs(lp - floorlp(p)) < 1e-3 || (p < 1e-55 && lp < -50 && std::fabs(lp - floorlp(p)) < 10);
    };
    for (auto &g : grams((int)all.size(), mo + 1, 200)) {
      G q;
      for (int a : g) q.push_back(id[a]);
      double p = mix(g, true), lp = t.log_prob(gr(q));
      CHECK(samep(lp, p), "log_prob of %s is %g, the weighted average is %g", vec(g).c_str(), lp, floorlp(p));
      NGram *base = &t;
      CHECK(close(base->log_prob(gr(q)), lp, 1e-6), "generic query of %s", vec(g).c_str());
    }
    bool anyi = false;
    for (auto &c : cs) anyi |= c.interp;
    for (int q = 0; q < 10 && !anyi; q++) {      // look-ahead is for back-off models
      int ctx = ri(0, (int)all.size() - 1);
      std::vector<int> next;
      for (int i = ri(1, 12); i > 0; i--) next.push_back(ri(0, (int)all.size() - 1));
      std::vector<float> res(next.size(), 7.f);
      std::vector<int> keep = next;
      t.fetch_bigram_list(ctx, next, res);
      CHECK(res.size() == next.size() && next == keep, "sizes");
      for (size_t i = 0; i < next.size(); i++) {
        double want = t.log_prob(gr(G{ctx, next[i]}));
        CHECK(close(res[i], want, 1e-4), "look-ahead of %d after %d is %g, the individual query gives %g", next[i], ctx, res[i], want);
      }
    }
    if (rep % 50 == 0) sample();
  }
  // two models interpolated in perplexity evaluation
  for (int rep = 0; rep < (thorough ? 2000 : 200); rep++) {
    Model m[2]; std::vector<std::string> nm[2]; std::map<std::string, int> ix[2]; std::string log;
    m[0] = rmodel(8, 4); do m[1] = rmodel(8, 4); while (m[1].V != m[0].V);
    for (int k = 0; k < 2; k++) {
      for (auto &x : m[k].t.back()) x.second.b = 0;
      for (auto &t : m[k].t) for (auto &x : t) if (x.second.p < -59) x.second.p = -5;
      nm[k].push_back("<UNK>");
      for (int i = 1; i < m[k].V; i++) nm[k].push_back(fmt("w%d", i));
      for (int i = m[k].V - 1; i > 1 && k; i--) std::swap(nm[k][i], nm[k][ri(1, i)]);
      for (int i = 0; i < m[k].V; i++) ix[k][nm[k][i]] = i;
      std::string t = arpa(m[k], nm[k]); spit(fmt("p%d.arpa", k), t); log += fmt("--- p%d.arpa\n", k) + t;
    }
    double a = ri(0, 20) / 20.0; int hm = ri(-1, 1), mo = std::max(m[0].order, m[1].order);
    begin(fmt("perplexity with %g of p0 (kind %d), the rest of p1\n", a, hm) + log);
    if (m[0].order != m[1].order) nontrivial();
    Perplexity p("p0.arpa", 0, "", "", "", "", hm, false);
    p.set_alpha((float)a); p.set_interpolation("p1.arpa");
    std::vector<std::string> h;
    for (int i = 0; i < 25; i++) {
      h.push_back(ri(0, 9) ? nm[0][ri(0, m[0].V - 1)] : "unheard");
      if ((int)h.size() > mo) h.erase(h.begin());
      double q = 0;
      for (int k = 0; k < 2; k++) { G g; for (auto &w : h) g.push_back(ix[k].count(w) ? ix[k][w] : 0); q += (k ? 1 - a : a) * pow(10, ref_bo(m[k], g)); }
      float x; float lp = p.logprob(h.back().c_str(), x);
      CHECK(std::fabs(lp - floorlp(q)) < 2e-3, "word %d (%s) is given %g, the weighted average is %g", i, h.back().c_str(), lp, floorlp(q));
    }
  }
  return done();
}
