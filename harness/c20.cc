// C20: scoring a text and the counts kept while doing so.
#include "model.hh"
#define private public
#include "PerplexityFuncs.hh"
#undef private
#include "HashGram.hh"
using namespace h;
struct Ref {
  Model m, m2;
  std::map<std::string, int> ix;
  std::vector<std::string> names;
  int wb;                                    // 0 every token, 1 listed, 2 by patterns
  std::set<int> ccs, wbs;
  std::vector<std::string> pats;
  bool skip, two;
  int init, order, order1;
  double alpha;                              // weight of m
  std::vector<int> hist;                     // since the last restart
  int left;
  bool unk;
  double cw;
  long unks, tunks, nccs, pwords, ptokens, ends;
  std::vector<long> hits;
  double lp, wlp;
  bool hasmark(const std::string &w) {
    for (auto &p : pats) {
      std::string rest = p.size() ? (p[0] == '^' ? p.substr(1) : p.substr(0, p.size() - 1)) : "";
      if (p[0] == '^' && w.compare(0, rest.size(), rest) == 0) return true;
      if (p[0] != '^' && p[p.size() - 1] == '$' && w.size() >= rest.size() && w.substr(w.size() - rest.size()) == rest) return true;
    }
    return false;
  }
  bool ends_word(int i) { return wb == 0 || (wb == 1 ? wbs.count(i) > 0 : !hasmark(names[i])); }
  // returns the log-probability; w: the word log-probability, ord: the order used
  double step(const std::string &word, double &w, int &ord) {
    w = 0;
    ord = 0;
    auto f = ix.find(word);
    int i = f == ix.end() ? 0 : f->second;
    if (left && left == init) hist.clear();
    if (left > 0) {
      left--;
      if (word.compare(0, 3, "<s>") && ends_word(i)) pwords++;
      hist.push_back(i);
      return 0;
    }
    if (!word.compare(0, 4, "</s>")) { left = init; ends++; }
    if (i == 0) {
      tunks++;
      if (wb == 0) unks++;
      else if (wb == 2 && !hasmark(word)) { unks++; w = cw; cw = 0; }
      else unk = true;
      if (skip) { hist.push_back(0); return 0; }
    }
    if (ccs.count(i)) { nccs++; hist.push_back(i); return 0; }
    hist.push_back(i);
    G g = hist;
    if ((int)g.size() > order) g.erase(g.begin(), g.end() - order);
    double p = ref_bo(m, g);
    if (two) {
      double q = alpha * pow(10, p) + (1 - alpha) * pow(10, ref_bo(m2, g));
      p = q > 1e-60 ? log10(q) : -60;
    }
    ord = ref_order(two && order1 < order ? m2 : m, g);
    hits[0]++;
    hits[ord]++;
    ptokens++;
    cw += p;
    if (ends_word(i)) {
      bool bad = unk;
      if (bad) unks++;
      unk = false;
      if (!bad || !skip) { w = cw; pwords++; }
      cw = 0;
    }
    return p;
  }
  void reset() {
    hist.clear(); left = init; unk = false; cw = 0;
    unks = tunks = nccs = pwords = ptokens = ends = 0;
    hits.assign(order + 1, 0);
    lp = wlp = 0;
  }
};
static std::string readall(FILE *f) {
  std::string s;
  rewind(f);
  int c;
  while ((c = getc(f)) != EOF) s.push_back((char)c);
  return s;
}
static bool has(const std::string &s, const std::string &t) { return s.find(t) != std::string::npos; }
int main() {
  start();
  for (int rep = 0; rep < (thorough ? 6000 : 500); rep++) {
    Ref r;
    r.m = rmodel(9, 4);
    int V = r.m.V;
    for (auto &x : r.m.t.back()) x.second.b = 0;
    for (auto &t : r.m.t) for (auto &x : t) if (x.second.p < -59) x.second.p = -5;     // hash models drop those
    r.names.push_back("<UNK>");
    for (int i = 1; i < V; i++) r.names.push_back(i == 1 ? "<s>" : i == 2 ? "</s>" : fmt(ri(0, 1) ? "w%d" : ri(0, 1) ? "+w%d" : "w%d+", i));
    if (rep % 9 == 0 && V > 3) r.names[3] = std::string(ri(100, 400), 'x');
    for (int i = 0; i < V; i++) r.ix[r.names[i]] = i;
    r.two = rep % 3 == 0;
    std::string ar = arpa(r.m, r.names);
    spit("a.arpa", ar);
    r.order = r.order1 = r.m.order;
    if (r.two) {
      r.m2 = rmodel(9, 4);
      while (r.m2.V != V) r.m2 = rmodel(9, 4);
      for (auto &x : r.m2.t.back()) x.second.b = 0;
      for (auto &t : r.m2.t) for (auto &x : t) if (x.second.p < -59) x.second.p = -5;
      spit("b.arpa", arpa(r.m2, r.names));
      r.order = std::max(r.order, r.m2.order);
      ar += arpa(r.m2, r.names);
    }
    r.wb = ri(0, 2);
    r.skip = ri(0, 1);
    r.init = ri(0, 2) ? 0 : ri(1, 3);
    r.alpha = r.two ? ri(0, 10) / 10.0 : 0.5;
    bool cc = ri(0, 2) == 0;
    std::string cs, ws, ps;
    if (cc) for (int i = ri(0, 2); i >= 0; i--) {
      int k = ri(0, V - 1);
      if (ri(0, 9)) cs += r.names[k] + "\n"; else { k = 0; cs += std::string(ri(3, 20), 'y') + " "; }
      r.ccs.insert(k);
    }
    if (r.wb == 1) for (int i = ri(0, 2); i >= 0; i--) { int k = ri(0, V - 1); ws += r.names[k] + "\n"; r.wbs.insert(k); }
    if (r.wb == 2) {
      if (ri(0, 1)) r.pats.push_back("^+");
      if (ri(0, 1)) r.pats.push_back("+$");
      if (ri(0, 3) == 0) r.pats.push_back("^w3");
      if (ri(0, 3) == 0) r.pats.push_back("w4$");
      if (ri(0, 5) == 0) r.pats.push_back("plain");
      if (r.pats.empty()) r.pats.push_back("^+");
      for (auto &p : r.pats) ps += p + "\n";
    }
    spit("ccs", cs); spit("wb", ws); spit("mb", ps);
    std::vector<std::string> text;
    std::string ts;
    for (int i = ri(0, 40); i > 0; i--) {
      int k = ri(0, 9);
      text.push_back(k == 0 ? "zz" : k == 1 ? "+zz" : k == 2 ? "zz+" : k == 3 && V > 2 ? "</s>" : k == 4 ? "<s>" : r.names[ri(0, V - 1)]);
      ts += text.back() + (ri(0, 1) ? " " : "\n");
    }
    int kind = ri(0, 4);
    begin(fmt("kind %d wb %d skip %d init %d alpha %g two %d ccs '%s' wb '%s' mb '%s' text '%s'\n", kind, r.wb, r.skip, r.init, r.alpha, r.two, cs.c_str(), ws.c_str(),
              ps.c_str(), ts.c_str()) + ar);
    if (text.size() > 5) nontrivial();
    std::string cf = cc ? "ccs" : "", wf = r.wb == 1 ? "wb" : "", mf = r.wb == 2 ? "mb" : "";
    std::string unk = ri(0, 1) ? "<UNK>" : "";
    auto make = [&]() -> Perplexity * {
      Perplexity *p;
      if (kind <= 1) {
        std::shared_ptr<NGram> lm;
        if (kind == 0) lm.reset(new TreeGram()); else lm.reset(new HashGram_t<int>());
        io::Stream in("a.arpa", "r");
        lm->read(in.file, false);
        p = new Perplexity(lm, cf, wf, mf, unk, r.skip);
      } else p = new Perplexity("a.arpa", 0, cf, wf, mf, unk, kind == 2 ? 0 : kind == 3 ? 1 : -1, r.skip);
      p->set_init_hist(r.init);
      if (r.two) { p->set_alpha((float)r.alpha); p->set_interpolation("b.arpa"); }
      p->set_unk_warn(ri(0, 1));
      return p;
    };
    auto counts = [&](Perplexity *p, const char *when) {
      bool after = !strcmp(when, "logprob_file") && r.wb == 0;
      CHECK(p->processed_words() == r.pwords && p->processed_tokens() == r.ptokens && p->m_num_ccs == r.nccs && p->m_num_sent_ends == r.ends &&
            p->m_num_unks == r.unks && p->get_num_tunks() == (after ? 0 : r.tunks),
            "%s: words %d tokens %d cues %d sentence ends %d unknown %d unknown tokens %d, the text has %ld %ld %ld %ld %ld %ld", when,
            p->processed_words(), p->processed_tokens(), p->m_num_ccs, p->m_num_sent_ends, p->m_num_unks, p->m_num_tunks, r.pwords, r.ptokens, r.nccs,
            r.ends, r.unks, r.tunks);
      for (int o = 0; o <= r.order; o++)
        CHECK(p->get_hitorder(o) == r.hits[o], "%s: %d hits of order %d, expected %ld", when, p->get_hitorder(o), o, r.hits[o]);
      CHECK(p->get_hitorder(r.order + 1) == 0 && p->get_hitorder(r.order + 7) == 0, "hits past the order");
    };
    { // token by token
      Perplexity *p = make();
      CHECK(p->m_lm->order() == r.order, "order");
      r.reset();
      for (size_t i = 0; i < text.size(); i++) {
        float w = 77;
        double rw;
        int ord;
        double want = r.step(text[i], rw, ord);
        double got;
        if (rep % 5 == 4) { got = p->token_logprob(text[i].c_str()); w = (float)rw; }
        else if (rep % 5 == 3) { got = want; w = p->word_logprob(text[i].c_str()); }
        else got = p->logprob(text[i].c_str(), w);
        CHECK(close(got, want, 1e-4), "token %zu (%s): log-probability %g, expected %g", i, text[i].c_str(), got, want);
        CHECK(close(w, rw, 1e-3), "token %zu (%s): word log-probability %g, expected %g", i, text[i].c_str(), w, rw);
        CHECK(p->m_lm->last_order() == ord, "token %zu (%s): order %d, expected %d", i, text[i].c_str(), p->m_lm->last_order(), ord);
      }
      counts(p, "token by token");
      // restart
      p->clear_history();
      r.hist.clear();
      r.left = r.init;
      p->reset_hitrates();
      r.hits.assign(r.order + 1, 0);
      for (size_t i = 0; i < text.size() && i < 5; i++) {
        float w;
        double rw;
        int ord;
        double want = r.step(text[i], rw, ord), got = p->logprob(text[i].c_str(), w);
        CHECK(close(got, want, 1e-4), "after clear_history, token %zu: %g, expected %g", i, got, want);
      }
      counts(p, "after clear_history");
      delete p;
    }
    { // whole file
      Perplexity *p = make();
      r.reset();
      std::string lines;
      std::vector<double> rl;
      for (auto &t : text) {
        double w;
        int ord;
        double l = r.step(t, w, ord);
        r.lp += l;
        r.wlp += w;
        rl.push_back(l);
      }
      r.wlp += r.cw;
      spit("text", ts);
      FILE *in = fopen("text", "r"), *out = rep % 2 ? fopen("out", "w+") : NULL;
      int interval = ri(0, 1) ? 1 : ri(2, 4);
      double got = p->logprob_file(in, out, interval);
      CHECK(close(got, r.lp, 1e-3) && close(p->m_logprob, r.lp, 1e-3), "text log-probability %g, expected %g", got, r.lp);
      CHECK(close(p->m_word_logprob, r.wlp, 1e-3), "word log-probability of the text %g, expected %g", p->m_word_logprob, r.wlp);
      counts(p, "logprob_file");
      if (out) {
        std::istringstream o(readall(out));
        std::string line;
        if (interval == 1) {
          for (size_t i = 0; i < text.size(); i++) {
            CHECK((bool)std::getline(o, line), "missing output line %zu", i);
            CHECK(line.compare(0, text[i].size() + 1, text[i] + " ") == 0 && close(atof(line.c_str() + text[i].size() + 1), pow(10, rl[i]), 1e-4),
                  "output line '%s', expected probability %g", line.c_str(), pow(10, rl[i]));
          }
        } else {
          for (size_t i = 0; i + interval <= text.size(); i += interval) {
            double s = 0;
            for (int j = 0; j < interval; j++) s += rl[i + j];
            CHECK((bool)std::getline(o, line), "missing output line");
            CHECK(close(atof(line.c_str()), s / log10(2.0), 1e-3), "interval sum %s, expected %g", line.c_str(), s / log10(2.0));
          }
        }
        CHECK(!std::getline(o, line), "additional output '%s'", line.c_str());
        fclose(out);
      }
      fclose(in);
      FILE *res = fopen("res", "w+");
      double bits = p->print_results(res);
      std::string s = readall(res);
      fclose(res);
      if (r.pwords > 0) CHECK(close(bits, -r.wlp / r.pwords / log10(2.0), 1e-3), "perplexity %g bits, expected %g", bits, -r.wlp / r.pwords / log10(2.0));
      CHECK(has(s, fmt("%ld UNKS", r.unks)), "number of unknown words in\n%s", s.c_str());
      CHECK(has(s, fmt("Processed: %ld words\n", r.pwords)), "number of words in\n%s", s.c_str());
      CHECK(has(s, fmt("Total:     %ld words\n", r.pwords + r.nccs + (r.skip ? r.unks : 0))), "total in\n%s", s.c_str());
      if (r.wb) CHECK(has(s, fmt("%ld TUNKS", r.tunks)), "number of unknown tokens in\n%s", s.c_str());
      if (cc) CHECK(has(s, fmt("%ld context cues", r.nccs)), "number of context cues in\n%s", s.c_str());
      size_t q = s.find("\nLogprob ");
      CHECK(q != std::string::npos && close(atof(s.c_str() + q + 9), r.wlp, 1e-3), "log-probability in\n%s, expected %g", s.c_str(), r.wlp);
      res = fopen("res", "w+");
      p->print_hitrates(res);
      s = readall(res);
      fclose(res);
      if (r.hits[0])
        for (int o = 1; o <= r.order; o++) CHECK(has(s, fmt("%d: %.3f\n", o, 100.0 * r.hits[o] / r.hits[0])), "hit rate of order %d in\n%s", o, s.c_str());
      delete p;
    }
    { // sentences
      Perplexity *p = make();
      r.reset();
      size_t i = 0;
      while (i < text.size()) {
        std::string s;
        double want = 0, w;
        int ord;
        for (int n = ri(1, 8); n > 0 && i < text.size(); n--, i++) {
          s += std::string(ri(1, 2), ' ') + text[i];
          want -= r.step(text[i], w, ord);
        }
        if (ri(0, 1)) s += " ";
        if (ri(0, 1)) s.erase(0, 1);
        double got = p->sentence_logprob(s.c_str());
        CHECK(close(got, want, 1e-3), "sentence '%s' costs %g, expected %g", s.c_str(), got, want);
      }
      counts(p, "sentences");
      delete p;
    }
    if (rep % 10 == 0) {   // binary models
      { TreeGram lm; io::Stream in("a.arpa", "r"); lm.read(in.file, false); io::Stream out("a.bin", "w"); lm.write(out.file, true); }
      bool two = r.two;
      Perplexity p("a.bin");
      Ref q = r;
      q.two = false; q.order = q.order1 = q.m.order; q.skip = true; q.wb = 0; q.init = 0; q.ccs.clear();
      q.reset();
      for (auto &t : text) {
        double w;
        int ord;
        double want = q.step(t, w, ord), got = p.token_logprob(t.c_str());
        CHECK(close(got, want, 1e-4), "binary model: %g, expected %g", got, want);
      }
      (void)two;
    }
    if (rep % 100 == 0) sample();
  }
  return done();
}
