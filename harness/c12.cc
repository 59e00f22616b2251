#include "model.hh"
#include "TreeGramArpaReader.hh"
using namespace h;
static std::vector<std::string> rnames(int V) {
  std::vector<std::string> v = wnames(V);
  for (int i = 3; i < V; i++) {
    int k = ri(0, 7);
    if (k == 0) v[i] = fmt("%d%s", i, ri(0, 1) ? "" : "-x");
    if (k == 1) v[i] = fmt("\xc3\xa4%d", i);
    if (k == 2) v[i] = fmt("\\w%d=(a)", i);
    if (k == 3) v[i] = std::string(ri(1, 90), 'q') + fmt("%d", i);
  }
  return v;
}
// the model in lm is exactly m, words being named by names
static void same(TreeGram &lm, const Model &m, const std::vector<std::string> &names, double tol, const char *what) {
  CHECK(lm.order() == m.order, "%s: order %d, listed %d", what, lm.order(), m.order);
  std::vector<int> id;
  for (int w = 0; w < m.V; w++) {
    id.push_back(lm.word_index(names[w]));
    CHECK(lm.word(id[w]) == names[w], "%s: word %s missing", what, names[w].c_str());
  }
  CHECK(lm.num_words() == m.V, "%s: %d words, listed %d", what, lm.num_words(), m.V);
  std::map<G, PB> got;
  TreeGram::Iterator it(&lm);
  while (it.next()) {
    G g;
    for (int o = 1; o <= it.order(); o++) g.push_back(it.node(o).word);
    got[g] = PB{it.node().log_prob, it.node().back_off};
  }
  size_t n = 0;
  for (int o = 0; o < m.order; o++) {
    CHECK(lm.gram_count(o + 1) == (int)m.t[o].size(), "%s: gram_count(%d) is %d, listed %zu", what, o + 1, lm.gram_count(o + 1), m.t[o].size());
    for (auto &x : m.t[o]) {
      G g;
      for (int w : x.first) g.push_back(id[w]);
      CHECK(got.count(g), "%s: %s is not in the model", what, vec(x.first).c_str());
      CHECK(close(got[g].p, x.second.p, tol) && close(got[g].b, x.second.b, tol), "%s: %s has %g/%g, expected %g/%g", what, vec(x.first).c_str(), got[g].p, got[g].b, x.second.p, x.second.b);
      n++;
    }
  }
  CHECK(n == got.size(), "%s: the model holds n-grams that are not listed", what);
}
static int load(const std::string &text, TreeGram *keep = NULL) {
  spit("in.arpa", text);
  return child([&] {
    TreeGram lm;
    FILE *f = fopen("in.arpa", "r");
    TreeGramArpaReader r;
    r.read(f, &lm);
    return 0;
  });
}
typedef std::vector<std::string> Lines;
static Lines lines(const std::string &s) {
  Lines l;
  std::istringstream i(s);
  std::string x;
  while (std::getline(i, x)) l.push_back(x);
  return l;
}
static std::string text(const Lines &l) {
  std::string s;
  for (auto &x : l) s += x + "\n";
  return s;
}
static void refused(const Lines &l, const char *what) {
  cur = std::string(what) + "\n" + text(l);
  ncases++;
  int r = load(text(l));
  CHECK(r != 0, "a file with %s was accepted", what);
  CHECK(r < 1000, "reading a file with %s crashed with signal %d", what, r - 1000);
}
int main() {
  start();
  for (int rep = 0; rep < (thorough ? 10000 : 1000); rep++) {
    Model m = rmodel(9, 4, false, rep % 5 == 0 ? ri(1, 10) : -1);
    bool inter = rep % 4 == 3;
    for (auto &x : m.t[m.order - 1]) x.second.b = 0;
    std::vector<std::string> names = rnames(m.V);
    std::string txt = arpa(m, names, inter, false, ri(0, 1));
    // the same file in another layout: sections above the first in any order, tabs, blank lines, text before the header
    if (rep % 2) {
      Lines l = lines(txt), o;
      int sec = 0;
      if (ri(0, 1)) o.push_back("written by hand");
      Lines body;
      for (auto &x : l) {
        bool head = x.size() == 9 && x[0] == '\\' && x.substr(2) == "-grams:";
        bool ng = sec >= 1 && !x.empty() && x != "\\end\\" && !head;
        if (ng && sec > 1) { body.push_back(x); continue; }
        for (int i = (int)body.size() - 1; i > 0; i--) std::swap(body[i], body[ri(0, i)]);
        for (auto &b : body) { o.push_back(b); if (ri(0, 9) == 0) o.push_back(ri(0, 1) ? "" : " "); }
        body.clear();
        if (head) sec = x[1] - '0';
        o.push_back(x);
      }
      for (auto &x : o) if (ri(0, 3) == 0 && !x.empty() && x[0] == '-') for (auto &ch : x) if (ch == ' ') ch = '\t';
      txt = text(o);
    }
    begin((const std::string &)txt);
    if (m.order > 1) nontrivial();
    if (rep < 3) sample();
    spit("in.arpa", txt);
    TreeGram lm;
    FILE *f = fopen("in.arpa", "r");
    if (rep % 3) { TreeGramArpaReader r; r.read(f, &lm); } else lm.read(f, false);
    fclose(f);
    CHECK(lm.get_type() == (inter ? NGram::INTERPOLATED : NGram::BACKOFF), "model type");
    for (int w = 0; w < m.V; w++) CHECK(lm.word_index(names[w]) == w, "index of %s", names[w].c_str());
    same(lm, m, names, 1e-6, "read");
    // ---- written and read again (the interpolated form is written as a back-off model)
    std::string sep = ri(0, 1) ? " " : "\t";
    f = fopen("out.arpa", "w");
    if (rep % 3) { TreeGramArpaReader r; r.write(f, &lm, sep); } else lm.write(f, false, sep);
    fclose(f);
    TreeGram lm2;
    f = fopen("out.arpa", "r");
    lm2.read(f, false);
    fclose(f);
    cur = txt + "\nwritten as\n" + slurp("out.arpa");
    CHECK(lm2.get_type() == NGram::BACKOFF, "type of the written model");
    if (!inter)
      same(lm2, m, names, 1e-5, "written and read");
    else {
      Model q = m;
      for (auto &l : q.t) for (auto &x : l) {
        double p = ref_ip(m, x.first);
        x.second.p = p > 1e-60 ? log10(p) : -60;
        if (x.second.p > 0) x.second.p = 0;
      }
      same(lm2, q, names, 1e-5, "written and read");
    }
  }
  // ---- inconsistent files
  for (int rep = 0; rep < (thorough ? 400 : 25); rep++) {
    Model m = rmodel(5, 3, false, ri(20, 95));
    for (auto &x : m.t[m.order - 1]) x.second.b = 0;
    std::vector<std::string> names = wnames(m.V);
    bool bows = ri(0, 1);
    Lines l = lines(arpa(m, names, false, false, bows));
    CHECK(load(text(l)) == 0, "the file itself is refused:\n%s", text(l).c_str());
    // cut off after any line
    for (size_t k = 0; k + 1 < l.size(); k++) refused(Lines(l.begin(), l.begin() + k), "a missing end");
    std::vector<std::vector<size_t>> sec(m.order + 1);
    int s = 0;
    std::vector<size_t> heads;
    for (size_t i = 0; i < l.size(); i++) {
      if (l[i].size() == 9 && l[i].substr(2) == "-grams:") { s = l[i][1] - '0'; heads.push_back(i); continue; }
      if (s && !l[i].empty() && l[i] != "\\end\\") sec[s].push_back(i);
    }
    for (int o = 1; o <= m.order; o++) {
      // section counts
      for (int d = -2; d <= 2; d++) {
        int c = (int)m.t[o - 1].size() + d;
        if (d == 0 || c < 0) continue;
        Lines q = l;
        q[o] = fmt("ngram %d=%d", o, c);
        refused(q, "a wrong section count");
      }
      Lines q = l;
      q[o] = fmt("ngram %d=-1", o);
      refused(q, "a negative section count");
      q = l; q.insert(q.begin() + m.order + 1, fmt("ngram %d=-%d", m.order + 1, ri(1, 9)));
      refused(q, "a negative section count of an order without a section");
      q = l; q[o] = fmt("ngram %d=%d", o + 1, (int)m.t[o - 1].size());
      refused(q, "a wrong order in the header");
      q = l; q[heads[o - 1]] = fmt("\\%d-grams:", o + 1);
      refused(q, "a wrong section header");
      q = l; q[heads[o - 1]] = fmt("\\%d grams", o);
      refused(q, "a malformed section header");
      q = l; q.erase(q.begin() + heads[o - 1]);
      refused(q, "a missing section header");
      for (size_t i : sec[o]) {
        std::istringstream is(l[i]);
        Lines f;
        std::string x;
        while (is >> x) f.push_back(x);
        q = l; q.erase(q.begin() + i);
        refused(q, "an n-gram missing");
        // lengths: a word more or less
        bool hasb = (int)f.size() == o + 2;
        q = l; q[i] = f[0]; for (int k = 2; k <= o; k++) q[i] += " " + f[k];
        if (!hasb) refused(q, "an n-gram one word too short");
        q = l; q[i] = f[0]; for (int k = 1; k <= o; k++) q[i] += " " + f[k];
        q[i] += " " + names[ri(0, m.V - 1)];
        refused(q, "an n-gram one word too long");
        q[i] += " -0.5";
        refused(q, "an n-gram one word too long and a back-off weight");
        // duplicates, next to each other or not (the unknown word may be given again)
        if (!(o == 1 && f[1] == "<UNK>")) {
          q = l; q.insert(q.begin() + i, l[i]); q[o] = fmt("ngram %d=%d", o, (int)m.t[o - 1].size() + 1);
          refused(q, "a duplicate n-gram");
          q = l; q.insert(q.begin() + sec[o].back() + 1, l[i]); q[o] = fmt("ngram %d=%d", o, (int)m.t[o - 1].size() + 1);
          refused(q, "a duplicate n-gram");
        }
        if (o > 1) {      // a word that is not in the model
          std::istringstream ls(l[i]);
          Lines f2;
          while (ls >> x) f2.push_back(x);
          f2[ri(1, o)] = "unlisted";
          q = l; q[i] = ""; for (auto &y : f2) q[i] += (q[i].empty() ? "" : " ") + y;
          refused(q, "a word without a unigram");
        }
        q = l; q[i] = "x" + l[i];
        refused(q, "a probability that is not a number");
        // the prefix of another n-gram left out
        if (o > 1 && o < m.order) {
          bool used = false;
          G g;
          for (int k = 1; k <= o; k++) for (int w = 0; w < m.V; w++) if (names[w] == f[k]) g.push_back(w);
          for (auto &e : m.t[o]) if (head(e.first) == g) used = true;
          if (used && m.t[o - 1].size() > 1) {
            q = l; q.erase(q.begin() + i); q[o] = fmt("ngram %d=%d", o, (int)m.t[o - 1].size() - 1);
            refused(q, "the prefix of an n-gram missing");
          }
        }
      }
    }
    Lines q(l.begin(), l.begin() + 1);
    q.push_back(""); q.push_back("\\1-grams:"); q.push_back("-1 a"); q.push_back(""); q.push_back("\\end\\");
    refused(q, "no section counts");
    q = l; q.insert(q.begin() + 1, "what is this");
    refused(q, "an unknown header line");
  }
  return done();
}
