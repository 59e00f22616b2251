// C22: string helpers and safe logarithms against independent references.
#include "h.hh"
#include "str.hh"
#include "def.hh"
#include <cstring>
using namespace h;
static std::string rstr(const char *alpha, int maxlen) { std::string s; int n = ri(0, 3) ? ri(0, maxlen) : ri(0, 3); int k = strlen(alpha); for (int i = 0; i < n; i++) s += alpha[ri(0, k - 1)]; return s; }
static std::string show(const std::string &s) { std::string o; for (unsigned char c : s) o += c < 32 || c > 126 ? fmt("\\x%02x", c) : std::string(1, (char)c); return "\"" + o + "\""; }
static std::string show(const std::vector<std::string> &v) { std::string o = "["; for (auto &s : v) o += show(s) + ","; return o + "]"; }
// fields by the documented rule
static std::vector<std::string> refsplit(const std::string &s, const std::string &d, bool group, int num) {
  std::vector<std::string> f; size_t i = 0, n = s.size();
  while (i < n) {
    if (num > 0 && (int)f.size() == num - 1) { f.push_back(s.substr(i)); break; }
    size_t e = s.find_first_of(d, i);
    if (e == std::string::npos) { f.push_back(s.substr(i)); break; }
    f.push_back(s.substr(i, e - i));
    i = e + 1;
    if (group) { i = s.find_first_not_of(d, i); if (i == std::string::npos) i = n; }
  }
  return f;
}
int main() {
  start();
  int N = thorough ? 200000 : 30000;
  static const char *alphas[] = {"a ", "ab \t", "abc,", "x\t \n", "0123-", "\xc3\xa4 b", ";,a"};
  static const char *dels[] = {" ", " \t", ",", " \t\n", "-", ",;", "a"};
  for (int k = 0; k < N; k++) {
    const char *al = alphas[ri(0, 6)], *de = dels[ri(0, 6)];
    std::string s = rstr(al, 24); bool group = ri(0, 1); int num = ri(0, 2) ? 0 : ri(1, 4);
    begin(fmt("split %s delimiters %s group=%d fields=%d", show(s).c_str(), show(de).c_str(), group, num));
    if (k < 5) sample();
    std::vector<std::string> f(ri(0, 3), "old");
    std::string in = s; str::split(&in, de, group, &f, num);
    CHECK(in == s, "the input changed");
    std::vector<std::string> e = refsplit(s, de, group, num);
    CHECK(f == e, "fields %s, expected %s", show(f).c_str(), show(e).c_str());
    if (f.size() > 2) nontrivial();
    if (strlen(de) == 1 && !group && num == 0) {   // joining gives the string back (one trailing delimiter makes no field)
      std::string j; for (size_t i = 0; i < f.size(); i++) j += (i ? de : "") + f[i];
      CHECK(j == s || j + de == s, "joined %s", show(j).c_str());
    }
    // trimming
    const char *ch = dels[ri(0, 6)];
    begin(fmt("clean %s of %s", show(s).c_str(), show(ch).c_str()));
    std::string c = s; str::clean(&c, ch);
    size_t a = s.find_first_not_of(ch), b = s.find_last_not_of(ch);
    std::string ce = a == std::string::npos ? "" : s.substr(a, b - a + 1);
    CHECK(c == ce, "gives %s", show(c).c_str());
    begin(fmt("chomp %s", show(s).c_str()));
    c = s; str::chomp(&c);
    ce = !s.empty() && s.back() == '\n' ? s.substr(0, s.size() - 1) : s;
    CHECK(c == ce, "gives %s", show(c).c_str());
    // integers
    std::string t = ri(0, 2) ? rstr("0123456789", 9) : rstr("0123456789-+ x.e", 8);
    if (ri(0, 4) == 0) t = "-" + t;
    if (ri(0, 6) == 0) t = " " + t;
    if (ri(0, 9) == 0) t += " ";
    if (ri(0, 9) == 0) t = fmt("%ld", (long)(rnd() & 0x7ffffffffffffffeULL) - (ri(0, 1) ? 4611686018427387904L : 0));
    begin(fmt("str2long %s", show(t).c_str()));
    for (int pre = 0; pre < 2; pre++) {
      bool ok = pre; long v = ri(0, 1) ? str::str2long(&t, &ok) : str::str2long(t.c_str(), &ok);
      size_t i = 0; while (i < t.size() && isspace((unsigned char)t[i])) i++;
      bool neg = false; if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
      size_t d0 = i; unsigned long r = 0; while (i < t.size() && isdigit((unsigned char)t[i])) r = r * 10 + (t[i++] - '0');
      bool good = i == t.size() && i > d0;
      CHECK(ok == (good && pre), "%s (flag %d before, %d after)", good ? "refused" : "accepted", pre, ok);
      if (good) CHECK(v == (neg ? -(long)r : (long)r), "value %ld", v);
    }
    // floats
    t = ri(0, 1) ? fmt(ri(0, 1) ? "%g" : "%.9f", (rd() - 0.5) * pow(10, ri(-6, 9))) : rstr("0123456789.-+e ", 7);
    if (ri(0, 9) == 0) t += ri(0, 1) ? "x" : " ";
    begin(fmt("str2float %s", show(t).c_str()));
    for (int pre = 0; pre < 2; pre++) {
      size_t i = 0, n = t.size(); while (i < n && t[i] == ' ') i++;
      if (i < n && (t[i] == '-' || t[i] == '+')) i++;
      size_t dg = 0; while (i < n && isdigit((unsigned char)t[i])) i++, dg++;
      if (i < n && t[i] == '.') { i++; while (i < n && isdigit((unsigned char)t[i])) i++, dg++; }
      bool good = dg > 0; int ex = 0;
      if (good && i < n && t[i] == 'e') { size_t j = i + 1; if (j < n && (t[j] == '-' || t[j] == '+')) j++; size_t j0 = j; while (j < n && isdigit((unsigned char)t[j])) j++; if (j > j0) { ex = atoi(t.c_str() + j0); i = j; } }
      good = good && i == n;
      if (ex > 25) break;       // may leave the range
      bool ok = pre; double v = ri(0, 1) ? str::str2float(&t, &ok) : str::str2float(t.c_str(), &ok);
      CHECK(ok == (good && pre), "%s (flag %d before, %d after)", good ? "refused" : "accepted", pre, ok);
      if (good) CHECK(v == (double)(float)strtod(t.c_str(), NULL), "value %g", v);
    }
    // logarithms
    double x = ri(0, 4) == 0 ? (ri(0, 1) ? 0 : -rd()) : ri(0, 1) ? rd() : rd() * pow(10, -ri(0, 320));
    begin(fmt("safelogprob %.17g", x));
    double l = safelogprob(x), l2 = safelogprob2(x);
    CHECK(std::isfinite(l) && l >= -60 - 1e-12, "is %g", l);
    CHECK(l == (x > 1e-60 ? log10(x) : -60), "is %.17g", l);
    CHECK(l2 == (x < 0 ? 0 : l), "safelogprob2 is %.17g", l2);
  }
  // lists of integers
  for (int k = 0; k < 500; k++) {
    std::string s; std::vector<int> e; int n = ri(0, 6);
    for (int i = 0; i < n; i++) { int v = ri(-1000, 1000); e.push_back(v); s += fmt("%d", v) + (i + 1 < n || ri(0, 1) ? (ri(0, 1) ? " " : "\t ") : ""); }
    begin("long_vec " + show(s));
    bool ok = true; std::vector<int> g = str::long_vec<int>(s, &ok);
    CHECK(ok && g == e, "gives %s", vec(g).c_str());
  }
  // lines and blocks of a file, across the internal buffer size
  for (int k = 0; k < (thorough ? 400 : 60); k++) {
    std::string all; std::vector<std::string> lines; int n = ri(0, 8);
    for (int i = 0; i < n; i++) { int len = ri(0, 3) ? ri(0, 40) : ri(0, 2) ? ri(4093, 4097) * ri(1, 2) - ri(0, 1) : ri(4080, 4110) * ri(1, 2); std::string l; while ((int)l.size() < len) l += (char)ri(33, 126); lines.push_back(l); all += l; if (i + 1 < n || ri(0, 1)) all += "\n"; else if (l.empty()) lines.pop_back(); }
    begin(fmt("read_line: %d lines, %d bytes", n, (int)all.size()));
    FILE *f = tmpfile(); fwrite(all.data(), 1, all.size(), f);
    for (int ch = 0; ch < 2; ch++) {
      rewind(f); std::string l = "old", j; size_t i = 0;
      while (str::read_line(&l, f, ch)) {
        CHECK(i < lines.size(), "too many lines");
        std::string w = l; if (!ch) { if (!w.empty() && w.back() == '\n') w.pop_back(); j += l; }
        CHECK(w == lines[i], "line %d is %s", (int)i, show(w.substr(0, 80)).c_str()); i++;
      }
      CHECK(i == lines.size(), "%d of %d lines", (int)i, (int)lines.size());
      if (!ch) CHECK(j == all, "lines do not add up");
    }
    rewind(f); std::string w; size_t want = ri(0, 2) ? ri(0, (int)all.size() + 3) : all.size();
    bool r = str::read_string(&w, want, f);
    CHECK(r == (want <= all.size()), "read_string of %d bytes from %d: %d", (int)want, (int)all.size(), r);
    if (r) CHECK(w == all.substr(0, want), "read_string of %d bytes differs", (int)want);
    rewind(f); size_t lim = ri(0, 1) ? 0 : ri(1, (int)all.size() + 10);
    r = str::read_file(&w, f, lim);
    CHECK(r && w == (lim ? all.substr(0, lim) : all), "read_file with limit %d gives %d bytes of %d", (int)lim, (int)w.size(), (int)all.size());
    fclose(f);
  }
  for (int k = 0; k < 200; k++) { int n = ri(1, 40); std::string s = rstr("abcdef", 60); begin(fmt("fmt size %d of %d bytes", n, (int)s.size())); std::string g = str::fmt(n, "%s", s.c_str()); CHECK(g == s.substr(0, n - 1), "gives %s", g.c_str()); }
  begin("numbers out of range end the program");
  int r = child([] { bool ok = true; str::str2long("99999999999999999999", &ok); return 0; });
  CHECK(r == 1, "str2long: %d", r);
  r = child([] { bool ok = true; str::str2float("1e99", &ok); return 0; });
  CHECK(r == 1, "str2float: %d", r);
  return done();
}
