#include "h.hh"
#define private public
#include "Endian.hh"
#include "TreeGram.hh"
using namespace h;
int main() {
  start();
  for (int rep = 0; rep < (thorough ? 200 : 20); rep++)
    for (int bytes = 0; bytes <= 9; bytes++)
      for (int elems = 0; elems <= 6; elems++)
        for (int skip = 0; skip <= 5; skip++) {
          const int G = 16;
          int n = elems * (bytes + skip);
          std::vector<unsigned char> a(n + 2 * G), b, want;
          for (auto &x : a) x = rnd() >> 20;
          begin(fmt("convert_buffer elems=%d bytes=%d skip=%d", elems, bytes, skip));
          b = want = a;
          for (int e = 0; e < elems; e++)
            for (int k = 0; k < bytes; k++)
              want[G + e * (bytes + skip) + k] = a[G + e * (bytes + skip) + bytes - 1 - k];
          Endian::convert_buffer(&b[G], elems, bytes, skip);
          CHECK(b == want, "convert_buffer result differs: before %s after %s",
                vec(std::vector<int>(a.begin(), a.end())).c_str(), vec(std::vector<int>(b.begin(), b.end())).c_str());
          Endian::convert_buffer(&b[G], elems, bytes, skip);
          CHECK(b == a, "not an involution");
          if (elems == 1) {
            begin(fmt("convert bytes=%d", bytes));
            b = a;
            want = a;
            for (int k = 0; k < bytes; k++) want[G + k] = a[G + bytes - 1 - k];
            Endian::convert(&b[G], bytes);
            CHECK(b == want, "convert result differs");
            
          }
          if (bytes > 1 && elems > 1) nontrivial();
          if (rep == 0 && elems == 3 && bytes == 4) sample();
        }
  // large sizes, counts and gaps
  for (int rep = 0; rep < (thorough ? 3000 : 400); rep++) {
    int big = rep % 4;
    int bytes = big == 0 ? ri(100, 700) : ri(1, 16), elems = big == 1 ? ri(200, 800) : ri(1, 9),
        skip = big == 2 ? ri(200, 70000) : ri(0, 40);
    const int G = 16;
    size_t n = (size_t)elems * (bytes + skip);
    std::vector<unsigned char> a(n + 2 * G), b, want;
    for (auto &x : a) x = rnd() >> 20;
    begin(fmt("convert_buffer elems=%d bytes=%d skip=%d", elems, bytes, skip));
    b = want = a;
    for (int e = 0; e < elems; e++)
      for (int k = 0; k < bytes; k++)
        want[G + (size_t)e * (bytes + skip) + k] = a[G + (size_t)e * (bytes + skip) + bytes - 1 - k];
    Endian::convert_buffer(&b[G], elems, bytes, skip);
    CHECK(b == want, "convert_buffer result differs");
    Endian::convert_buffer(&b[G], elems, bytes, skip);
    CHECK(b == a, "not an involution");
    b = want = a;
    for (int k = 0; k < bytes; k++) want[G + k] = a[G + bytes - 1 - k];
    Endian::convert(&b[G], bytes);
    CHECK(b == want, "convert result differs, bytes=%d", bytes);
    nontrivial();
  }
  for (int rep = 0; rep < 50; rep++) {
    TreeGram t;
    int n = ri(1, 8);
    for (int i = 0; i < n; i++) {
      TreeGram::Node nd;
      int *p = (int *)&nd;
      for (int k = 0; k < 4; k++) p[k] = (int)rnd();
      t.m_nodes.push_back(nd);
    }
    std::vector<unsigned char> a((unsigned char *)&t.m_nodes[0], (unsigned char *)(&t.m_nodes[0] + n)), w = a;
    begin(fmt("flip_endian nodes=%d", n));
    for (size_t i = 0; i < a.size(); i++) w[i] = a[i / 4 * 4 + 3 - i % 4];
    t.flip_endian();
    CHECK(!memcmp(&w[0], &t.m_nodes[0], w.size()), "node bytes after flip differ");
    t.flip_endian();
    CHECK(!memcmp(&a[0], &t.m_nodes[0], a.size()), "double flip is not the identity");
  }
  return done();
}
