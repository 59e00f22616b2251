#include "h.hh"
#define private public
#define protected public
#include "Vocabulary.hh"
#include "TreeGram.hh"
using namespace h;
static std::vector<std::string> pool;
static void same(Vocabulary &v, const std::vector<std::string> &ref) {
  CHECK(v.num_words() == (int)ref.size(), "num_words %d, expected %zu", v.num_words(), ref.size());
  for (size_t i = 0; i < ref.size(); i++) {
    CHECK(v.word(i) == ref[i], "word(%zu) is '%s', expected '%s'", i, v.word(i).c_str(), ref[i].c_str());
    CHECK(v.word_index(ref[i]) == (int)i, "index of '%s' is %d, expected %zu", ref[i].c_str(), v.word_index(ref[i]), i);
  }
  for (auto &w : pool)
    if (std::find(ref.begin(), ref.end(), w) == ref.end())
      CHECK(v.word_index(w) == 0, "index of the unknown word '%s' is %d", w.c_str(), v.word_index(w));
  CHECK(v.is_oov(0) && !v.is_oov(1) && !v.is_oov(-1 + (int)ref.size() + 1), "is_oov");
}
int main() {
  start();
  for (int i = 0; i < 30; i++) pool.push_back(i % 3 ? fmt("w%d", i) : fmt("%c%s", 'A' + i / 3, i % 2 ? "x" : ""));
  pool.push_back("<UNK>"); pool.push_back("<s>"); pool.push_back("</s>"); pool.push_back("\xc3\xa4iti"); pool.push_back("unk");
  pool.push_back(std::string(300, 'l')); pool.push_back("a b"); pool.push_back("W1"); pool.push_back("");
  for (int rep = 0; rep < (thorough ? 20000 : 1500); rep++) {
    Vocabulary v;
    std::vector<std::string> ref(1, "<UNK>");
    std::string log = "ops:";
    begin((const std::string &)log);
    same(v, ref);
    int n = ri(0, 25);
    for (int o = 0; o < n; o++) {
      int op = ri(0, 19);
      if (op < 14) {
        const std::string &w = pool[ri(0, pool.size() - 1)];
        auto it = std::find(ref.begin(), ref.end(), w);
        int want = it - ref.begin();
        if (it == ref.end()) ref.push_back(w);
        log += " add(" + w + ")";
        cur = log;
        int r = v.add_word(w);
        CHECK(r == want, "add_word('%s') gave %d, expected %d", w.c_str(), r, want);
      } else if (op == 14) {                       // the unknown word is given another name: everything is discarded
        const std::string &w = pool[ri(0, pool.size() - 1)];
        log += " set_oov(" + w + ")";
        cur = log;
        if (ref[0] != w) ref.assign(1, w);
        v.set_oov(w);
      } else if (op == 15) {
        log += " set_oov(same)";
        cur = log;
        v.set_oov(ref[0]);
      } else if (op == 16) {
        log += " clear";
        cur = log;
        v.clear_words();
        CHECK(v.num_words() == 0, "words left after clear_words");
        for (auto &w : pool) CHECK(v.word_index(w) == 0, "index of '%s' after clear_words", w.c_str());
        ref.clear();
        const std::string &w = pool[ri(0, pool.size() - 1)];
        CHECK(v.add_word(w) == 0, "first word after clear_words");
        ref.push_back(w);
      } else if (op == 17) {
        log += " copy";
        cur = log;
        Vocabulary q;
        for (int k = ri(0, 3); k > 0; k--) q.add_word(pool[ri(0, pool.size() - 1)]);
        v.copy_vocab_to(q);
        same(q, ref);
        v = q;
      } else if (op == 18) {                       // a list of words, one on each line
        log += " read(";
        FILE *f = fopen("voc.txt", "w");
        std::vector<std::string> add;
        for (int k = ri(0, 6); k > 0; k--) {
          std::string w = pool[ri(0, pool.size() - 1)];
          if (w == "" || w == "a b") continue;
          fprintf(f, "%s%s%s%s", ri(0, 3) ? "" : "\t", w.c_str(), ri(0, 3) ? "" : "\t", k == 1 && ri(0, 1) ? "" : "\n");
          if (ri(0, 4) == 0) fputs("\n", f);
          add.push_back(w);
          log += " " + w;
        }
        fclose(f);
        log += ")";
        cur = log;
        if (ri(0, 1)) v.read("voc.txt"); else { f = fopen("voc.txt", "r"); v.read(f); fclose(f); }
        for (auto &w : add) if (std::find(ref.begin(), ref.end(), w) == ref.end()) ref.push_back(w);
      } else {                                     // written and read back into an empty vocabulary
        log += " write/read";
        cur = log;
        bool plain = true;
        for (auto &w : ref) if (w == "" || w == "a b") plain = false;
        if (!plain) continue;
        FILE *f = fopen("voc2.txt", "w");
        v.write(f);
        fclose(f);
        Vocabulary q;
        q.set_oov(ref[0]);
        q.read("voc2.txt");
        same(q, ref);
      }
      same(v, ref);
    }
    if (n > 4) nontrivial();
    if (rep < 5) sample();
  }
  // large vocabulary
  Vocabulary v;
  begin("20000 words");
  for (int i = 1; i <= 20000; i++) CHECK(v.add_word(fmt("%d-%d", i * 7919 % 20011, i)) == i, "index of new word %d", i);
  for (int i = 1; i <= 20000; i++) CHECK(v.word_index(v.word(i)) == i && v.add_word(v.word(i)) == i, "word %d", i);
  CHECK(v.num_words() == 20001, "num_words");
  // an index that was never given out is refused
  begin("word(index) out of range");
  CHECK(child([&] { v.word(20001); return 0; }) != 0, "word(20001) of 20001 words returned");
  CHECK(child([&] { v.word(-1); return 0; }) != 0, "word(-1) returned");
  return done();
}
