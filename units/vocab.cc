// Instantiates the inline functions of Vocabulary.hh.
#include "Vocabulary.hh"
int u_index(const Vocabulary &v, const std::string &s) { return v.word_index(s); }
const std::string &u_word(const Vocabulary &v, int i) { return v.word(i); }
int u_num(const Vocabulary &v) { return v.num_words(); }
void u_copy(Vocabulary &v, Vocabulary &w) { v.copy_vocab_to(w); }
bool u_oov(const Vocabulary &v, int i) { return v.is_oov(i); }
