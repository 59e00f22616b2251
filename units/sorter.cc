// Instantiates the inline functions of GramSorter.hh.
#include "GramSorter.hh"
GramSorter::Gram u_gram(GramSorter &s, int i) { return s.gram(i); }
GramSorter::Data u_data(GramSorter &s, int i) { return s.data(i); }
int u_num(GramSorter &s) { return s.num_grams(); }
