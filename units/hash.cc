// Instantiates the hash-based model (only repository headers, no code of its own).
#include "HashGram.hh"
template class HashGram_t<int>;
