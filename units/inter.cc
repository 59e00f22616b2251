// The mixture together with its component class (only repository sources, no code of its own).
#include "TreeGram.cc"
#include "InterTreeGram.cc"
