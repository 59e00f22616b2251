// Instantiates the trainer classes (only repository headers, no code of its own).
#include "InterKn.hh"
#include "NgramCounts.hh"
#include "VarigramFuncs.hh"
template class InterKn_int_disc<int, int>;
template class InterKn_int_disc3<int, int>;
template class InterKn_int_disc<int, long>;
template class InterKn_int_disc3<int, long>;
template class Storage_t<int, int>;
template class NgramCounts_t<int, int>;
