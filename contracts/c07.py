import tree
SPECS = [tree.fetch_gram, tree.log_prob_bo, tree.binary_search, tree.find_child]
HARNESS = 'c07.cc'
BOUNDED = 'random models (<=12 words, order<=4), every n-gram up to two words longer than the order (or 500 samples)'
