import tree
SPECS = [tree.log_prob_i, tree.fetch_gram, tree.find_child, tree.binary_search]
HARNESS = 'c08.cc'
BOUNDED = 'random models (<=12 words, order<=4), every n-gram up to two words longer than the order (or 400 samples)'
BOUNDED_FUNCTIONS = ['TreeGram::convert_to_backoff']
