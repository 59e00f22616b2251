"""C03: words and indices form a bijection with the unknown word at 0."""
import vocab
SPECS = vocab.SPECS
HARNESS = 'c03.cc'
BOUNDED = 'random operation sequences (add, look up, read, write, set_oov, clear, copy) against a reference vocabulary'
BOUNDED_FUNCTIONS = ['Vocabulary::read', 'Vocabulary::write']
