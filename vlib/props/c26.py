from .. import cou, ndu, rnd
NOTE = ('FilterBlock::parse is proved to build the chain of filters in the order in which they are written, each with its own arguments behind the place for the text. write_filter_block is proved: for every filter block, the emitted code renders the nodes of the block, in a scope of their own, into one text, and applies the filters, with their own arguments, to that text in place of an expression: their first argument is that text through the whole chain (insert_first_filter_argument proved). '
        'That the emitted code means that is also checked against a reference semantics (bounded).')
UNITS = [('statements', lambda repo: cou.unit(repo, 'C26')), ('node parsers', lambda repo: ndu.unit(repo, 'C26'))]
def companion(tier): return rnd.c26(tier)
