from .. import cou, exu, ndu, rnd, visu
NOTE = ('All visit_* functions of the generator are under contract: for every expression, the emitted Rust text is exactly its operators, brackets, names and operands in their order (so precedence and associativity are those of the parse), by a specification of the code that is independent of the implementation; layout of the output buffer is proved to insert only spaces at line starts. '
        'The parsers of if, match, let, of patterns and output tags are proved to put each condition, pattern and body at its place, in order (productions). write_if, write_match, write_let, write_expr and the walk over the nodes (handle) are proved to emit, for every node, exactly the conditions, patterns and bodies of their branches, in order. All parsers of expressions are proved to build, from what they read, exactly the tree that the grammar of Rust gives it: operators of one level group to the left, a level has the operators that Rust gives it and its operands are of the next level, prefix operators apply to all that follows, suffixes and filters to all that stands before (productions, for any number of operators). That the emitted code means what it says is checked against a reference semantics (bounded).')
UNITS = [('expression visitors', lambda repo: visu.unit(repo, 'C25')), ('statements', lambda repo: cou.unit(repo, 'C25')), ('node parsers', lambda repo: ndu.unit(repo, 'C25')), ('expression parsers', exu.unit)]
def companion(tier): return rnd.c25(tier)
