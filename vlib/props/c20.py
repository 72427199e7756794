from .. import cou, ndu, rnd, heu, ctu
NOTE = ('The parsers of block, extends, include and import are proved to return the names, paths and nodes that were written (an end name must repeat the name). Context::new is proved to record exactly the blocks that a template defines, however deep they are nested, its macros, imports and its parent, and to refuse only a second extends, a missing file, and extends, import or macro below the top level. Heritage::new is proved: for every chain, the definitions of each block are those of the templates along the chain, the most derived first, and the root is the template that extends nothing. '
        'write_block is proved to emit the nodes of the definition that Heritage selects (super() the next one), in the template that has it, handle_include those of the included template in a scope of its own; the emitted code is also checked against a reference semantics (bounded).')
UNITS = [('definitions of a template', ctu.unit), ('inheritance', heu.unit), ('statements', lambda repo: cou.unit(repo, 'C20')), ('node parsers', lambda repo: ndu.unit(repo, 'C20'))]
def companion(tier): return rnd.c20(tier)
