from .. import cou, exu, ndu, rnd, scu
NOTE = ('The chain of scopes (MapChain: push, pop, insert, get, resolve, parents), LocalMeta, visit_target (which names a pattern binds) and is_shadowing_variable are proved: a name resolves to the innermost definition in it, '
        'and what an inner scope defines is gone after its end. The parsers of targets, let, macro and call and those of arguments are proved to return the names and parts that were written, in order, with each name once and names last (productions). The statements of the generator are proved to open and close scopes where their bodies begin and end, and calls of macros to pass what the arguments mean in the scope of the caller (open findings below: what an argument that is passed by name means later); the emitted code is also checked against a reference semantics (bounded).')
UNITS = [('scopes', scu.unit), ('statements', lambda repo: cou.unit(repo, 'C19')), ('node parsers', lambda repo: ndu.unit(repo, 'C19')), ('parsers of arguments', lambda repo: exu.unit(repo, 'C19', ('named_argument', 'arguments')))]
def companion(tier): return rnd.c19(tier)
