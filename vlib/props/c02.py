from .. import rnd, visu, wru
NOTE = ('The wrapping of every output expression is under contract: the visitors report an expression as already escaped exactly for safe, escape and e, whose emitted calls name the escaper of the template or of the argument (proved for every expression); named_expression wraps every other expression in the escaper exactly once. '
        'That every tag of a template passes through these functions is checked against a reference semantics (bounded).')
UNITS = [('expression visitors', lambda repo: visu.unit(repo, 'C02')), ('output statements', lambda repo: wru.unit(repo, 'C02'))]
def companion(tier): return rnd.c02(tier)
