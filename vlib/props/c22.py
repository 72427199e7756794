from .. import det, cfu
NOTE = ('Proved: a [[syntax]] table is accepted exactly if each delimiter is usable and no start delimiter begins with another one, and fields that are not given have their defaults; the six tag parsers use the delimiter they are named after; '
        'text ends exactly where the first start delimiter stands (skip_till, Lit::parse). Whole templates with random delimiters against the same ones with the defaults are bounded checks.')
UNITS = [('delimiters', cfu.syntax), ('text up to a delimiter', cfu.scanner)]
def companion(tier): return det.c22(tier)
