from .. import det, nsu
NOTE = ('The nesting budget is proved: Level and State nest and leave in balance, every parser that gets a level or a State (48 functions of expr.rs, node.rs and lib.rs, as slices that keep levels, calls and exits) leaves '
        'the level as it found it on every path, and at most 7 parsers follow each other at one level, so that recursion never exceeds 129 levels. That no text makes the parser panic is checked on generated texts (bounded).')
UNITS = [('nesting', nsu.unit)]
def companion(tier): return det.c15(tier)
