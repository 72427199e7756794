from .. import rnd, wsu, ndu
NOTE = ('split_ws_parts, should_trim_ws, flush_ws, prepare_ws, handle_ws, visit_lit and write_comment are under contract; the statement of C03 for one text between any two tags is proved from those contracts (client between_tags), for every text, pair of markers and default. '
        'The parsers of the tags are proved to put each marker at its place in the node (one production per tag, for every input; nom is expanded by its definitions), and to skip no blanks outside of tags except around the arms of a match; the marker at the end of a comment is checked against a reference semantics (bounded).')
UNITS = [('whitespace', lambda repo: wsu.unit(repo, 'C03')), ('node parsers', lambda repo: ndu.unit(repo, 'C03'))]
def companion(tier): return rnd.c03(tier)
