from .. import rnd, wsu, wru, ndu
NOTE = ('A text between two tags loses nothing but whitespace at its ends and nothing but whitespace is added (split_ws_parts, visit_lit, flush_ws, write_comment and their callees under contract; client text_stays), and the statement that writes it displays it verbatim, in its place (prepare_format, write_buf_writable and lemma_meaning), for every text. '
        'Raw::parse, Node::many and Node::parse are proved: the text of a raw block is what stands between its tags, and no node is lost or moved. The parsers of Lit (proved for C22) and Comment are also checked against a reference semantics (bounded).')
UNITS = [('text', lambda repo: wsu.unit(repo, 'C04')), ('output statements', lambda repo: wru.unit(repo, 'C04')), ('node parsers', lambda repo: ndu.unit(repo, 'C04'))]
def companion(tier): return rnd.c04(tier)
