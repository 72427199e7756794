from .. import det, exu, liu, visu
NOTE = ('The code emitted for a literal is exactly the text of the literal in the template, in its own quotes (contracts of visit_bool_lit, visit_num_lit, visit_str_lit, visit_char_lit, visit_expr, for every text), and the parsers return each literal as that which it is (Expr::num, str, char, path_var_bool). '
        'What is taken as a literal is proved for every text: a string ends at the first quote that no backslash precedes, a character is one of the forms that Rust has with a value that Rust allows, and a number has the form of an integer or float of Rust (num_lit, separated_digits, str_lit, char_lit, Char::parse). That whole templates with them mean what Rust says is checked against rustc (bounded).')
UNITS = [('expression visitors', lambda repo: visu.unit(repo, 'C16')), ('literal parsers', lambda repo: exu.unit(repo, 'C16', ('num', 'str', 'char', 'path_var_bool'))), ('texts of literals', lambda repo: liu.unit(repo, 'C16', ('str_lit', 'char_parse', 'char_lit', 'separated_digits', 'num_lit')))]
def companion(tier): return det.c16(tier)
