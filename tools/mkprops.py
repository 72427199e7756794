"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ESC = "askama_escape/src/lib.rs"; FIL = "askama/src/filters/mod.rs"; GEN = "askama_derive/src/generator.rs"
INP = "askama_derive/src/input.rs"; CFG = "askama_derive/src/config.rs"; HER = "askama_derive/src/heritage.rs"
NODE = "askama_parser/src/node.rs"; PLIB = "askama_parser/src/lib.rs"; PEXP = "askama_parser/src/expr.rs"
HELP = "askama/src/helpers.rs"; LIB = "askama/src/lib.rs"; JSON = "askama/src/filters/json.rs"

prop("C01", "HTML escaping is exact, for every value and however it is written",
  "Displaying a value through the HTML escaper replaces each of the characters < > & \" ' by &lt; &gt; &amp; &quot; &#x27; respectively and leaves every other character unchanged and in order, whatever the value and into whatever pieces it splits itself while being written. A value marked safe is displayed verbatim, and the text escaper changes nothing. A write error of the destination is passed on.",
  ["inputs"], "all Unicode strings, all ways a Display implementation can split its output into write calls (strings, single characters, format arguments), all destinations that accept or refuse writes",
  "The tests escape five short strings, each written in one piece; the guarantee is about every string, every position of a special character next to multi-byte characters, and every chunking.",
  [ESC, FIL], [("Html::write_escaped", ESC), ("EscapeWriter", ESC), ("MarkupDisplay::fmt", ESC), ("escape()/safe filters", FIL)],
  ["askama_escape::escape", "askama_escape::MarkupDisplay", "askama::filters::{escape, safe}"])

prop("C02", "Each template expression is escaped exactly once, unless marked safe",
  "The text of every {{ expression }} of a rendered template goes exactly once through the escaper chosen for that template, wherever the expression stands (loops, conditions, matches, macros, blocks, parent templates, includes, filter blocks) and however often it occurs. The only exceptions are expressions whose outermost filter is safe, which are emitted verbatim, and escape (or e), which are escaped once by the escaper named in its argument or else by that of the template.",
  ["programs", "inputs"], "all templates (expressions, filter chains, nesting, escaping mode, extension) and all field values",
  "Tests render a few dozen fixed templates with fixed values; escaping must hold for each combination of filter chain, position and value.",
  [GEN, INP, FIL, ESC], [("visit_expr and visit_filter decide whether the result is wrapped already", GEN), ("named_expression wraps what is not", GEN), ("escaper lookup by extension", INP)],
  ["Template::render of derived templates"])

prop("C03", "Whitespace next to a tag follows its control marker or the default",
  "Whitespace between text and a tag ({{ }}, {% %} or {# #}) is kept, removed, or reduced to one character (a newline if it contained a newline, else a space) as the marker (+, -, ~) at that end of the tag demands, or as configured by default where there is no marker. Whitespace that separates two tags without other text follows the stronger of the two demands: suppress, then minimize, then preserve. No marker or default affects any other character of the output.",
  ["programs", "configurations"], "all templates, all positions and markers of all kinds of tags, all three defaults, all whitespace runs",
  "Tests sample some marker pairs on some kinds of tags with short whitespace runs; the state carried from one tag to the next depends on the whole sequence of nodes.",
  [GEN, NODE, CFG], [("flush_ws, prepare_ws, handle_ws, should_trim_ws, visit_lit", GEN), ("split_ws_parts", NODE), ("WhitespaceHandling", CFG)],
  ["Template::render of derived templates"],
  [("pending whitespace", "whitespace seen but not yet written", GEN), ("skip mode", "demand of the tag before the current literal", GEN)])

prop("C04", "Literal text reaches the output verbatim; comments produce nothing",
  "Text outside of tags and the content of raw blocks appear in the output unchanged, character by character and in order, including braces, quotes, backslashes, control characters and any Unicode, apart from whitespace control. Comments, nested ones included, produce no output. Exactly one newline at the very end of a template file is dropped.",
  ["programs", "inputs"], "all template texts",
  "Tests contain a few special characters; the generated code goes through Rust string literals and format strings, where every character and every neighbourhood of braces, quotes and escapes counts.",
  [GEN, NODE, INP, PLIB], [("prepare_format doubles braces of literals", GEN), ("write_buf_writable writes literals as Rust strings", GEN), ("Lit and Raw and Comment parsers", NODE), ("get_template_source", INP)],
  ["Template::render of derived templates", "askama_parser::Ast"])

prop("C05", "truncate cuts at a character boundary, and marks the cut",
  "The truncate filter shows its input in full if cutting it after the given number of bytes, rounded up to the next character boundary, would remove nothing; otherwise it shows exactly that prefix followed by three dots. The result does not depend on the pieces in which the input value writes itself. It never panics.",
  ["inputs"], "all strings, all lengths, all chunkings of the value's display output",
  "Tests truncate a dozen strings written in one piece (and one in single characters); the cut position interacts with chunk boundaries and multi-byte characters.",
  [FIL], [("TruncateFilter and its Writer", FIL)], ["askama::filters::truncate"])

prop("C06", "indent adds the given number of spaces after each newline, and nothing else",
  "The indent filter inserts the given number of spaces after every newline that is not the last byte of the input, and changes nothing else. Inputs of 10000 bytes or more and widths of 10000 or more return the input unchanged.",
  ["inputs"], "all strings and widths",
  "Tests indent four strings; the property is about each newline, the end of the input and multi-byte characters, and the limits.",
  [FIL], [("indent", FIL)], ["askama::filters::indent"])

prop("C07", "linebreaks, linebreaksbr and paragraphbreaks only turn newlines into markup",
  "linebreaksbr replaces each newline by <br/>. linebreaks replaces each pair of newlines (taken from the left) by a paragraph break, each remaining newline by <br/>, and wraps the whole in one paragraph; paragraphbreaks does the same with pairs only, leaves single newlines alone, and contains no empty paragraph. All other text is unchanged.",
  ["inputs"], "all strings",
  "Tests use four short strings; runs of newlines at the start, in the middle and at the end interact with the removal of empty paragraphs.",
  [FIL], [("linebreaks, linebreaksbr, paragraphbreaks", FIL)], ["askama::filters::{linebreaks, linebreaksbr, paragraphbreaks}"])

prop("C08", "The case, trim and word filters treat every character as documented",
  "lower and upper (and their aliases) convert the whole string by the Unicode case mappings; capitalize converts the first character to upper case and all the rest to lower case; title starts every whitespace-separated word in upper case, puts its remaining characters in lower case and keeps all whitespace. trim removes exactly the leading and trailing whitespace, however the value is split while it is written; wordcount counts the whitespace-separated words.",
  ["inputs"], "all Unicode strings, and all chunkings for trim",
  "Tests use ASCII words and few others; characters whose case mappings have several characters, or other lengths, and chunked values are not sampled.",
  [FIL], [("lower, upper, capitalize, title, trim, wordcount", FIL)], ["askama::filters"])

prop("C09", "join writes all items in order with the separator strictly between them",
  "The join filter displays every item of the iterable once and in order, with the separator displayed between each two neighbours, and neither before the first nor after the last; an empty iterable gives the empty text. A write error is passed on.",
  ["inputs"], "all iterables of displayable items, all separators, including empty items",
  "Tests join four fixed lists.",
  [FIL], [("JoinFilter", FIL)], ["askama::filters::join"])

prop("C10", "json output denotes the same value and is inert in HTML",
  "The text of the json filter is valid JSON which decodes to exactly the serialized value. It contains none of the characters & < > ', so that it cannot end a script element, an attribute in apostrophes, or start markup.",
  ["inputs"], "all serializable values, all strings inside of them, however the serializer splits its output",
  "Tests serialize four fixed values; the property is about every string that a value can contain.",
  [JSON], [("JsonWriter and its escaping loop", JSON)], ["askama::filters::json"])

prop("C11", "urlencode output is inert in URLs and decodes to the same text",
  "urlencode_strict leaves exactly the ASCII letters, digits and _ . - ~ unchanged and writes every other byte of the UTF-8 form as % and two upper-case hexadecimal digits; urlencode does the same but also leaves / unchanged. The result does not depend on the pieces in which the value writes itself.",
  ["inputs"], "all strings and all chunkings",
  "Tests cover most ASCII punctuation and a few accented letters, in one piece.",
  [FIL], [("URLENCODE sets and UrlencodeFilter", FIL)], ["askama::filters::{urlencode, urlencode_strict}"])

prop("C12", "for loops visit every item once, with correct loop variables and else",
  "A for loop renders its body once for each item that the optional condition accepts, in order; inside, loop.index counts these items from one, loop.index0 from zero, loop.first and loop.last hold exactly for the first and last of them, and loop.cycle picks by position. The else part is rendered exactly when no item was visited, and break and continue act on the innermost loop.",
  ["inputs", "programs"], "all iterators and their lengths (zero and one included), all conditions, all nestings of loops",
  "Tests iterate over a few fixed vectors.",
  [HELP, GEN], [("TemplateLoop", HELP), ("write_loop", GEN), ("visit_attr for loop.*", GEN)], ["Template::render of derived templates", "askama::helpers::TemplateLoop"])

prop("C13", "All ways to render a template agree, and errors are reported",
  "render, render_into, write_into, Display and the object-safe variants produce the same bytes for the same template value, and the object-safe variants report the same extension, size hint and MIME type. An error of the destination writer or of a filter is reported as an error by the entry point used (render never returns a truncated text as success). Rendering through a reference is the same as rendering the value.",
  ["inputs", "fault_sequences"], "all template values, and all destinations, including those that fail after any number of bytes",
  "Tests compare the ways once for a constant template and never with failing destinations.",
  [LIB], [("default methods of Template", LIB), ("impl Template for &T", LIB), ("DynTemplate", LIB), ("impl_display", GEN)], ["askama::Template", "askama::DynTemplate"])

prop("C14", "Web framework responses carry the rendering, its type, or a server error",
  "With each of the web framework integrations, returning a template gives a response with success status whose body is exactly the rendered text and whose content type is the MIME type of the template. If rendering fails the response has status 500 and none of the partially rendered text.",
  ["inputs", "fault_sequences"], "all templates and values, all extensions, all points at which rendering may fail",
  "Each integration has a handful of tests with constant templates; none renders a failing template.",
  ["askama_axum/src/lib.rs", "askama_actix/src/lib.rs", "askama_rocket/src/lib.rs", "askama_warp/src/lib.rs"],
  [("into_response and try_into_response of each crate", "askama_*/src/lib.rs")], ["HTTP responses"])

prop("C15", "The template parser is total, and its nesting budget is balanced",
  "Parsing any text ends without a crash, in a syntax tree or in an error. Nesting deeper than the fixed limit is refused with an error; and constructs that merely follow each other never use up the limit, however many there are and whether or not attempts to parse them failed.",
  ["inputs"], "all texts and lengths, all nesting depths of all constructs",
  "Tests parse a few hundred short templates and some found by fuzzing; one leak of the budget per construct shows only after more than a hundred of them.",
  [NODE, PEXP, PLIB], [("Level::nest and State::nest/leave", PLIB), ("Node::parse, Target::parse, Expr::parse", NODE)], ["askama_parser::Ast::from_str"],
  [("level", "current nesting depth", PLIB)])

prop("C16", "Literals in templates denote the same values as in Rust",
  "A boolean, number, string, or character literal accepted in a template has, when it is rendered, compared or passed on, the value that the same literal has in Rust, and malformed literals are refused when the template is compiled.",
  ["inputs", "programs"], "all literals: escapes, numeric bases, suffixes, underscores, exponents, Unicode escapes",
  "Tests hold about forty literals.",
  [PLIB, PEXP, GEN], [("str_lit, char_lit, num_lit, bool_lit", PLIB), ("visit_str_lit and friends", GEN)], ["Template::render of derived templates", "askama_parser::Ast"])

prop("C17", "Rust keywords can be used as names in templates",
  "A field, template variable, loop variable or macro argument may have the name of any Rust keyword, except for self, Self, super, crate, loop and the boolean literals, and then denotes the item which Rust calls r#name. Every name that is not a keyword denotes the item of exactly that name.",
  ["inputs", "programs"], "all identifiers",
  "Tests use each keyword once as a field of one struct; near misses of the keyword table (same length, prefix, padding) are not sampled.",
  [GEN], [("normalize_identifier", GEN)], ["Template::render of derived templates"])

prop("C18", "Every occurrence of an expression renders its own value",
  "Each {{ expression }} that is reached renders the value its expression has at that place and time: literals and fields may be shared, but a call, a macro, a filter or a fallible expression is evaluated anew at each occurrence, in order, exactly once. The text before, between and after the occurrences stays in its place.",
  ["programs", "inputs", "histories"], "all sequences of expressions, equal or different, pure or not",
  "The tests render one template that repeats calls; what may be shared depends on the whole structure of the expression.",
  [GEN], [("is_cacheable", GEN), ("named_expression and its cache", GEN), ("prepare_format", GEN)], ["Template::render of derived templates"])

prop("C19", "Template variables are lexically scoped",
  "A name refers to the innermost enclosing definition that precedes its use (let, loop variable, match or if-let binding, macro argument) and otherwise to the field of the template struct; output that precedes a definition shows the earlier meaning of the name. A definition inside of a loop, branch, block, macro, filter block or included template has no effect after its end, and a block does not see the variables of the template that surrounds it.",
  ["programs"], "all nestings and sequences of definitions, uses and scopes",
  "Tests contain about a dozen scoping situations; shadowing depends on deferred writes and on the order of all definitions.",
  [GEN], [("MapChain", GEN), ("write_let and is_shadowing_variable", GEN), ("write_if, write_match, write_loop, write_call, write_block, handle_include", GEN)], ["Template::render of derived templates"],
  [("scopes", "stack of variable maps", GEN), ("pending output", "writes not yet emitted", GEN)])

prop("C20", "Template inheritance renders the most derived block; super() the next one",
  "Rendering a template that extends others renders the root ancestor, where each block is replaced by the definition closest to the rendered template in the chain; super() inside of a block renders the next definition up the chain, through any number of levels. Text outside of blocks in a derived template does not appear in the output, and rendering a single block gives exactly what that block contributes.",
  ["programs", "configurations"], "all inheritance chains, all distributions of block definitions over them, nested blocks and super() calls",
  "Tests use chains of at most three templates with few blocks.",
  [HER, GEN], [("Heritage::new", HER), ("Context::new", HER), ("write_block", GEN)], ["Template::render of derived templates"])

prop("C21", "Cyclic inheritance is reported, and acyclic inheritance is accepted",
  "Compiling a template whose chain of extends never ends (it reaches some template twice) fails with an error that says so, whether or not the cycle contains the compiled template itself. Every finite chain is accepted, also if several templates share ancestors, includes or imports.",
  ["configurations", "programs"], "all finite graphs of templates",
  "Two tests have cycles of one and two templates through the compiled template.",
  [INP, HER], [("find_used_templates and its dependency graph", INP), ("Heritage::new walks the chain", HER)], ["compilation of derived templates"])

prop("C22", "Custom delimiters are honoured, and unusable ones are refused",
  "With accepted custom delimiters, made of characters that have no other meaning inside of tags, a template written with them renders exactly as the same template written with the default ones, and the default delimiters that were replaced are plain text. A configuration with a delimiter that is shorter than two bytes, contains whitespace, equals a multi-character operator, or with a start delimiter that begins with another start delimiter, is refused when the template is compiled.",
  ["configurations", "programs"], "all sets of delimiters, all templates",
  "Tests use two custom syntaxes and a few refused ones.",
  [CFG, PLIB, NODE], [("TryInto<Syntax> for RawSyntax", CFG), ("tag_block_start and friends", PLIB), ("Lit parser", NODE)], ["Template::render of derived templates", "askama.toml"])

prop("C23", "Templates and settings are looked up as documented",
  "A template path is searched in the configured directories in order and the first existing file is used; relative to an including, extending or importing template, a file next to it takes precedence; a missing one is an error. An escaping mode, whitespace default, syntax or block given at the template takes precedence over the configuration file, which takes precedence over the built-in default.",
  ["configurations"], "all configurations, directory layouts and attribute combinations",
  "Tests check some settings one at a time.",
  [CFG, INP], [("Config::new, find_template", CFG), ("TemplateInput::new", INP)], ["compilation of derived templates", "askama.toml"])

prop("C24", "Escaper and MIME type follow from the file extension",
  "The escaper of a template is determined by its escape attribute or else its file extension: HTML for html, htm, svg, xml and j2, jinja, jinja2; none for md, none, txt, typ, yml and no extension; configured escapers take precedence, and an extension without escaper is an error. For the reported extension and MIME type a final j2, jinja or jinja2 of a file name is ignored in favour of an extension before it, an ext attribute takes precedence, and text types are reported as UTF-8.",
  ["configurations"], "all file names, ext and escape attributes",
  "Tests list about a dozen file names.",
  [CFG, INP], [("DEFAULT_ESCAPERS and Config::new", CFG), ("TemplateInput::extension, extension_to_mime_type, TEXT_TYPES", INP)], ["Template::MIME_TYPE", "Template::EXTENSION", "Template::render"])

prop("C25", "Conditions, matches and expressions mean what they mean in Rust",
  "if/else if/else renders exactly the first branch whose condition holds, match renders exactly the first arm whose pattern fits, and operators, ranges, indexing, attribute access, calls and filters compute what the corresponding Rust expression computes, with the precedence and associativity of Rust.",
  ["programs", "inputs"], "all expressions and control structures and all values",
  "Tests sample some dozens of expressions.",
  [GEN, PEXP, NODE], [("expr_prec_layer!", PEXP), ("write_if, write_match", GEN), ("visit_binop and friends", GEN)], ["Template::render of derived templates"])

prop("C26", "A filter block emits exactly what its filters make of its body",
  "A filter block renders its body, applies its filters in order to the whole rendered text, and emits the result once, in the place of the block, whatever the body contains (text, expressions, conditions, loops, macros, includes, nested filter blocks, or nothing). Output before and after the block is unaffected, and errors of the body or of a filter are reported.",
  ["programs", "inputs"], "all bodies, filter chains, nestings and surroundings of filter blocks",
  "Tests filter a few bodies of plain text and expressions; what the body contains and what precedes it decides where the pieces go.",
  [GEN, NODE], [("write_filter_block", GEN)], ["Template::render of derived templates"])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
