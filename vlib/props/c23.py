from .. import det, cfu
NOTE = ('find_template, Config::new, TemplateInput::new, read_config_file and TemplateArgs::config are proved: the search order, and template attribute before configuration before default for syntax, escaping, white space and configuration file. '
        'Trees of templates in several directories, and settings, compiled with the real macro, are bounded checks.')
UNITS = [('configuration', lambda repo: cfu.config(repo, 'C23')), ('template attributes', lambda repo: cfu.inputs(repo, 'C23'))]
def companion(tier): return det.c23(tier)
