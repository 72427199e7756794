from .. import det, cfu
NOTE = ('Config::new (order and contents of the escapers), TemplateInput::new (which one is chosen), extension, ext_default_to_path and extension_to_mime_type are proved against the documented tables. '
        'The constants of compiled templates with many file names are bounded checks.')
UNITS = [('escapers', lambda repo: cfu.config(repo, 'C24')), ('extension and MIME type', lambda repo: cfu.inputs(repo, 'C24'))]
def companion(tier): return det.c24(tier)
