from .. import det, cyu
NOTE = ('find_used_templates is proved for every finite set of files: the search ends; if it succeeds, the graph of extends of the compiled template and of all its ancestors is complete and has no cycle, and every template that is used anywhere (includes in all nested statements, imports, extends) has been loaded; it reports a cycle only where an edge closes one or was met before. '
        'Compiling random graphs of templates is a bounded check.')
UNITS = [('search for ancestors', cyu.unit)]
def companion(tier): return det.c21(tier)
