"""Document level vocabulary shared by the obligations (interpreted by the abstract machine)."""
from specs.util import *
from specs import ref
from md_toc import api

EXC = {'Empty': 'GithubEmptyLinkLabel', 'Overflow': 'GithubOverflowCharsLinkLabel', 'Incoherent': 'TocDoesNotRenderAsCoherentList',
       'OverflowNum': 'GithubOverflowOrderedListMarker'}


def toc(doc, parser, **o):
    mkfile('d.md', doc)
    return run(api.build_toc, 'd.md', parser=parser, **o)


def toc_stdin(doc, parser, **o):
    set_stdin(doc)
    return run(api.build_toc, '-', parser=parser, **o)


NAMES = {'keep': 'keep_header_levels', 'marker': 'list_marker', 'skip': 'skip_lines', 'constant': 'constant_ordered_list',
         'nl': 'newline_string'}


def want(lines, parser, **o):
    try:
        return ('ok', ref.ref_toc(lines, parser, **o))
    except Exception as e:
        return ('exc', EXC[type(e).__name__])


def agree(lines, parser, label='toc', final='\n', **o):
    """the implementation and the reference give the same outcome for the document; o uses the short names"""
    k = {}
    for n in o:
        if n != 'slug':
            k[NAMES.get(n, n)] = o[n]
    g = toc('\n'.join(lines) + final, parser, **k)
    w = want(lines, parser, **o)
    check(g == w, label, g, w)
    return g
