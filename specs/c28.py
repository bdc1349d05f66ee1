"""C28 every document gives a table of contents or one of the documented errors."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_toc', 'md_toc.api.get_md_header', 'md_toc.api.build_anchor_link', 'md_toc.api.remove_emphasis',
           'md_toc.api.remove_html_tags', 'md_toc.cmark.inlines_c._cmark_cmark_parse_inlines']
OWN = ('GithubEmptyLinkLabel', 'GithubOverflowCharsLinkLabel', 'TocDoesNotRenderAsCoherentList', 'GithubOverflowOrderedListMarker')
TOK = ('a', ' ', '[', ']', '](', '(', ')', '![', '[a]', '(b)', '<', '>', '<b>', '<http://a>', '<a@b.c>', '<!--', '-->', '<?', '&', '&amp;', '&#1;', '&#x41;',
       '&#0;', '&xx;', ';', '*', '**', '_', '`', '``', '\\', '\\\\', '"t"', "'", '.', '-', '\0', '\xa0', '\xe9', '\U0001f600', '\t', '#', '[a]:', '|', '~~', ':', '=')
ODD = ('\u0663', '\u0666', '\u0669', '\xb2', '\u2167', '\U0001d7ce', '\u0130', '\u03a3', '\u1e9e', '\u200b', '\ufeff', '\x7f', '\x85', '\u2028', '\U0010fffd', '\x01', '\x1f', '\0')
FEW = ('a', '[', ']', '](', '![', '(', ')', '<', '>', '&', ';', '*', '_', '`', '\\', '"')


def fine(r, what):
    check(r[0] == 'ok' or r[1] in OWN, what + ': a result or a documented error', r)


def head(t, parser):
    note('heading', t)
    fine(run(api.get_md_header, '# ' + t, {}, 3, parser, False), 'heading')


def head_plain(t, parser):
    note('heading', t)
    fine(run(api.get_md_header, '# ' + t, {}, 3, parser, True), 'heading without link')


def anchor(t, parser):
    """brackets are escaped in headings with links, but not in the texts others pass"""
    note('text', t)
    r = run(api.build_anchor_link, t, {}, parser)
    check(r[0] == 'ok', 'anchor: any text of one line', r)


def c_free(parser, cls, k, how):
    how(star(cls, k, k), parser)


def c_word(parser, cls, k, how):
    how('b' + star(cls, k, k), parser)


def c_tokens(parser, n, toks, how):
    t = ''
    for i in range(n):
        t += choice(*toks)
    how(t, parser)


def c_emph(parser, cls, k):
    t = note('text', star(cls, k, k))
    r = run(api.remove_emphasis, t, parser)
    check(r[0] == 'ok', 'emphasis: any text', r)


def c_html(parser, cls, k):
    t = note('text', star(cls, k, k))
    r = run(api.remove_html_tags, t, parser)
    check(r[0] == 'ok', 'tags: any text', r)


def c_dup(parser):
    a = star(r'[a-z.*<\[-]', 1, 1)
    h = choice('# ' + a + '\n', '# ' + a + '-1\n', '## \n', '###### ' + a + ' #\n', '#\n')
    doc = '# ' + a + '\n' + h + choice('', '# ' + a + '\n')
    note('document', doc)
    fine(toc(doc, parser, ordered=choice(False, True), no_list_coherence=True, no_links=choice(False, True)), 'repeated headings')


def c_doc(parser, k):
    """documents of arbitrary text, with and without a final newline"""
    doc = note('document', star(r'[#`~<!\n\t >a-]', k, k))
    fine(toc(doc, parser, no_list_coherence=choice(False, True), no_indentation=choice(False, True), ordered=choice(False, True)), 'document')


def c_text(parser, k):
    doc = note('document', ('b' if parser == 'redcarpet' else '') + star(r'[^\r\ud800-\udfff\u0130\u03a3]', k, k) + choice('', '\n# ' + ('b' if parser == 'redcarpet' else '') + star(r'[^\n\r\ud800-\udfff\u0130\u03a3]', 1, 1)))
    fine(toc(doc, parser), 'document')


def c_options(parser):
    """every option on the same few documents"""
    doc = choice('', '\n', '# a', '# a\n', '###### a\n# b\n', '# a\n### b\n## c\n', '#\n', '# \n', '```\n', '# a\n~~~\n# b', '<!-- a\n# b\n', '\n\n# a *b\n', '# [\n## [](\n')
    note('document', doc)
    fine(toc(doc, parser, ordered=choice(False, True), no_links=choice(False, True), no_indentation=choice(False, True), no_list_coherence=choice(False, True),
             keep_header_levels=choice(1, 3, 6), skip_lines=choice(0, 1, 9), constant_ordered_list=choice(False, True)), 'options')


def c_long(parser):
    """long runs of everything that opens or closes something"""
    n = choice(2, 5, 9, 16, 33, 80)
    u = choice('[', ']', '![', '](', '[a]', '[](', '(', ')', '<', '>', '<a', '</', '<!', '<?', '&', '&#', '&#x', '&a', '*', '_', '*a', '_a ', '**a', '`', '` ', '\\', '"', "'",
               '[a](b)', '![a](b "', '[a][', '<a b="', '&#99;', '\xe9*', '*_', '[*', '*[', '*]', '\\[', '\\`', '.', '-', 'a')
    head(choice('', 'x') + u * n + choice('', 'y', ')', ']', '>'), parser)


def c_link(parser, k, how):
    """everything that may stand in a link destination or title, cut off anywhere"""
    t = choice('[a]', '![a]', '[', '[a[b]', '[]', '[a]]') + choice('(', '( ', '(<', '[', ':', '', ' (') + star(r'[<>()\\ "\'a]', 0, k) + choice('', ' "', " '", ' (', '"', '\\') + choice('', 'c', '\\') + choice('', ')', '")', "')", '))', '>)', ']')
    how(t, parser)


def c_entity(parser):
    t = choice('', 'x') + '&' + choice('', '#', '#x', '#X', 'a', 'amp', 'copy', 'nbsp', 'CounterClockwiseContourIntegral', '#0', '#xD800', '#1114112', '#99999999', '#xffffff', '#x110000', '#9999999999') + star('[0-9a-zA-Z]', 0, 2) + choice('', ';', ';;', ' ;')
    head(t, parser)


def c_around(parser, k):
    """any character at every place where a special one is expected"""
    a, b = choice(('&#x', ';'), ('&#', ';'), ('&', ';'), ('&#1', ';'), ('&#xA', ';'), ('<', '>'), ('<a', '>'), ('<a ', '>'), ('<a b=', '>'), ('</', '>'), ('<!', '>'), ('<?', '?>'), ('<!--', '-->'), ('<http:', '>'), ('<a@', '>'), ('*', '*'), ('**', '*'), ('_', '_'),
                  ('`', '`'), ('[', ']'), ('[a](', ')'), ('[a](<', '>)'), ('[a](b ', ')'), ('[a](b "', '")'), ('![', '](b)'), ('[a][', ']'), ('\\', ''), ('', '*a*'), ('', '&amp;'), ('', '\\'), ('<![CDATA[', ']]>'))
    anchor(('b' if parser == 'redcarpet' else '') + a + (star(ANY, k, k) if k else choice(*ODD)) + b, parser)


def c_ends(parser):
    """a heading that ends inside of something"""
    t = choice('', 'a ', '*', '[', '`', '<b>') + choice('<a', '<a ', '<a b', '<a b=', '<a b="', "<a b='c", '</', '</a', '<!', '<!-', '<!--', '<!--a-', '<!--a--', '<?', '<?a?', '<![', '<![CDATA', '<![CDATA[', '<![CDATA[a]', '<![CDATA[a]]',
                                                        '<http:', '<http:/', '<h', '<a@', '<a@b', '<a@b.', '![', '!', '[', '[a', '[a]', '[a](', '[a](b', '[a](b ', '[a](b "', '[a](<', '[a](<b', '&', '&#', '&#x', '&a', '\\', '`', '``', '*', '_', '**', '***', '~', '#', ' #', '\\#')
    head(t + choice('', ' ', '\\', '*', '`', ']', '\0'), parser)


ANY = r'[^\n\r\u0130\u03a3]'     # without the two letters whose lower case is not one fixed letter
INL = r'[\[\]()!<>&;#*_`"\'\\a]'
CASES = []
for p in ('github', 'cmark', 'redcarpet'):
    CASES.append(('free %s 3' % p, c_free, p, INL, 3, anchor))
    CASES.append(('free %s any' % p, c_word if p == 'redcarpet' else c_free, p, ANY, 2, anchor))
    CASES.append(('free %s links' % p, c_free, p, r'[\[\]()!]', 5, anchor))
    CASES.append(('free %s marks' % p, c_free, p, r'[*_`\\a]', 4, anchor))
    CASES.append(('free %s tags' % p, c_free, p, r'[<>/!?-]', 4, anchor))
    CASES.append(('free %s entities' % p, c_free, p, r'[&#x0a;]', 4, anchor))
    CASES.append(('tokens %s 2' % p, c_tokens, p, 2, TOK, anchor))
    CASES.append(('tokens %s 3' % p, c_tokens, p, 3, FEW, anchor))
    CASES.append(('+tokens %s 3 of all' % p, c_tokens, p, 3, TOK, anchor))
    CASES.append(('+tokens %s 4' % p, c_tokens, p, 4, FEW, anchor))
    CASES.append(('+free %s 4' % p, c_free, p, INL, 4, anchor))
    CASES.append(('+free %s any 3' % p, c_word if p == 'redcarpet' else c_free, p, ANY, 3, anchor))
    CASES.append(('emphasis %s' % p, c_emph, p, INL, 3))
    CASES.append(('emphasis %s any' % p, c_emph, p, ANY, 3))
    CASES.append(('tags %s' % p, c_html, p, r'[<>/!?a "=\[\]-]', 5))
    CASES.append(('tags %s any' % p, c_html, p, ANY, 5))
    CASES.append(('document %s' % p, c_doc, p, 4))
    CASES.append(('+document %s 5' % p, c_doc, p, 5))
    for f in (c_dup, c_options, c_long, c_entity, c_ends):
        CASES.append(('%s %s' % (f.__name__[2:], p), f, p))
    CASES.append(('around %s' % p, c_around, p, 1))
    CASES.append(('odd %s' % p, c_around, p, 0))
    CASES.append(('+around %s 2' % p, c_around, p, 2))
    CASES.append(('link %s' % p, c_link, p, 1, anchor))
    CASES.append(('+link %s 2' % p, c_link, p, 2, anchor))
    CASES.append(('text %s' % p, c_text, p, 3))
    CASES.append(('heading %s' % p, c_free, p, INL, 3, head))
    CASES.append(('heading %s plain' % p, c_free, p, INL, 3, head_plain))
    CASES.append(('heading %s any' % p, c_word if p == 'redcarpet' else c_free, p, ANY, 2, head))
    CASES.append(('heading tokens %s' % p, c_tokens, p, 2, TOK, head))
    CASES.append(('+heading link %s' % p, c_link, p, 1, head))
for p in ('gitlab', 'commonmarker', 'goldmark'):
    CASES.append(('free %s 3' % p, c_free, p, INL, 3, anchor))
    CASES.append(('tokens %s 2' % p, c_tokens, p, 2, TOK, anchor))
    CASES.append(('options %s' % p, c_options, p))
    CASES.append(('text %s' % p, c_text, p, 2))
