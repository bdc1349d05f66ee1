"""C26 parsers documented as following the same rules agree."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_toc']
PAIRS = (('github', 'commonmarker'), ('cmark', 'goldmark'), ('cmark', 'gitlab'))
TEXT = '[a-z# .]'


def both(a, b, doc, **o):
    note('document', doc)
    mkfile('d.md', doc)
    r = run(api.build_toc, 'd.md', parser=a, **o)
    s = run(api.build_toc, 'd.md', parser=b, **o)
    if 'gitlab' in (a, b):
        if s[0] == 'ok':
            assume('--' not in r[1])
    check(r == s, a + ' and ' + b, r, s)


def c_head(a, b):
    both(a, b, star('[ ]', 0, 4) + star('[#]', 0, 7) + choice('', ' ', '\t', 'x', '\\') + choice('', 'a') + star('[ \t#]', 0, 2) + '\n', keep_header_levels=6, no_list_coherence=True,
         no_links=choice(True, False))


def c_fence(a, b):
    c = choice('`', '~')
    both(a, b, star('[ ]', 0, 4) + choice('``', '```', '````', '~~~', '~~', '~~~~') + choice('', ' x', '`', '~', '\t') + '\n# a\n' + star('[ \t]', 0, 2) + choice('```', '~~~', '````', '```x', '~~~ ', '```\t') + '\n# b\n')


def c_text(a, b):
    both(a, b, '# ' + star('[a ._#*[<>&`!\\]\\\\-]', 2, 2) + 'a\n')


def c_unicode(a, b):
    both(a, b, '# x' + char('[^\n\r\U0010ffff\u0130\u03a3`<\\[\\]!&*_\\\\]') + 'y\n# Z\n')


def c_markup(a, b):
    t = choice('*a*', '**a** b', '_a_', '__a__', '`a`', '[a](b)', '[a][b]', '![a](b)', '<b>a</b>', '<!-- a -->b', '&amp;', 'a\\*b', '<a href="x">', '<?a?>b', 'https://a.b', 'a  b', '~~a~~', '***a***', '\\[a\\]')
    both(a, b, '# ' + t + choice('', ' z', ' *q*') + '\n## ' + t + '\n', no_links=choice(True, False))


def c_list(a, b):
    o = choice(dict(ordered=True), dict(ordered=True, list_marker=')'), dict(list_marker='*'), dict(constant_ordered_list=True), dict(no_indentation=True), dict(list_marker='+', keep_header_levels=2))
    both(a, b, '# a\n' * choice(1, 10) + '## b\n### c\n## d\n' + star('[#]', 1, 6) + ' e\n', no_list_coherence=choice(True, False), **o)


def c_label(a, b):
    n = choice(998, 999, 1000)
    both(a, b, '# ' + star('[a]', n, n) + '\n')


def c_number(a, b):
    c1, c2 = {}, {}
    n = choice(999999998, 999999999)
    r = run(api.increase_index_ordered_list, c1, 0, 1, a)
    s = run(api.increase_index_ordered_list, c2, 0, 1, b)
    assume(c1 == {'h1': 1} and c2 == {'h1': 1})
    c1['h1'] = n
    c2['h1'] = n
    r = run(api.increase_index_ordered_list, c1, 1, 1, a)
    s = run(api.increase_index_ordered_list, c2, 1, 1, b)
    check(r == s and c1 == c2, 'number', r, s)


def c_options(a, b):
    both(a, b, '# a\n## b c\n# a\n#\td\n# e\t#\n```\n# n\n```\t\n#### f\n', ordered=choice(False, True), constant_ordered_list=choice(False, True), no_links=choice(False, True),
         no_indentation=choice(False, True), no_list_coherence=choice(False, True), keep_header_levels=choice(1, 2, 6), skip_lines=choice(0, 1))


def c_size(a, b):
    n = choice(17, 65, 129, 300)
    t = choice('# ' + 'a' * n, '#' * n + ' a', ' ' * n + '# a', '# a' + ' ' * n + '#', '`' * n + '\n# a\n' + '`' * n + '\n# b', '# ' + 'a ' * n, '# ' + '-' * n, '# a ' + '#' * n, '# ' + '*' * n + 'a' + '*' * n,
               '# ' + '\\' * n, '# a\n' * n, '# ' + '[' * n, '# ' + '&' * n, '```' + 'x' * n + '\n# a')
    both(a, b, t + '\n', no_list_coherence=True)


def c_html(a, b):
    t = choice('<script>', '</style>', '<title>', '<b>', '<!--x-->', '<![CDATA[x]]>', '<a', '<textarea>', '<PLAINTEXT>', '<iframe/>', '<xmp a=b>')
    both(a, b, '# ' + choice('', 'a') + t + 'b\n# c\n')


CASES = []
for a, b in PAIRS:
    for f in (c_head, c_fence, c_text, c_unicode, c_markup, c_list, c_label, c_number, c_options, c_size, c_html):
        CASES.append(('%s %s %s' % (f.__name__[2:], a, b), f, a, b))
