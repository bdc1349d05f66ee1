"""C13 anchors of headings without inline markup (CommonMark family)."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_anchor_link', 'md_toc.api.anchor_link_punctuation_filter']
ANY = r'[^\n\r`\\&<*_\[\]!\u0130\u03a3]'     # without the two letters whose lower case is not one fixed letter


def c_any(parser, k):
    t = note('text', star(ANY, k, k))
    r = run(api.build_anchor_link, t, {}, parser)
    w = ref.ref_slug(t, parser)
    check(r == ('ok', w), 'anchor', r, w)


def c_words(parser, n):
    t = note('text', star('[a-z]', n, n) + choice(' ', '  ', '-', ' - ', '.', ' . ', ', ', '/', '--', '---', ' -- ', ' é', '\t', '\u3000', '’', '(x)', ': ') + star('[A-Z0-9]', n, n))
    r = run(api.build_anchor_link, t, {}, parser)
    w = ref.ref_slug(t, parser)
    check(r == ('ok', w), 'anchor', r, w)


def c_edge(parser):
    t = note('text', choice('', ' ', '-', '.', '  ', '--') + star('[a-zA-Z0-9]', 1, 2) + choice('', ' ', '-', '.', '  ', '--', '-1') + choice('', 'b'))
    r = run(api.build_anchor_link, t, {}, parser)
    w = ref.ref_slug(t, parser)
    check(r == ('ok', w), 'anchor', r, w)


def c_filter(parser, k):
    t = note('text', star(r'[^\n\r]', k, k))
    r = run(api.anchor_link_punctuation_filter, t, parser)
    w = ''
    for c in t:
        if c.isalnum() or c == '_' or c == '-' or c == ' ':
            w += c
    check(r == ('ok', w), 'filter', r, w)


def c_doc(parser):
    t = 'x' + star(r'[A-Za-z0-9 .,-]', 3, 3) + 'y'
    note('text', t)
    agree(['# ' + t], parser)


def c_newline(parser):
    t = note('text', 'a' + choice('\n', '\r', '\r\n') + 'b')
    r = run(api.build_anchor_link, t, {}, parser)
    check(r == ('exc', 'StringCannotContainNewlines'), 'a heading is one line', r)


def c_long(parser):
    n = choice(30, 300)
    t = star('[a-z]', n, n) + choice('', ' B', '.')
    r = run(api.build_anchor_link, t, {}, parser)
    w = ref.ref_slug(t, parser)
    check(r == ('ok', w), 'anchor', r, w)


def c_special(parser):
    t = note('text', choice('a', '', 'B ') + choice('\u0130', '\u03a3', 'a\u03a3', '\u1e9e', '\u212a', '\u01c5', 'Ω', '\u2160') + choice('', 'x', '.'))
    r = run(api.build_anchor_link, t, {}, parser)
    w = ref.ref_slug(t, parser)
    check(r == ('ok', w), 'anchor', r, w)


def c_size(parser):
    """runs far longer than usual, one at a time"""
    n = choice(5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 64, 65, 80, 100, 129, 200, 257, 700)
    u = choice('-', ' ', '.', 'a', 'B', '\xe9', '\u65e5', '- ', ' -', '. ', 'a ', 'a-', 'A.', '1', '--a')
    t = note('text', choice('', 'x') + u * n + choice('', 'y'))
    r = run(api.build_anchor_link, t, {}, parser)
    w = ref.ref_slug(t, parser)
    check(r == ('ok', w), 'anchor', r, w)


def c_at(parser):
    """any character at any distance from the start"""
    n = choice(1, 2, 3, 7, 15, 31, 63, 100, 127, 254, 255, 256, 500)
    t = note('text', 'a' * n + char(ANY) + choice('b' * n, ''))
    r = run(api.build_anchor_link, t, {}, parser)
    w = ref.ref_slug(t, parser)
    check(r == ('ok', w), 'anchor', r, w)


WORDS = ('e\u0301', 'E\u0301', '\u00e9', '\u00c9', '\ufb01', '\u212b', '\u2126', '\u0131', '\u00df', '\u03c3\u03c2', '\u0928\u092e\u0938\u094d\u0924\u0947', '\u0e2a\u0e27\u0e31\u0e2a',
         '\u65e5\u672c\u8a9e', '\uff21\uff42\uff11', '\u0663', '\u00b2', '\u2460', '\u2163', '\u00bd', '\u00aa', '\u1100\u1161', '\uac00', '\u0627\u0644', '\u05e9\u05b8', '\U0001f600',
         '\U0001f468\u200d\U0001f469', '\u2764\ufe0f', '\u00a0', '\u2003', '\u200b', '\u00ad', '\ufeff', '\u2013', '\u2014', '\u2019', '\u3002', '\u00b7', '\u203f', '\u0130x', '\u1e9e',
         '\U00010400', '\U0001d400', '\u01c4', '\u01c6', '\u10a0', '\u13a0', '\uab70', '\u2c00', '\u0345', '\u1fb3')


def c_scripts(parser):
    """letters, marks, digits and signs of many scripts"""
    t = note('text', choice('', 'a', ' ') + choice(*WORDS) + choice('', 'B', '\u0301', ' x'))
    r = run(api.build_anchor_link, t, {}, parser)
    w = ref.ref_slug(t, parser)
    check(r == ('ok', w), 'anchor', r, w)


CASES = []
for p in CMARK:
    for k in range(0, 5):
        CASES.append(('any %s %d' % (p, k), c_any, p, k))
    CASES.append(('+any %s 5' % p, c_any, p, 5))
    CASES.append(('+any %s 6' % p, c_any, p, 6))
    for n in (1, 3, 12):
        CASES.append(('words %s %d' % (p, n), c_words, p, n))
    CASES.append(('special letters %s' % p, c_special, p))
    CASES.append(('scripts %s' % p, c_scripts, p))
    CASES.append(('edge %s' % p, c_edge, p))
    CASES.append(('size %s' % p, c_size, p))
    CASES.append(('position %s' % p, c_at, p))
    CASES.append(('filter %s' % p, c_filter, p, 4))
    CASES.append(('document %s' % p, c_doc, p))
    CASES.append(('newline %s' % p, c_newline, p))
    CASES.append(('long %s' % p, c_long, p))
CASES.append(('newline redcarpet', c_newline, 'redcarpet'))
