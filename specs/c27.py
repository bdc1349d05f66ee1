"""C27 emphasis markers are removed from anchors, and only they (CommonMark family)."""
from specs.docs import *
from specs import emph, emph2
ANCHORS = ['md_toc.api.remove_emphasis', 'md_toc.cmark.inlines_c._cmark_cmark_parse_inlines']


def one(t, parser):
    note('text', t)
    w = emph.strip(t)
    r = run(api.remove_emphasis, t, parser)
    check(r == ('ok', w), 'without emphasis', r, w)


def c_text(parser, cls, k):
    one(star(cls, k, k), parser)


def c_runs(parser):
    """delimiter runs of different lengths: the rule of three"""
    c = choice('*', '_')
    one(star('[*]', 1, 4).replace('*', c) + choice('a', 'a.') + star('[*]', 1, 4).replace('*', c) + 'b' + star('[*]', 0, 4).replace('*', c), parser)


def c_nest(parser):
    a, b = choice('*', '_', '**', '__', '***'), choice('*', '_', '**', '__', '***')
    one(a + 'x ' + b + 'y' + choice(a, b) + ' z' + choice(b, a), parser)


def c_word(parser):
    """inside words of any length"""
    n = choice(1, 12)
    d = choice('*', '_', '**', '__')
    one(choice('', star('[a-z]', n, n)) + choice('', ' ', '.') + d + star('[a-z0-9]', n, n) + d + choice('', ' ', '.') + choice('', star('[a-z]', n, n)), parser)


def c_plain(parser):
    """text without markers is left alone"""
    t = note('text', star(r'[^\n\r\0*_`\\\[\]!<&]', 0, 4))
    r = run(api.remove_emphasis, t, parser)
    check(r == ('ok', t), 'left alone', r, t)


def c_code(parser):
    n = choice(1, 2, 3)
    one('*a ' + '`' * n + star('[* a]', 1, 2) + '`' * choice(1, 2, 3) + choice('', '*', ' *') + choice('', '`'), parser)


def c_fences(parser):
    """code spans of many backticks, and the backticks inside of them"""
    n = choice(1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 33, 80)
    k = choice(n, n - 1, n + 1, 2 * n)
    one(choice('', '*', '* ') + '`' * n + choice('*a*', '_', '`' * (n - 1) + ' *', '** `` **') + '`' * k + choice('', '*', ' *b*', '`'), parser)


def c_escape(parser):
    one(choice('\\*', '*\\', '\\\\*', '\\_', 'a\\') + star('[a*_]', 1, 2) + choice('*', '\\*', '_', '\\\\*'), parser)


def c_anchor(parser):
    """the anchor shows the text of the emphasis"""
    d = choice('*', '**', '_', '__', '***')
    t = star('[a-z]', 1, 3)
    r = run(api.build_anchor_link, choice('', 'x ') + d + t + d + choice('', ' y'), {}, parser)
    assume(r[0] == 'ok')
    check('*' not in r[1] and '_' not in r[1] and t in r[1], 'anchor', r)


def c_size(parser):
    """long runs and long texts"""
    n = choice(5, 6, 7, 8, 9, 16, 17, 33, 64, 65, 100)
    c = choice('*', '_')
    k = choice('runs', 'text', 'word', 'many', 'unmatched', 'far')
    if k == 'runs':
        one(c * n + 'a' + c * choice(n, n - 1, n + 1, n + 2), parser)
    elif k == 'text':
        one(c + 'a' * n + c + choice('', ' b'), parser)
    elif k == 'word':
        one('a' * n + c + 'b' + c + choice('', 'd' * n), parser)
    elif k == 'many':
        one((c + 'a' + c + ' ') * min(n, 33), parser)
    elif k == 'unmatched':
        one((choice(c + 'a ', 'a' + c + ' ', c + ' ')) * min(n, 33), parser)
    else:
        one('a ' * n + c + 'b' + c, parser)


def c_unicode(parser):
    """flanking is decided by blanks and punctuation of any script"""
    x = char(r'[^\n\r\0*_`\\\[\]!<&]')
    c = choice('*', '_', '**')
    k = choice(0, 1, 2)
    if k == 0:
        one('a' + x + c + 'b' + c, parser)
    elif k == 1:
        one(c + x + 'b' + c, parser)
    else:
        one(c + 'a' + c + x + 'b' + choice('', c), parser)


def c_flank(parser, n, mixed):
    """runs between punctuation, which can both open and close: the openers that later runs may still reach"""
    c = choice('*', '_')
    t = choice('', 'a')
    for i in range(n):
        d = choice('*', '_') if mixed else c
        t += d * choice(1, 2, 3) + ((choice('a', '.', '.a', '. ') if n == 3 and not mixed else choice('a', '.')) if i < n - 1 else choice('', '.'))
    one(t, parser)


def two(t, parser):
    note('text', t)
    w = emph2.strip(t)
    r = run(api.remove_emphasis, t, parser)
    check(r == ('ok', w), 'without emphasis', r, w)


def c_links(parser, cls, k):
    two(star(cls, k, k), parser)


def c_inside(parser):
    """markers before, inside and after the text of a link or an image"""
    d = choice('*', '_', '**')
    two(choice('', d, 'x ' + d) + choice('[', '![', '[[', '[![', '![[') + choice('', 'a', d + 'a', d + 'a' + d) + choice('](b)', '](b) ' + d + 'c](e)', ']', '][b]', '](b', '] (b)', '](<b>)', '](b "t")', '](' + d + ')') + choice('', d, ' f' + d), parser)


def c_nested(parser):
    """a link or an image inside of another"""
    d = choice('*', '_')
    two(choice('[', '![') + choice('', d) + choice('[', '![') + 'a' + choice('', d) + choice('](b)', ']') + ' ' + d + 'c' + choice('](e)', ']') + ' f' + d + choice('', '](g)'), parser)


def c_dest(parser, k):
    """markers in destinations and titles, well formed or not"""
    d = choice('*', '_')
    two(d + '[a](' + choice('', ' ', '<') + star(r'[*a()<>\\\\]', 0, k) + choice('', '>', ' ') + choice('', ' "*"', " '*'", ' (*)', ' "\\"*"', ' (\\)*)', '"*"', ' "*', ' (*(') + choice('', ' ') + choice(')', '') + choice('', d, ' b' + d), parser)


def c_auto(parser):
    d = choice('*', '_')
    two(choice('', d) + '<' + choice('http://a', 'ht:', 'h:', ':', 'a+b.c-d:', 'mailto:x@y', '1a:', 'a' * 32 + ':', 'a' * 33 + ':', 'x@y', 'x@y.', 'x' + d + '@y.z', 'x@-y', 'http:// ', '@y') + choice('', d, d + 'b' + d, 'b' + d) + choice('>', '', ' >', '<>') + choice('', d, ' ' + d), parser)


def c_tags(parser):
    """markers inside of tags are not markup"""
    d = choice('*', '_')
    two(choice('', d) + choice('<a', '<a b', '<a b="' + d, "<a b='" + d, '<a b=' + d, '<a ' + d, '<a ' + d + 'b', '</a', '</a b', '</' + d, '<!-- ' + d, '<!--', '<!A ' + d, '<!A', '<!a ' + d, '<?' + d, '<? ', '<![CDATA[' + d, '<![CDATA', '<a b = "' + d, '<a b =', '<a b="x"' + d, '<a/' + d)
        + choice('', ' ') + choice('>', '">', "'>", '-->', '?>', ']]>', '/>', '') + choice('', d, 'a' + d, ' ' + d + '>'), parser)


def c_entity(parser):
    """a character reference is not markup"""
    d = choice('*', '_')
    two(choice('', d) + choice('&amp;', '&#42;', '&#x2A;', '&lowbar;', '&ast;', '&', '&a', '&;', '&#;', '&' + d + ';', '&#' + d, '&nbsp;', '&xyz;') + choice('', d) + 'a' + choice('', d) + choice('&ast;', '&#95;', '&', ';') + choice('', d), parser)


CASES = []
for p in CMARK:
    g = p == 'github'
    for k in range(1, 7):
        CASES.append(('%slinks %s %d' % ('' if k < (6 if g else 4) else '+', p, k), c_links, p, r'[a_\[\]()]', k))
        CASES.append(('%simages %s %d' % ('' if k < (5 if g else 4) else '+', p, k), c_links, p, r'[*!\[\]() ]', k))
        CASES.append(('%sangles %s %d' % ('' if k < (6 if g else 4) else '+', p, k), c_links, p, '[a*<>:"]', k))
    CASES.append(('dest %s' % p, c_dest, p, 1 if g else 0))
    CASES.append(('+dest %s 2' % p, c_dest, p, 2))
    for f in (c_inside, c_nested, c_auto, c_tags, c_entity):
        CASES.append(('%s %s' % (f.__name__[2:], p), f, p))
    CASES.append(('flanking %s 3' % p, c_flank, p, 3, False))
    CASES.append(('%sflanking %s 4' % ('' if p == 'github' else '+', p), c_flank, p, 4, False))
    CASES.append(('+flanking %s 5' % p, c_flank, p, 5, False))
    CASES.append(('%sflanking mixed %s 3' % ('' if p == 'github' else '+', p), c_flank, p, 3, True))
    CASES.append(('+flanking mixed %s 4' % p, c_flank, p, 4, True))
    g = p == 'github'
    for k in range(1, 7):
        CASES.append(('%sstars %s %d' % ('' if k < (7 if g else 5) else '+', p, k), c_text, p, '[a* .]', k))
        CASES.append(('%smixed %s %d' % ('' if k < (6 if g else 5) else '+', p, k), c_text, p, '[a*_ .]', k))
        CASES.append(('%scode %s %d' % ('' if k < (6 if g else 5) else '+', p, k), c_text, p, '[a*`\\\\]', k))
    for f in (c_runs, c_nest, c_word, c_plain, c_code, c_fences, c_escape, c_anchor, c_size, c_unicode):
        CASES.append(('%s %s' % (f.__name__[2:], p), f, p))
