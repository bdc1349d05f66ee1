"""C05 link labels (CommonMark family)."""
from specs.docs import *
ANCHORS = ['md_toc.api.get_atx_heading', 'md_toc.api.build_toc']


def one(line, parser):
    note('line', line)
    r = run(api.get_atx_heading, line, 6, parser, False)
    try:
        w = ref.ref_heading(line, parser, False)
    except ref.Empty:
        check(r == ('exc', 'GithubEmptyLinkLabel'), 'an empty label is refused', r)
        return
    except ref.Overflow:
        check(r == ('exc', 'GithubOverflowCharsLinkLabel'), 'a label over 999 characters is refused', r)
        return
    check(r[0] == 'ok', 'raised', r)
    r = r[1][0]
    if w is None:
        check(r['header_text_trimmed'] is None, 'no text', r)
        return
    t = r['header_text_trimmed']
    check(t == w[1], 'label', t, w)


def safe(line, parser):
    """every bracket of the label is escaped and the label does not end in an escape"""
    note('line', line)
    r = run(api.get_atx_heading, line, 6, parser, False)
    if r[0] == 'exc':
        check(r[1] in ('GithubEmptyLinkLabel', 'GithubOverflowCharsLinkLabel'), 'exception', r)
        return
    t = r[1][0]['header_text_trimmed']
    if t is None:
        check(True, '')
        return
    esc = False
    for c in t:
        if c == '\\':
            esc = not esc
        else:
            check(esc or (c != '[' and c != ']'), 'unescaped bracket', t)
            esc = False
    check(not esc, 'label ends with an escape', t)


def c_any(parser, k):
    one('# ' + star('[^\n\r]', k, k), parser)


def c_br(parser, k):
    one('# ' + star(r'[\[\]\\ a]', k, k), parser)


def c_safe(parser, k):
    safe('# ' + star(r'[\[\]\\#(a ]', k, k), parser)


def c_len(parser, n):
    one(choice('# ', '###### ', '   ##   ') + star('[a-z]', n, n) + choice('', '#', ' #', '\\', '[', '\\[', 'x', 'xy', '  '), parser)


def c_blank(parser, k):
    one('# ' + star('[ \t\x0b\x0c]', k, k) + choice('', ' #', '##', 'a'), parser)


def c_doc(parser):
    """the label is what the entry shows, and no label of a too long or empty heading reaches a table of contents"""
    n = choice(5, 999, 1000)
    lines = ['# ' + star('[a-z]', n, n)]
    g = agree(lines, parser)


def c_doc_nolinks(parser):
    """the limits concern links only"""
    n = choice(60, 1000)
    lines = [choice('# ', '#') + star('[a-z]', n, n)]
    agree(lines, parser, no_links=True)
    agree([choice('#', '# ', '# \x0b')], parser, no_links=True)


def c_limit(parser):
    """the limit counts the characters of the heading text, whatever they are"""
    n = choice(499, 500, 997, 998, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4000)
    c = choice('a', 'A', 'é', '文', '\U0001f600', '.', '&', '#', '\xa0')
    one('# ' + 'x' + c * (n - 2) + 'x' + choice('', ' #', '  '), parser)


def c_escapes(parser):
    """escapes added to the label do not count, whichever character they are for"""
    n = choice(0, 1, 2, 100, 499, 500, 501, 997, 998)
    k = choice(0, 1, 2, 3, 100, 499, 501)
    one('# ' + 'a' * n + choice('[', ']', '\\[', '\\]', '\\\\[', '[]', '\\') * k, parser)


def c_slashes(parser):
    """runs of backslashes before a bracket"""
    n = choice(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 31, 32, 33, 64, 65, 100, 101, 255, 256, 257)
    one('# ' + choice('', 'a', '[') + '\\' * n + choice('', '[', ']', 'a[', '[x]', ' ['), parser)


def c_far(parser):
    """brackets far into the text"""
    n = choice(8, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300, 700)
    one('# ' + choice('a', '\xe9', '. ') * n + choice('[', ']', '\\[', '\\\\]', '[[', 'a]b', '\\', '\\\\'), parser)


def c_red(k):
    """redcarpet: the label does not end in an escape"""
    line = note('line', '#' + choice(' ', '  ') + star(r'[^\n\r\U0010ffff]', 0, k) + star('[\\\\]', 0, 3) + choice('', ' ', '#', ' #', '  ##', '# '))
    r = run(api.get_atx_heading, line, 6, 'redcarpet', False)
    check(r[0] == 'ok', 'raised', r)
    t = r[1][0]['header_text_trimmed']
    w = run(api.get_atx_heading, line, 6, 'redcarpet', True)[1][0]['header_text_trimmed']
    if w is None:
        check(t is None, 'no heading', t)
        return
    check(t == w or t == w + ' ', 'the label is the text', t, w)
    check((len(t) - len(t.rstrip('\\'))) % 2 == 0, 'label ends with an escape', t)


def c_redlong():
    n = choice(1, 2, 7, 8, 33, 64, 101)
    line = '# a' + '\\' * n + choice('', ' ', '#', ' #')
    r = run(api.get_atx_heading, line, 6, 'redcarpet', False)
    check(r[0] == 'ok', 'raised', r)
    t = r[1][0]['header_text_trimmed']
    check(t.startswith('a' + '\\' * n), 'text', t)
    check((len(t) - len(t.rstrip('\\'))) % 2 == 0, 'label ends with an escape', t)


CASES = [('redcarpet', c_red, 3), ('+redcarpet long', c_red, 5), ('redcarpet sizes', c_redlong)]
for p in CMARK:
    for k in range(6):
        CASES.append(('any %s %d' % (p, k), c_any, p, k))
    CASES.append(('+any %s 6' % p, c_any, p, 6))
    CASES.append(('brackets %s' % p, c_br, p, 6))
    CASES.append(('+brackets %s' % p, c_br, p, 7))
    CASES.append(('safe %s' % p, c_safe, p, 5))
    CASES.append(('+safe %s' % p, c_safe, p, 7))
    for n in (30, 100):
        CASES.append(('length %s %d' % (p, n), c_len, p, n))
    for n in (996, 997, 998, 999, 1000):
        CASES.append(('+length %s %d' % (p, n), c_len, p, n))
    CASES.append(('blank %s' % p, c_blank, p, 4))
    CASES.append(('limit %s' % p, c_limit, p))
    CASES.append(('escapes %s' % p, c_escapes, p))
    CASES.append(('backslashes %s' % p, c_slashes, p))
    CASES.append(('far %s' % p, c_far, p))
    CASES.append(('document %s' % p, c_doc, p))
    CASES.append(('document without links %s' % p, c_doc_nolinks, p))
