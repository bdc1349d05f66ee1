"""C02 heading text."""
from specs.util import *
from specs import ref
from md_toc import api
ANCHORS = ['md_toc.api.get_atx_heading']


def one(line, parser, nl=''):
    note('line', line)
    r = run(api.get_atx_heading, line + nl, 6, parser, True)
    want = ref.ref_heading(line, parser)
    check(r[0] == 'ok', 'raised', r)
    r = r[1]
    check(len(r) == 1, 'one result', r)
    if want is None:
        check(r[0]['header_text_trimmed'] is None, 'no text', r[0]['header_text_trimmed'])
    else:
        check(r[0]['header_text_trimmed'] == want[1], 'text', r[0]['header_text_trimmed'], want[1])


def c_any(parser, k):
    one('#' + char('[ \t]') + star('[^\n\r]', k, k), parser)


def c_line(parser, k):
    one(star('[^\n\r]', k, k), parser, choice('', '\n', '\r\n', '\r'))


def c_close(parser, n):
    one(choice('# ', '###### ', '   ## ', '#\t') + star('[^\n\r# \t]', n, n) + star('[ \t]', 0, 3) + star('[#]', 0, 3)
        + star('[ \t#]', 0, 3), parser, choice('', '\n'))


def c_longest(parser, n):
    one('# ' + star('[^\n\r# \t]', n, n) + choice('', ' #'), parser)


def c_hash(parser, k):
    one('## ' + star('[# a]', k, k), parser)


def c_size(parser):
    """runs far longer than usual, one at a time"""
    k = choice('sep', 'text', 'space', 'close', 'trail', 'inner')
    n = choice(5, 8, 9, 16, 17, 33, 64, 65, 79, 80, 81, 100, 128, 129, 256, 257, 300, 999, 1000, 1001, 1025, 3000)
    b = choice(' ', '\t') * n if k in ('sep', 'space', 'trail') else ''
    if k == 'sep':
        one('##' + b + 'a' + choice('', ' #'), parser)
    elif k == 'text':
        one('# ' + choice('a', '\xe9', '.', '\xa0') * n + char('[^#\n\r \t]') + choice('', '#', ' #', ' ##  '), parser)
    elif k == 'space':
        one('# a' + b + choice('#', 'b', 'b #', ''), parser)
    elif k == 'close':
        one('# ' + choice('a', 'a ', '', 'a#', 'a\\', 'a\\ ', '# ') + '#' * n + choice('', ' ', '\t', 'x', ' x', '\\'), parser)
    elif k == 'trail':
        one('# a' + choice('', ' #', '#', ' ##', ' # #') + b, parser)
    else:
        one('# ' + choice('a ', '# ') * n + choice('#', 'x', '#x'), parser)


def c_combo(parser):
    """blank characters of every kind around the text and its closing run"""
    B = '[ \t\x0b\x0c\x1c-\x1f\x85\xa0\u1680\u2000-\u200b\u2028\u2029\u202f\u205f\u3000\ufeff]'
    one('# ' + choice('', char(B)) + choice('x', 'x#', '\\#', '', 'x\\') + choice('', char(B), ' ' + char(B), char(B) + ' ') + choice('', '#', '##', '\\#')
        + choice('', char(B), ' ' + char(B)), parser, choice('', '\n'))


CASES = []
for p in CMARK:
    for k in range(9):
        CASES.append(('any %s %d' % (p, k), c_any, p, k))
    CASES.append(('+any %s 9' % p, c_any, p, 9))
    for k in (1, 4, 8):
        CASES.append(('line %s %d' % (p, k), c_line, p, k))
    CASES.append(('+closing %s 300' % p, c_close, p, 300))
    CASES.append(('longest %s' % p, c_longest, p, 600))
    for n in (1, 2, 40):
        CASES.append(('closing %s %d' % (p, n), c_close, p, n))
    CASES.append(('hashes %s' % p, c_hash, p, 8))
    CASES.append(('size %s' % p, c_size, p))
    CASES.append(('blanks %s' % p, c_combo, p))
    CASES.append(('+hashes %s' % p, c_hash, p, 9))
