"""C20 the comparison verdict."""
from specs.docs import *
from specs import inpl
from specs.inpl import M
ANCHORS = ['md_toc.api.tocs_equal', 'md_toc.api.write_string_on_file_between_markers', 'md_toc.generic._get_existing_toc']


def one(doc, toc, marker=M, nl='\n'):
    note('document', doc)
    note('toc', toc)
    w = inpl.write(doc, toc, marker, nl)[1]
    mkfile('d.md', doc)
    r = run(api.tocs_equal, toc, 'd.md', marker)
    check(r == ('ok', w), 'comparison', r, w)
    r = run(api.write_string_on_file_between_markers, 'd.md', toc, marker, nl)
    check(r == ('ok', w), 'verdict of writing', r, w)


def c_pair(nl, mid):
    e = choice('\n', '\r\n')
    doc = choice('', 'x\n') + M + e + e + mid.replace('\n', e) + e + e + M + choice('', '\n', '\ny')
    one(doc, choice(mid + '\n', mid.replace('\n', nl) + nl, mid + 'x\n', mid[:-1] + '\n', '\n' + mid, mid, ''), M, nl)


def c_entry(nl):
    """one character of difference"""
    a = star('[a-c]', 1, 3)
    b = star('[a-c]', 1, 3)
    one(M + '\n\n- [' + a + '](#a)\n- q\n\n' + M + '\n', '- [' + b + '](#a)' + nl + '- q' + nl, M, nl)


def c_order(nl):
    l = ['- a', '- b', '  - c']
    i, j = choice((0, 1), (1, 2), (0, 2), (2, 0))
    one(M + '\n\n' + l[i] + '\n' + l[j] + '\n\n' + M + '\n', l[choice(0, 1, 2)] + nl + l[choice(0, 1, 2)] + nl, M, nl)


def c_indent(nl):
    """indentation inside the list counts"""
    a = star('[ ]', 0, 3)
    b = star('[ ]', 0, 3)
    one(M + '\n\n- a\n' + a + '- b\n\n' + M + '\n', '- a' + nl + b + '- b' + nl, M, nl)


def c_any(nl):
    a = star('[^\n\r\U0010ffff]', 0, 2)
    b = star('[^\n\r\U0010ffff]', 0, 2)
    one(M + '\n\n- x' + a + 'y\n\n' + M + '\n', '- x' + b + 'y' + nl, M, nl)


def c_inner(nl):
    """blanks inside the table count, wherever they are"""
    a = choice('', ' ', '  ', '\t')
    l = ['- a', '- b', '- c']
    i = choice(0, 1, 2)
    k = choice('end', 'start', 'middle')
    old = list(l)
    old[i] = l[i] + a if k == 'end' else a + l[i] if k == 'start' else l[i][:1] + a + l[i][1:]
    if choice(True, False):
        old, l = l, old
    one(M + '\n\n' + '\n'.join(old) + '\n\n' + M + '\n', nl.join(l) + nl, M, nl)


def c_gap(nl):
    """blank lines inside the table count"""
    one(M + '\n\n- a\n' + choice('', '\n', '\n\n', ' \n') + '- b\n\n' + M, '- a' + nl + choice('', nl, nl + nl, ' ' + nl) + '- b' + nl, M, nl)


def c_part(nl):
    """a part of the old table is not the old table, nor is more than it"""
    e = ['- a', '- b', '  - c', '- d']
    i, j = choice((0, 4), (0, 3), (0, 2), (0, 1), (1, 4), (1, 2), (2, 3), (3, 4))
    g = choice('\n', '\n\n')
    x, y = g.join(e), nl.join(e[i:j])
    if choice(True, False):
        x, y = g.join(e[i:j]), nl.join(e)
    one(M + '\n\n' + x + '\n\n' + M + '\n', y + nl, M, nl)


def c_case(nl):
    """letters that differ in case or script only"""
    a = choice('a', 'A', '\u00e9', 'e\u0301', '\u00df', 'ss', '\u0130', '\uff41', '\u00a0', ' ')
    b = choice('a', 'A', '\u00e9', 'e\u0301', '\u00df', 'ss', '\u0130', '\uff41', '\u00a0', ' ')
    one(M + '\n\n- [x' + a + 'y](#a)\n\n' + M + '\n', '- [x' + b + 'y](#a)' + nl, M, nl)


def c_none(nl):
    one(choice('', 'x\n', '# a', '- [a](#a)\n'), choice('', '- [a](#a)\n', '\n', ' \t\n'), M, nl)


def c_single(nl):
    one(choice('', 'x\n') + M + choice('', '\n', '\n\n- [a](#a)\n'), choice('', '- [a](#a)\n', M, M + '\n'), M, nl)


def c_notlist(nl):
    one(M + '\n' + choice('x\n', '\n# a\n\n', '\n-a\n\n', '\n    - a\n\n') + M + choice('', '\n', '\n\n- a\n\n' + M + '\n', '\n' + M), choice('', '- a\n', 'x\n'), M, nl)


def c_three(nl):
    mids = [choice('\n', '\n\n- a\n\n', '\nx\n'), choice('\n', '\n\n- b\n\n', '\nx\n', '\n\n- a\n\n')]
    one(M + mids[0] + M + mids[1] + M + '\n', choice('- a', '- b', '') + nl, M, nl)


def c_marker(nl):
    m = choice('[](TOC)', '.*', 'x', ' x ')
    one(m + '\n\n- a\n\n' + m + choice('', '\n') + choice('', M + '\n\n- b\n\n' + M), choice('- a\n', '- b\n'), m, nl)


def c_ordered(nl):
    n = star('[0-9]', 1, 2)
    one(M + '\n\n' + n + choice('.', ')') + ' [a](#a)\n\n' + M, star('[0-9]', 1, 2) + choice('.', ')') + ' [a](#a)' + nl, M, nl)


def c_big(nl):
    """one difference anywhere in a large table"""
    n = choice(12, 64, 130, 257)
    at = choice(0, 1, 5, 11, n // 2, n - 2, n - 1)
    d = choice('- x', '- a ', '-  a', '- A', '- a', '  - a', None)
    l = ['- a'] * n
    k = l[:at] + ([] if d is None else [d]) + l[at + 1:]
    one(M + '\n\n' + '\n'.join(l) + '\n\n' + M + '\n', nl.join(k) + nl, M, nl)


def c_long(nl):
    n = choice(64, 257, 1025)
    a = '- [' + 'a' * n + choice('', 'x', ' ') + '](#' + choice('', 'y') + 'b' * n + choice('', 'z') + ')'
    one(M + '\n\n- [' + 'a' * n + '](#' + 'b' * n + ')\n\n' + M, a + nl, M, nl)


def c_blanks(nl):
    """blank characters around the table"""
    one(M + choice('\n', '\n\n', '\n\n\n', '\n \n') + '- a\n- b' + choice('\n', '\n\n', '\n\n\n', '\n\t\n', ' \n\n') + M, choice('', '\n') + '- a' + nl + '- b' + choice('', nl, nl + nl, ' '), M, nl)


MIDS = ('- [a](#a)', '- [a](#a)\n  - [b](#b)\n- [c](#c)', '1. a\n2. b\n   1. c', '* a', '+ a')
CASES = []
for nl, nm in (('\n', 'LF'), ('\r\n', 'CRLF'), ('\r', 'CR')):
    for i, m in enumerate(MIDS):
        CASES.append(('two markers %s %d' % (nm, i), c_pair, nl, m))
    for f in (c_inner, c_gap, c_part, c_case, c_entry, c_order, c_indent, c_any, c_none, c_single, c_notlist, c_three, c_marker, c_ordered, c_big, c_long, c_blanks):
        CASES.append(('%s %s' % (f.__name__[2:], nm), f, nl))
