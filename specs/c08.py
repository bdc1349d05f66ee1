"""C08 fenced code never contributes headings, whatever follows it does."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_toc']


def slug_of(parser):
    return (lambda t, p: t) if parser == 'redcarpet' else None


def both(lines, parser):
    """through a file and through standard input, with and without a final newline"""
    note('lines', tuple(lines))
    final = choice('\n', '')
    doc = '\n'.join(lines) + final
    w = want(lines, parser, keep=6, no_list_coherence=True, slug=slug_of(parser))
    o = dict(keep_header_levels=6, no_list_coherence=True)
    if choice(True, False):
        g = toc(doc, parser, **o)
        check(g == w, 'file', g, w)
    else:
        g = toc_stdin(doc, parser, **o)
        check(g == w, 'stdin', g, w)


def c_one(parser):
    both(['# a', choice('```', '~~~', '   ```', '    ```', '  ~~~~', '``', '``` x', '~~~ x`', '``` x`', '~~~~ '), '# b',
          choice('```', '~~~', '   ~~~', '    ~~~', '    ```', '````', '~~~~~', '``', '``` ', '~~~\t', '```x', '~~~ x'), '# c'], parser)


def c_two(parser):
    both([choice('```', '~~~', '````x', '~~~~', '   ```'), '# b', choice('```', '~~~', '````', '~~~~', '~~~ ', '``` x'), '# c',
          choice('```', '~~~', '~~~~'), '# d', choice('```', '~~~', 'x')], parser)


def c_unclosed(parser):
    f = choice('```', '~~~', '~~~~~')
    both(['# a', f, choice('# b', 'x', '', f + 'x', '    ' + f), choice('# c', 'x', '', '# ' + star('[a-c]', 1, 3)), choice('# d', 'y', '')], parser)


def c_last(parser):
    both(['# a', choice('```', '~~~'), '# b', choice('```', '~~~', '    ```', '````', '``` x')], parser)


def c_symbolic(parser):
    """an arbitrary short line inside or outside"""
    both(['# a', choice('```', '~~~', 'x'), star('[`~ a]', 4, 4), '# c'], parser)


def c_info(parser):
    """anything may follow the opening fence"""
    f = choice('```', '~~~', ' ~~~~')
    both(['# a', f + star('[^\n\r\U0010ffff]', 0, 4), '# b', f, '# c'], parser)


def c_info2(parser):
    f = choice('```', '~~~')
    both([f + choice(' c#', ' #', '#', ' # a', ' a #', '{.x}', ' \\', ' <!--', '\t-', ' 1.', '> x', ' ~', ' [a]', ' ' + 'x' * 200, ' \u00e9', ' = y', ' "')
          + choice('', ' ', '\t'), '# b', f, '# c'], parser)


def c_closing(parser):
    """what follows a run of fence characters inside a block decides if it closes"""
    f = choice('```', '~~~')
    both(['# a', f, '# b', star('[ ]', 0, 4) + f + star('[^\n\r\U0010ffff]', 0, 3), '# c'], parser)


def c_content(parser):
    """the lines of a block do not matter"""
    f = choice('```', '~~~')
    both(['# a', f, choice('', '# ') + star('[^\n\r`~\U0010ffff]', 0, 4), f, '# c'], parser)


def c_long(parser):
    n = choice(3, 10, 60)
    f = choice('`', '~')
    both(['# a', f * n] + ['# hidden'] * choice(0, 1, 12) + [f * choice(n - 1, n, n + 1), '# b'], parser)


def c_alternate(parser):
    out = []
    for i in range(6):
        out.append('```')
        out.append('# h%d' % i)
    both(out + ['# z'], parser)


def c_far(parser):
    """a fence after a long document"""
    n = choice(20, 120, 300)
    f = choice('```', '~~~')
    lines = []
    for i in range(n):
        lines.append('# h%d' % (i % 7))
    both(lines + [f, '# b', choice(f, 'x'), '# c'], parser)


def c_big(parser):
    """a long fenced block, and one that is never closed"""
    n = choice(20, 100, 256, 600)
    f = choice('```', '~~~')
    both(['# a', f] + [choice('# b', 'x')] * n + [choice(f, '    ' + f), '# c'], parser)


def c_often(parser):
    """many fenced blocks"""
    n = choice(10, 60)
    f = choice('```', '~~~', '````')
    lines = []
    for i in range(n):
        lines += [f, '# b', f, '# h%d' % (i % 5)]
    both(lines + ['# z'], parser)


def c_options(parser):
    """fenced lines never count, whatever the options"""
    f = choice('```', '~~~')
    lines = ['# a', f, choice('# b', '### b'), choice('###### c', '#', '# a'), f, choice('# a', '## a', '# b')]
    note('lines', tuple(lines))
    agree(lines, parser, keep=choice(1, 6), ordered=choice(False, True), constant=choice(False, True), no_links=choice(False, True),
          no_indentation=choice(False, True), no_list_coherence=choice(False, True), skip=choice(0, 2), slug=slug_of(parser))


CASES = []
for p in ALL:
    CASES.append(('one fence ' + p, c_one, p))
    CASES.append(('two fences ' + p, c_two, p))
    CASES.append(('unclosed ' + p, c_unclosed, p))
    CASES.append(('last ' + p, c_last, p))
    CASES.append(('any line ' + p, c_symbolic, p))
    CASES.append(('info ' + p, c_info, p))
    CASES.append(('info strings ' + p, c_info2, p))
    CASES.append(('closing ' + p, c_closing, p))
    if p != 'redcarpet':
        CASES.append(('content ' + p, c_content, p))
    CASES.append(('long ' + p, c_long, p))
    CASES.append(('alternate ' + p, c_alternate, p))
    CASES.append(('far ' + p, c_far, p))
    CASES.append(('big ' + p, c_big, p))
    CASES.append(('often ' + p, c_often, p))
    CASES.append(('options ' + p, c_options, p))
