"""C09 coherence of the list."""
from specs.docs import *
ANCHORS = ['md_toc.api.build_toc']


def c_seq(parser, n, keep):
    lines = []
    for i in range(n):
        lines.append(star('[#]', 1, 6) + ' ' + 'abcdefgh'[i])
    note('lines', tuple(lines))
    k = dict(parser=parser, keep_header_levels=keep, no_links=True)
    k['ordered'] = choice(False, True)
    mkfile('d.md', '\n'.join(lines) + '\n')
    g = run(api.build_toc, 'd.md', **k)
    first = prev = 0
    bad = False
    for l in lines:
        d = len(l) - 2
        if d > keep:
            continue
        if first == 0:
            first = prev = d
        if d < first or d > prev + 1:
            bad = True
            break
        prev = d
    if bad:
        check(g == ('exc', 'TocDoesNotRenderAsCoherentList'), 'an incoherent list is refused', g)
    else:
        check(g[0] == 'ok', 'a coherent list is accepted', g)


def c_off(parser, n):
    """no such refusal when the check or the indentation is switched off"""
    lines = []
    for i in range(n):
        lines.append(star('[#]', 1, 6) + ' ' + 'abcdefgh'[i])
    note('lines', tuple(lines))
    k = dict(parser=parser, keep_header_levels=6, no_links=True)
    k['ordered'] = choice(False, True)
    k[choice('no_indentation', 'no_list_coherence')] = True
    mkfile('d.md', '\n'.join(lines) + '\n')
    g = run(api.build_toc, 'd.md', **k)
    check(g[0] == 'ok', 'accepted', g)
    check(g[1].count('\n') == n, 'every heading is listed', g)


def c_deep(parser):
    """long histories: levels after many entries"""
    lines = ['# a', '## b', '### c'] * 7 + [star('[#]', 1, 6) + ' d', star('[#]', 1, 6) + ' e']
    note('lines', tuple(lines[-2:]))
    agree(lines, parser, keep=6, no_links=True, no_list_coherence=False, slug=lambda t, p: t)


def c_options(parser):
    """the same verdict under every combination of the other options"""
    lines = [star('[#]', 1, 6) + ' a', star('[#]', 1, 6) + ' b', star('[#]', 1, 6) + ' a']
    note('lines', tuple(lines))
    agree(lines, parser, keep=choice(2, 6), ordered=choice(False, True), constant=choice(False, True), no_links=choice(False, True),
          no_indentation=choice(False, True), no_list_coherence=choice(False, True), slug=lambda t, p: t)


def c_far(parser):
    """the same verdict after a long coherent prefix"""
    n = choice(10, 33, 101, 257)
    top = choice(1, 2)
    m = choice(1, 2, 3)
    lines = []
    for i in range(n):
        lines.append('#' * (top + i % m) + ' a')
    lines += [star('[#]', 1, 6) + ' d', star('[#]', 1, 6) + ' e']
    note('lines', tuple(lines[-2:]))
    agree(lines, parser, keep=6, no_links=True, ordered=choice(False, True), slug=lambda t, p: t)


def c_between(parser):
    """other lines, fences and hidden headings in between do not matter"""
    mid = choice('', 'x', '###### h', '```\n# x\n```', '#x', '    # x')
    lines = [mid, star('[#]', 1, 4) + ' a', mid, star('[#]', 1, 4) + ' b', mid, star('[#]', 1, 4) + ' c']
    note('lines', tuple(lines))
    agree('\n'.join(lines).split('\n'), parser, keep=4, no_links=True, slug=lambda t, p: t)


def c_skip(parser):
    """skipped headings do not matter"""
    lines = [star('[#]', 1, 3) + ' a', star('[#]', 1, 3) + ' b', star('[#]', 1, 3) + ' c']
    note('lines', tuple(lines))
    agree(lines, parser, keep=6, no_links=True, skip=choice(1, 2, 3, 4), slug=lambda t, p: t)


CASES = []
for p in ALL:
    for n in (1, 2, 3, 4):
        CASES.append(('sequence %s %d' % (p, n), c_seq, p, n, 6))
    CASES.append(('sequence filtered %s' % p, c_seq, p, 3, 3))
    CASES.append(('switched off %s' % p, c_off, p, 3))
    CASES.append(('deep %s' % p, c_deep, p))
    CASES.append(('options %s' % p, c_options, p))
    CASES.append(('far %s' % p, c_far, p))
    CASES.append(('between %s' % p, c_between, p))
    CASES.append(('skip %s' % p, c_skip, p))
    CASES.append(('+sequence %s 5' % p, c_seq, p, 5, 6))
