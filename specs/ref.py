"""Reference semantics, written from the documentation and the CommonMark rules
(independent of the implementation under analysis)."""
from specs.util import *


def seps(parser):
    return ' ' if parser in V029 else ' \t'


class Empty(Exception):
    pass


class Overflow(Exception):
    pass


class Incoherent(Exception):
    pass


def strip_newlines(line):
    return line.strip('\n')


def ref_level(line, parser):
    """(level, rest) of an ATX heading line without its newline, or None"""
    if parser == 'redcarpet':
        h = line.lstrip('#')
        n = len(line) - len(h)
        if n == 0:
            return None
        if n > 6:
            return None
        if h != '' and h[0] != ' ':
            return None
        return n, h
    t = line.lstrip(' ')
    if len(line) - len(t) > 3:
        return None
    h = t.lstrip('#')
    n = len(t) - len(h)
    if n < 1 or n > 6:
        return None
    if h != '' and h[0] not in seps(parser):
        return None
    return n, h


def ref_text(rest, parser):
    if parser == 'redcarpet':
        return rest.lstrip(' ').rstrip('#').rstrip(' ')
    sp = seps(parser)
    t = rest.strip(sp)
    u = t.rstrip('#')
    if u == '':
        return ''
    if u[-1] in sp:
        return u.rstrip(sp)
    return t


def ref_label(text, parser):
    """the text between the brackets of a TOC entry"""
    if text != '' and text[-1] == '\\':
        text = text + ' '
    if text.strip(' \t\n\x0b\x0c\r') == '':
        raise Empty
    if len(text) > 999:
        raise Overflow
    out = ''
    run = 0
    for c in text:
        if c == '\\':
            run += 1
        else:
            if (c == '[' or c == ']') and run % 2 == 0:
                out += '\\'
            run = 0
        out += c
    return out


def ref_heading(line, parser, no_links=True):
    """None or (level, text) for one line, its newline removed"""
    r = ref_level(line, parser)
    if r is None:
        return None
    t = ref_text(r[1], parser)
    if parser == 'redcarpet' and t == '':
        return None
    if not no_links:
        if parser == 'redcarpet':
            if line[-1] == '\\' or (len(t) - len(t.rstrip('\\'))) % 2 == 1:
                t = t + ' '
        else:
            t = ref_label(t, parser)
    return r[0], t


def ref_slug(text, parser):
    """for texts without inline markup"""
    t = ''
    for c in text.lower():
        if c == ' ':
            c = '-'
        elif not (c.isalnum() or c == '_' or c == '-'):
            c = ''
        if c == '-' and parser == 'gitlab' and t != '' and t[-1] == '-':
            c = ''
        t += c
    return t


def ref_open(line, parser):
    """the fence run that opens a code block, or None"""
    if parser == 'redcarpet':
        return None
    t = line.lstrip(' ')
    if len(line) - len(t) > 3:
        return None
    if t[:3] != '```' and t[:3] != '~~~':
        return None
    info = t.lstrip(t[0])
    if t[0] == '`' and '`' in info:
        return None
    return t[:len(t) - len(info)]


def ref_close(line, fence, parser):
    t = line.lstrip(' ')
    if len(line) - len(t) > 3:
        return False
    t = t.rstrip(seps(parser))
    return len(t) >= len(fence) and t == fence[0] * len(t)


def ref_entry_marker(parser, ordered, marker):
    """the list marker really used for an entry"""
    if ordered:
        closing = '.' if parser == 'redcarpet' else '.)'
        if marker is None or marker == '' or marker not in closing:
            return '.'
    return marker


def ref_toc(lines, parser='github', ordered=False, no_links=False, no_indentation=False, no_list_coherence=False,
            keep=3, marker='-', skip=0, constant=False, nl='\n', slug=None):
    """the table of contents of a document given as a list of lines without newlines"""
    if slug is None:
        slug = ref_slug
    if constant:
        ordered = True
    marker = ref_entry_marker(parser, ordered, marker)
    fence = None
    seen = {}
    out = []
    stack = []        # open ancestors: [level, indentation, counter]
    first = 0
    prev = 0
    counts = {}
    indents = {}
    widths = {}
    for line in lines[skip:]:
        if fence is not None:
            if ref_close(line, fence, parser):
                fence = None
            continue
        fence = ref_open(line, parser)
        if fence is not None:
            continue
        h = ref_heading(line, parser, no_links)
        if h is None:
            continue
        level, text = h
        anchor = slug(text, parser)
        if parser != 'redcarpet':
            n = seen.get(anchor, 0)
            seen[anchor] = n + 1
            if n:
                anchor = anchor + '-' + str(n)
        if level > keep:
            continue
        if not no_indentation and not no_list_coherence:
            if first == 0:
                first = level
            if level < first or (prev and level > prev + 1):
                raise Incoherent
        if prev < level and prev:
            counts[level] = 0
        counts[level] = counts.get(level, 0) + 1
        index = counts[level] if ordered and not constant else 1
        if no_indentation:
            ind = 0
        elif parser == 'redcarpet':
            ind = 4 * (level - 1)
        elif prev == 0:
            ind = 0
        elif level > prev:
            ind = indents[prev] + widths[prev] + 1
        else:
            ind = indents.get(level, 0)
            for d in range(level + 1, 7):
                indents.pop(d, None)
                widths.pop(d, None)
        indents[level] = ind
        m = (str(index) + marker) if ordered else marker
        widths[level] = len(m)
        body = text if no_links else '[' + text + '](#' + anchor + ')'
        out.append(' ' * ind + m + ' ' + body + nl)
        prev = level
    return ''.join(out)
