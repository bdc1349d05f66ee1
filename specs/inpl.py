"""Reference for in-place writing."""
from specs.docs import *

M = '<!--TOC-->'


def univ(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


def split(text):
    out = []
    for l in text.split('\n'):
        out.append(l)
    return out


def blank(s):
    return s.strip(' \t\n\r\x0b') == ''


def toclike(s):
    """begins like a list entry written by the program"""
    t = s.lstrip(' ')
    if len(s) - len(t) > 3 or t == '':
        return False
    if t[0] in '-+*':
        r = t[1:]
    else:
        r = t.lstrip('0123456789')
        if r == t or r == '' or r[0] not in '.)':
            return False
        r = r[1:]
    if r == '' or r[0] != ' ':
        return False
    r = r[1:]
    return r == '' or r[0] not in ' \t\x0b'


def existing(lines, marker):
    """positions of the markers, and of the pair that delimits the old table of contents if any"""
    pos = []
    for i in range(len(lines)):
        if lines[i].strip() == marker.strip():
            pos.append(i)
    pair = None
    for k in range(len(pos) - 1):
        a, b = pos[k], pos[k + 1]
        if blank(''.join(lines[a + 1:b])) or toclike(''.join(lines[a + 2:b - 1])):
            pair = (a, b)
            break
    return pos, pair


def write(text, toc, marker, nl):
    """the text of the file after writing, and the verdict: was the old table of contents the same"""
    lines = split(univ(text))
    toc = univ(toc)
    pos, pair = existing(lines, marker)
    if not pos:
        return text, toc.strip() == ''
    block = [marker, ''] + toc.rstrip().split('\n') + ['', marker]
    if pair is not None:
        old = '\n'.join(lines[pair[0] + 1:pair[1]]).strip()
        new = lines[:pair[0]] + block + lines[pair[1] + 1:]
        if pair[1] == len(lines) - 1:
            new.append('')
    elif len(pos) == 1:
        old = marker
        new = lines[:pos[0]] + block + lines[pos[0] + 1:]
        if pos[0] == len(lines) - 1:
            new.append('')
    else:
        old = ''
        new = lines[:pos[0]] + block + lines[pos[0]:]
    return nl.join(new), toc.strip() == old
