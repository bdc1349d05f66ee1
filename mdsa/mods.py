"""Models of the standard library modules the analysed code talks to (files, re, hashlib, ...).

Nothing here touches the real file system: files live in State.fs (path -> abstract text)."""
import copy as _copy
import html.entities
import html as _html
import os
import re as _re
import string as _string
import sys
import unicodedata
import operator as _operator

from . import chars, strs, rex
from .dom import (AInt, AStr, CharInt, Term, TOP, Fork, Unsupported, PyExc, add, sub, is_str, parts_of, from_parts,
                  concat_parts)
from .vm import (Ref, NF, NT, NM, BM, Slice, ARange, Prop, StaticM, ClassM, CharsOf, OpaqueMod, CallPy, LObj, DObj, SObj,
                 Inst, Cls, Func, Mod, Cell, Gen, It, Box, Code, UNSET, NULL, PUSHED)

PY_STDLIB = {'argparse', 'textwrap'}
BAD = '\U0010ffff'     # an undecodable byte sequence in a file model
NLM = None


def nf(name):
    def d(f):
        return NF(name, f)
    return d


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


# ===================================================================== files
def fs_set(st, path, v):
    st.fs = dict(st.fs)
    if v is None:
        st.fs.pop(path, None)
    else:
        st.fs[path] = v


def emit(lib, st, path, s):
    cur = st.fs.get(path, '')
    fs_set(st, path, strs.cat(cur, s))


def path_str(lib, st, p):
    if p.__class__ is Ref:
        o = st.get(p)
        if o.__class__ is Box and o.kind == 'path':
            p = o.f['p']
    v = lib.con(st, p)
    if v.__class__ is int:
        raise Unsupported('file descriptor path')
    if v.__class__ is AStr:
        # an abstract path: compare against the known files
        for k in list(st.fs):
            if st.eq(v, k, 'file name'):
                return k
        return ('abs', tuple(st.res(v)))
    if v.__class__ is not str:
        raise PyExc('TypeError', 'expected str, bytes or os.PathLike object')
    return v


WILD = '- [wild](#wild)\n'


def fs_exists(st, p):
    """files that nobody mentioned may exist if the obligation says so"""
    if p in st.fs or not st.opts.get('wild'):
        return p in st.fs
    k = ('nofile', p)
    if k in st.opts:
        return False

    def no(s):
        s.opts = dict(s.opts)
        s.opts[k] = True
        return True

    def yes(s):
        fs_set(s, p, WILD)
        return True
    raise Fork([no, yes], 'existence of a file')


def env(st, key):
    if not st.opts.get('wild'):
        return None
    k = ('env', key)
    if k in st.opts:
        return st.opts[k]

    def alt(v):
        def f(s):
            s.opts = dict(s.opts)
            s.opts[k] = v
            return True
        return f
    raise Fork([alt(v) for v in (None, '', '1', 'x', 'true')], 'environment variable')


def do_open(lib, vm, st, args, kw):
    names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline', 'closefd', 'opener']
    a = dict(zip(names, args))
    a.update(kw)
    p = path_str(lib, st, a['file'])
    mode = lib.con(st, a.get('mode', 'r'))
    if mode.__class__ is not str:
        raise Unsupported('file mode')
    newline = a.get('newline')
    newline = lib.con(st, newline) if newline is not None else None
    errors = a.get('errors')
    binary = 'b' in mode
    base = mode.replace('b', '').replace('t', '').replace('U', '')
    if errors not in (None, 'strict') and 'r' in base and '+' not in base:
        errors = lib.con(st, errors)
    exists = fs_exists(st, p) if base[0:1] == 'r' else p in st.fs
    if base[0:1] == 'r' and not exists:
        st.event('open', p, base)
        raise PyExc('FileNotFoundError', 2, 'No such file or directory')
    if base[0:1] == 'x' and exists:
        raise PyExc('FileExistsError', 17, 'File exists')
    st.event('open', p, base)
    if base[0:1] in ('w', 'x'):
        fs_set(st, p, '')
        st.event('write', p)
    if base[0:1] == 'a' and not exists:
        fs_set(st, p, '')
        st.event('write', p)
    f = {'path': p, 'mode': base, 'newline': newline, 'closed': False, 'binary': binary, 'name': p, 'errors': errors,
         'all': None, 'rest': None, 'marks': (), 'iterating': False, 'delete': False}
    if base == 'r+':
        raise Unsupported('r+ mode')
    return st.alloc(Box('file', f))


def universal(st, v):
    if v.__class__ is str:
        return v.replace('\r\n', '\n').replace('\r', '\n')
    v = strs.replace(st, v, '\r\n', '\n')
    return strs.replace(st, v, '\r', '\n')


def ensure(lib, st, ref):
    """load the text of a file opened for reading"""
    o = st.get(ref)
    if o.f['closed']:
        raise PyExc('ValueError', 'I/O operation on closed file.')
    if o.f['rest'] is not None:
        return o
    if o.f['mode'][0] not in 'r':
        raise PyExc('UnsupportedOperation', 'not readable')
    v = st.fs.get(o.f['path'], '')
    if o.f['binary']:
        v2 = v
    elif o.f['newline'] is None:
        v2 = universal(st, v)
    elif o.f['newline'] in ('', '\n'):
        v2 = v
    else:
        raise Unsupported('newline mode for reading')
    e = o.f.get('errors')
    if e not in (None, 'strict', 'surrogateescape') and not o.f['binary']:
        to = {'ignore': '', 'replace': '\ufffd', 'backslashreplace': '\\xff'}.get(e)
        if to is None:
            raise Unsupported('decoding errors handler')
        v2 = v2.replace(BAD, to) if v2.__class__ is str else strs.replace(st, v2, BAD, to)
    w = st.w(ref)
    w.f['all'] = v2
    w.f['rest'] = v2
    return w


def bad_mask():
    return 1 << chars.AT.atom(BAD)


def check_decodable(lib, st, o, line):
    if o.f.get('binary'):
        return
    r = strs.scan(st, st.res(line), bad_mask(), 'undecodable bytes') if line.__class__ is AStr else (BAD in line or None)
    if r is not None:
        e = o.f.get('errors')
        if e in (None, 'strict'):
            raise PyExc('UnicodeDecodeError', 'utf-8', b'\xff', 0, 1, 'invalid start byte')


def raw_line(st, rest):
    """a line of text read with newline='': it ends in LF, CR LF or CR as written"""
    r = strs.scan(st, st.res(rest), 1 << chars.AT.atom('\n') | 1 << chars.AT.atom('\r'), 'line end')
    if r is None:
        return from_parts(st.res(rest))
    l, c, rt = r
    if st.eq(c, '\n', 'line end'):
        e = '\n'
    else:
        e = '\r\n' if strs.startswith(st, from_parts(st.resp(rt)), '\n')[0] else '\r'
    return from_parts(st.resp(concat_parts(l, (e,))))


def file_readline(lib, vm, st, ref):
    o = ensure(lib, st, ref)
    rest = o.f['rest']
    if o.f['newline'] == '' and not o.f['binary']:
        line = raw_line(st, rest)
        check_decodable(lib, st, o, line)
        return line
    if rest.__class__ is str:
        i = rest.find('\n')
        line = rest if i < 0 else rest[:i + 1]
        check_decodable(lib, st, o, line)
        return line
    r = strs.scan(st, st.res(rest), 1 << chars.AT.atom('\n'), 'line end')
    if r is None:
        line = from_parts(st.res(rest))
    else:
        l, c, rt = r
        line = from_parts(st.resp(concat_parts(l, ('\n',))))
    check_decodable(lib, st, o, line)
    return line


def file_advance(lib, st, ref, line):
    w = st.w(ref)
    rest = w.f['rest']
    if rest.__class__ is str and line.__class__ is str:
        w.f['rest'] = rest[len(line):]
        return
    pl = st.res(line)
    pr = st.res(rest)
    # drop the prefix
    i = 0
    pl = list(pl)
    pr = list(pr)
    while pl:
        x, y = pl[0], pr[0]
        if x == y:
            pl.pop(0)
            pr.pop(0)
            continue
        if x.__class__ is str and y.__class__ is str and y.startswith(x):
            pl.pop(0)
            pr[0] = y[len(x):]
            continue
        if x.__class__ is str and y.__class__ is str and x.startswith(y):
            pl[0] = x[len(y):]
            pr.pop(0)
            continue
        # runs of one constant character
        if x.__class__ is tuple:
            c = st.cval(AStr((x,)))
            if c is not None:
                pl[0] = c
                continue
        if y.__class__ is tuple:
            c = st.cval(AStr((y,)))
            if c is not None:
                pr[0] = c
                continue
        raise Unsupported('file position')
    w.f['rest'] = from_parts(tuple(pr))


def consumed_len(st, o):
    a = st.length(o.f['all'])
    b = st.length(o.f['rest'])
    return st.norm(sub(a, b))


def close_file(lib, st, ref):
    w = st.w(ref)
    if not w.f['closed']:
        w.f['closed'] = True
        if w.f.get('delete'):
            st.event('unlink', w.f['path'])
            fs_set(st, w.f['path'], None)


def file_method(lib, vm, st, ref, o, name, args, kw):
    if name == 'readline':
        line = file_readline(lib, vm, st, ref)
        if args and args[0] not in (None, -1):
            line = strs.slice_(st, line, 0, args[0], None)
            rest = st.get(ref).f['rest']
            st.w(ref).f['rest'] = strs.slice_(st, rest, st.norm(st.length(line)), None, None)
            return line
        nonempty = lib.truth(vm, st, line)
        if nonempty:
            file_advance(lib, st, ref, line)
        return line
    if name == 'readlines':
        out = []
        o = ensure(lib, st, ref)
        rest = o.f['rest']
        cur = rest
        S = 1 << chars.AT.atom('\n')
        while True:
            if not strs.truthy_str(st, cur) if cur.__class__ is AStr else not cur:
                break
            r = strs.scan(st, st.res(cur), S, 'line end')
            if r is None:
                out.append(from_parts(st.res(cur)))
                break
            l, c, rt = r
            out.append(from_parts(st.resp(concat_parts(l, ('\n',)))))
            cur = from_parts(rt)
        for l in out:
            check_decodable(lib, st, o, l)
        st.w(ref).f['rest'] = ''
        return st.alloc(LObj(out))
    if name == 'read':
        if args and args[0] is not None and args[0] != -1:
            n = args[0]
            o = ensure(lib, st, ref)
            cur = o.f['rest']
            check_decodable(lib, st, o, cur)
            l = strs.slice_(st, cur, 0, n, None)
            r = strs.slice_(st, cur, n, None, None)
            st.w(ref).f['rest'] = r
            return l
        o = ensure(lib, st, ref)
        v = o.f['rest']
        check_decodable(lib, st, o, v)
        st.w(ref).f['rest'] = ''
        return v
    if name == 'tell':
        if o.f['path'] == '<stdin>':
            raise PyExc('UnsupportedOperation', 'underlying stream is not seekable')
        if o.f['iterating']:
            raise PyExc('OSError', 'telling position disabled by next() call')
        o = ensure(lib, st, ref)
        n = consumed_len(st, o)
        w = st.w(ref)
        w.f['marks'] = w.f['marks'][-3:] + ((n, w.f['rest']),)
        return n
    if name == 'seek':
        if o.f['path'] == '<stdin>':
            raise PyExc('UnsupportedOperation', 'underlying stream is not seekable')
        o = ensure(lib, st, ref)
        p = args[0]
        if len(args) > 1 and args[1] != 0:
            if args[1] == 2 and args[0] == 0:
                st.w(ref).f['rest'] = ''
                return st.length(o.f['all'])
            raise Unsupported('seek whence')
        for n, rest in reversed(o.f['marks']):
            if n is p or (st.norm(sub(n, p)).__class__ is int and st.norm(sub(n, p)) == 0):
                st.w(ref).f['rest'] = rest
                st.w(ref).f['iterating'] = False
                return p
        if p.__class__ is int and p == 0:
            rest = o.f['all']
        else:
            rest = strs.slice_(st, o.f['all'], p, None, None)
        w = st.w(ref)
        w.f['rest'] = rest
        w.f['iterating'] = False
        return p
    if name == 'write' or name == 'writelines':
        if o.f['closed']:
            raise PyExc('ValueError', 'I/O operation on closed file.')
        p = o.f['path']
        if o.f['mode'][0] not in 'wax' and p not in ('<stdout>', '<stderr>'):
            raise PyExc('UnsupportedOperation', 'not writable')
        if name == 'writelines':
            items = lib.iter_items(st, args[0])
            if items is None:
                raise Unsupported('writelines')
            s = strs.cat(*items) if items else ''
        else:
            s = args[0]
        if not is_str(s):
            if s is TOP:
                st.taint('write of unknown')
                s = '?'
            elif s.__class__ is Term and p in ('<stdout>', '<stderr>'):
                s = '<digest>'
            else:
                raise PyExc('TypeError', 'write() argument must be str')
        n = lib.length(vm, st, s)
        nl = o.f['newline']
        if nl in ('\r', '\r\n'):
            s = strs.replace(st, s, '\n', nl) if s.__class__ is AStr else s.replace('\n', nl)
        emit(lib, st, p, s)
        if p[0] != '<':
            st.event('write', p)
        return n
    if name in ('flush',):
        return None
    if name == 'close':
        close_file(lib, st, ref)
        return None
    if name == 'fileno':
        return 7
    if name in ('isatty',):
        return False
    if name == 'readable':
        return o.f['mode'][0] == 'r'
    if name == 'writable':
        return o.f['mode'][0] != 'r'
    if name == 'seekable':
        return o.f['path'] != '<stdin>'
    if name == '__enter__':
        return ref
    if name == '__exit__':
        close_file(lib, st, ref)
        return None
    if name == '__iter__':
        return lib.get_iter(vm, st, ref)
    if name == '__next__':
        line = file_readline(lib, vm, st, ref)
        if not lib.truth(vm, st, line):
            raise PyExc('StopIteration')
        w = st.w(ref)
        w.f['iterating'] = True
        file_advance(lib, st, ref, line)
        return line
    if name == 'truncate':
        if o.f['mode'][0] in 'wa':
            fs_set(st, o.f['path'], '')
            st.event('write', o.f['path'])
            return 0
    if name == 'reconfigure':
        return None
    raise Unsupported('file.' + name)


FILE_METHODS = {'readline', 'readlines', 'read', 'tell', 'seek', 'write', 'writelines', 'flush', 'close', 'fileno', 'isatty',
                'readable', 'writable', 'seekable', '__enter__', '__exit__', '__iter__', '__next__', 'truncate', 'reconfigure'}


# ===================================================================== paths
def path_join(lib, vm, st, base, more):
    p = path_str(lib, st, base)
    for m in more:
        p = os.path.join(p, path_str(lib, st, m))
    return mkpath(lib, st, p)


def mkpath(lib, st, p):
    return st.alloc(Box('path', {'p': p}))


def do_rename(lib, st, src, dst, kind='rename'):
    s, d = path_str(lib, st, src), path_str(lib, st, dst)
    if s not in st.fs:
        raise PyExc('FileNotFoundError', 2, 'No such file or directory')
    v = st.fs[s]
    st.event('rename', s, d)
    fs_set(st, d, v)
    if s != d:
        fs_set(st, s, None)
    return d


def do_copy(lib, st, src, dst):
    s, d = path_str(lib, st, src), path_str(lib, st, dst)
    if s not in st.fs:
        raise PyExc('FileNotFoundError', 2, 'No such file or directory')
    st.event('open', s, 'r')
    st.event('write', d)
    fs_set(st, d, st.fs[s])
    return d


def do_unlink(lib, st, p, missing_ok=False):
    s = path_str(lib, st, p)
    if s not in st.fs:
        if missing_ok:
            return None
        raise PyExc('FileNotFoundError', 2, 'No such file or directory')
    st.event('unlink', s)
    fs_set(st, s, None)
    return None


def mktemp(lib, st, args, kw, cls='named'):
    names = ['mode', 'buffering', 'encoding', 'newline', 'suffix', 'prefix', 'dir', 'delete']
    a = dict(zip(names, args))
    a.update(kw)
    mode = a.get('mode', 'w+b')
    st.nact += 1
    d = a.get('dir')
    d = path_str(lib, st, d) if d is not None else '/tmp'
    p = '%s/tmp%d%s' % (d, st.nact, a.get('suffix') or '')
    nl = a.get('newline')
    fs_set(st, p, '')
    st.event('open', p, 'w')
    st.event('write', p)
    base = mode.replace('b', '').replace('t', '').replace('+', '')
    f = {'path': p, 'mode': base, 'newline': lib.con(st, nl) if nl is not None else None, 'closed': False, 'binary': 'b' in mode,
         'name': p, 'errors': None, 'all': None, 'rest': None, 'marks': (), 'iterating': False,
         'delete': bool(a.get('delete', True))}
    return st.alloc(Box('file', f))


PATH_METHODS = {'read_text', 'write_text', 'open', 'exists', 'is_file', 'is_dir', 'unlink', 'rename', 'replace', 'resolve',
                'absolute', 'joinpath', 'with_suffix', 'with_name', '__fspath__', '__str__', 'expanduser', 'as_posix'}


def path_method(lib, vm, st, ref, o, name, args, kw):
    p = o.f['p']
    if name == 'open':
        return do_open(lib, vm, st, [p] + list(args), kw)
    if name == 'read_text':
        fo = do_open(lib, vm, st, [p, 'r'], {})
        v = file_method(lib, vm, st, fo, st.get(fo), 'read', [], {})
        close_file(lib, st, fo)
        return v
    if name == 'write_text':
        fo = do_open(lib, vm, st, [p, 'w'], {k: v for k, v in kw.items() if k in ('newline',)})
        v = file_method(lib, vm, st, fo, st.get(fo), 'write', [args[0]], {})
        close_file(lib, st, fo)
        return v
    if name in ('exists', 'is_file'):
        return fs_exists(st, p)
    if name == 'is_dir':
        return False
    if name == 'unlink':
        return do_unlink(lib, st, p, bool(kw.get('missing_ok', args[0] if args else False)))
    if name in ('rename', 'replace'):
        return mkpath(lib, st, do_rename(lib, st, p, args[0]))
    if name in ('resolve', 'absolute', 'expanduser'):
        return ref
    if name == 'joinpath':
        return path_join(lib, vm, st, ref, args)
    if name in ('__fspath__', '__str__', 'as_posix'):
        return p
    if name == 'with_suffix':
        return mkpath(lib, st, os.path.splitext(p)[0] + args[0])
    if name == 'with_name':
        return mkpath(lib, st, os.path.join(os.path.dirname(p), args[0]))
    raise Unsupported('Path.' + name)


# ===================================================================== regular expressions
def re_flags(lib, st, v):
    v = lib.con(st, v)
    if v.__class__ is not int:
        raise Unsupported('regex flags')
    return v


def get_pattern(lib, st, p, flags=0):
    if p.__class__ is Ref:
        o = st.get(p)
        if o.__class__ is Box and o.kind == 'pattern':
            return o.f['pat'], o.f['flags']
        raise PyExc('TypeError', 'first argument must be string or compiled pattern')
    s = lib.con(st, p)
    if s.__class__ is not str:
        if s.__class__ is AStr:
            raise Unsupported('abstract regular expression')
        raise PyExc('TypeError', 'first argument must be string or compiled pattern')
    try:
        rex.parse(s, flags)
    except _re.error as e:
        raise PyExc('re.error', str(e))
    return s, flags


def mk_match(lib, st, pat, flags, string, m):
    """m: rex.M"""
    if m is None:
        return None
    return st.alloc(Box('match', {'m': m, 'string': string, 'pat': pat, 'flags': flags}))


RE_FUNCS = ('match', 'fullmatch', 'search', 'sub', 'subn', 'split', 'findall', 'finditer')


def re_call(lib, vm, st, pat, flags, name, args, kw):
    if name in ('match', 'fullmatch', 'search', 'findall', 'finditer'):
        s = arg(args, kw, 0, 'string')
        if len(args) > 1 or 'pos' in kw:
            s = strs.slice_(st, s, args[1] if len(args) > 1 else kw['pos'], args[2] if len(args) > 2 else None, None)
            if not (args[1:2] == [0]):
                raise Unsupported('regex with a start position')
        if s is TOP:
            raise Unsupported('regex on an unknown value')
        if s.__class__ is Term:
            raise Unsupported('regex on a digest')
        if not is_str(s):
            raise PyExc('TypeError', 'expected string or bytes-like object, got %r' % lib.tname(st, s))
        if name in ('match', 'fullmatch', 'search'):
            return mk_match(lib, st, pat, flags, s, rex.run(st, pat, flags, s, name))
        ms = rex.finditer(st, pat, flags, s)
        if name == 'finditer':
            return st.alloc(It('tuple', tuple(mk_match(lib, st, pat, flags, s, m) for m in ms)))
        out = []
        ng = rex.ngroups(pat, flags)
        for m in ms:
            if ng == 0:
                out.append(m.group(st, 0))
            elif ng == 1:
                g = m.group(st, 1)
                out.append('' if g is None else g)
            else:
                out.append(tuple(('' if m.group(st, i) is None else m.group(st, i)) for i in range(1, ng + 1)))
        return st.alloc(LObj(out))
    if name in ('sub', 'subn'):
        repl = arg(args, kw, 0, 'repl')
        s = arg(args, kw, 1, 'string')
        count = lib.con(st, arg(args, kw, 2, 'count', 0))
        if s.__class__ is Term or s is TOP:
            raise Unsupported('regex on an unknown value')
        if not is_str(s):
            raise PyExc('TypeError', 'expected string or bytes-like object, got %r' % lib.tname(st, s))
        if not is_str(repl):
            p = st.alloc(Box('pattern', {'pat': pat, 'flags': flags}))
            return CallPy(lib.prelude(st, '_sub_callback'), [p, repl, s, count, name == 'subn'])
        r, n = rex.sub(st, pat, flags, lib.con(st, repl), s, count)
        return (r, n) if name == 'subn' else r
    if name == 'split':
        s = arg(args, kw, 0, 'string')
        mx = lib.con(st, arg(args, kw, 1, 'maxsplit', 0))
        return st.alloc(LObj(rex.split(st, pat, flags, s, mx)))
    raise Unsupported('re.' + name)


def match_method(lib, vm, st, ref, o, name, args, kw):
    m = o.f['m']
    gi = rex.groupindex(o.f['pat'], o.f['flags'])

    def idx(g):
        g = lib.con(st, g)
        if g.__class__ is str:
            if g not in gi:
                raise PyExc('IndexError', 'no such group')
            return gi[g]
        if g > rex.ngroups(o.f['pat'], o.f['flags']):
            raise PyExc('IndexError', 'no such group')
        return g
    if name == 'group' or name == '__getitem__':
        if not args:
            return m.group(st, 0)
        r = [m.group(st, idx(g)) for g in args]
        return r[0] if len(r) == 1 else tuple(r)
    if name == 'groups':
        d = args[0] if args else kw.get('default')
        return tuple((d if m.group(st, i) is None else m.group(st, i)) for i in range(1, rex.ngroups(o.f['pat'], o.f['flags']) + 1))
    if name == 'groupdict':
        return st.alloc(DObj({k: (k, m.group(st, i)) for k, i in gi.items()}))
    if name in ('start', 'end', 'span'):
        a, b = m.span(st, idx(args[0]) if args else 0)
        return a if name == 'start' else b if name == 'end' else (a, b)
    raise Unsupported('match.' + name)


# ===================================================================== Box protocol
def box_attr(lib, vm, st, ref, o, name):
    k = o.kind
    if k == 'file':
        if name in FILE_METHODS:
            return NM(ref, name)
        if name == 'name':
            return o.f['name']
        if name == 'closed':
            return o.f['closed']
        if name == 'mode':
            return o.f['mode']
        if name == 'encoding':
            return 'utf-8'
        if name == 'buffer':
            return OpaqueMod('file.buffer')
        return UNSET
    if k == 'path':
        if name in PATH_METHODS:
            return NM(ref, name)
        p = o.f['p']
        if name == 'name':
            return os.path.basename(p)
        if name == 'parent':
            return mkpath(lib, st, os.path.dirname(p) or '.')
        if name == 'suffix':
            return os.path.splitext(p)[1]
        if name == 'stem':
            return os.path.splitext(os.path.basename(p))[0]
        return UNSET
    if k == 'pattern':
        if name in RE_FUNCS:
            return NM(ref, name)
        if name == 'pattern':
            return o.f['pat']
        if name == 'flags':
            return o.f['flags']
        if name == 'groups':
            return rex.ngroups(o.f['pat'], o.f['flags'])
        return UNSET
    if k == 'match':
        if name in ('group', 'groups', 'groupdict', 'start', 'end', 'span', '__getitem__'):
            return NM(ref, name)
        if name == 'string':
            return o.f['string']
        if name == 'lastindex':
            raise Unsupported('lastindex')
        if name == 're':
            return st.alloc(Box('pattern', {'pat': o.f['pat'], 'flags': o.f['flags']}))
        return UNSET
    if k == 'hash':
        return NM(ref, name) if name in ('hexdigest', 'digest', 'update', 'copy') else (o.f.get('name', UNSET) if name == 'name' else UNSET)
    if k in ('keys', 'values', 'items'):
        return NM(ref, name) if name in ('__iter__', '__len__', '__contains__', 'isdisjoint') else UNSET
    if k == 'partial':
        if name == 'func':
            return o.f['fn']
        if name == 'args':
            return tuple(o.f['args'])
    if k == 'lru':
        if name in ('cache_clear', 'cache_info', 'cache_parameters'):
            return NM(ref, name)
        if name == '__wrapped__':
            return o.f['fn']
        if name in ('__name__', '__qualname__', '__doc__'):
            return None
        return UNSET
    if k == 'ns':
        return o.f.get(name, UNSET)
    if k == 'cached_property':
        return UNSET
    return UNSET


def box_method(lib, vm, st, ref, o, name, args, kw):
    k = o.kind
    if k == 'file':
        return file_method(lib, vm, st, ref, o, name, args, kw)
    if k == 'path':
        return path_method(lib, vm, st, ref, o, name, args, kw)
    if k == 'pattern':
        return re_call(lib, vm, st, o.f['pat'], o.f['flags'], name, args, kw)
    if k == 'match':
        return match_method(lib, vm, st, ref, o, name, args, kw)
    if k == 'hash':
        if name == 'update':
            w = st.w(ref)
            w.f['v'] = strs.cat(w.f['v'], hash_text(lib, st, args[0]))
            return None
        if name == 'copy':
            return st.alloc(Box('hash', dict(o.f)))
        v = o.f['v']
        if name == 'hexdigest':
            return Term(o.f['name'] + '.hex', (v,))
        return Term(o.f['name'] + '.digest', (v,))
    if k in ('keys', 'values', 'items'):
        items = lib.iter_items(st, ref)
        if name == '__len__':
            return len(items)
        if name == '__iter__':
            return lib.get_iter(vm, st, ref)
        if name == '__contains__':
            return lib.any_eq(vm, st, items, args[0])
    if k == 'lru':
        if name == 'cache_clear':
            st.w(o.f['cache']).d = {}
            st.w(o.f['cache']).nabs = 0
            return None
        return TOP
    raise Unsupported('%s.%s' % (k, name))


def box_subscr(lib, vm, st, ref, o, i):
    if o.kind == 'match':
        return match_method(lib, vm, st, ref, o, '__getitem__', [i], {})
    if o.kind == 'typing':
        return ref
    raise PyExc('TypeError', "'%s' object is not subscriptable" % o.kind)


def call_box(lib, vm, st, ref, o, args, kw):
    k = o.kind
    if k == 'partial':
        kk = dict(o.f['kw'])
        kk.update(kw)
        return CallPy(o.f['fn'], list(o.f['args']) + list(args), kk)
    if k == 'itemgetter':
        r = [lib.subscr(vm, st, args[0], i) for i in o.f['keys']]
        return r[0] if len(r) == 1 else tuple(r)
    if k == 'attrgetter':
        r = []
        for n in o.f['names']:
            v = args[0]
            for part in n.split('.'):
                v = lib.getattr(vm, st, v, part)
                if v.__class__ is CallPy:
                    raise Unsupported('attrgetter of a property')
            r.append(v)
        return r[0] if len(r) == 1 else tuple(r)
    if k == 'methodcaller':
        f = lib.getattr(vm, st, args[0], o.f['name'])
        return CallPy(f, list(o.f['args']), dict(o.f['kw']))
    if k == 'cmpkey':
        return st.alloc(Box('cmpval', {'fn': o.f['fn'], 'v': args[0]}))
    if k == 'lru':
        if kw:
            key = tuple(args) + tuple(x for p in sorted(kw.items()) for x in p)
        else:
            key = tuple(args)
        ik = lib.find_key(st, st.get(o.f['cache']), key)
        st.event('cache', st.get(o.f['fn']).name if o.f['fn'].__class__ is Ref else '?')
        if ik is not UNSET:
            return st.get(o.f['cache']).d[ik][1]
        if kw:
            fn = st.alloc(Box('partial', {'fn': o.f['fn'], 'args': (), 'kw': dict(kw)}))
        else:
            fn = o.f['fn']
        return CallPy(lib.prelude(st, '_lru'), [fn, o.f['cache'], tuple(args), key])
    if k == 'typing':
        return args[0] if args else None
    if k == 'deco':
        return o.f['fn'](vm, st, args, kw)
    raise PyExc('TypeError', "'%s' object is not callable" % k)


# ===================================================================== hashes
def hash_text(lib, st, v):
    if v.__class__ is Term and v.f == 'utf8':
        return v.args[0]
    v = lib.con(st, v)
    if v.__class__ is bytes:
        try:
            return v.decode('utf-8')
        except UnicodeDecodeError:
            raise Unsupported('hash of bytes')
    if is_str(v):
        raise PyExc('TypeError', 'Strings must be encoded before hashing')
    raise Unsupported('hash of bytes')


def mk_hash(name):
    def f(lib):
        def g(vm, st, args, kw):
            v = hash_text(lib, st, args[0]) if args else ''
            if v.__class__ is Term:
                v = v
            return st.alloc(Box('hash', {'name': name, 'v': v}))
        return g
    return f


# ===================================================================== copy
def deepcopy(lib, vm, st, v, memo):
    c = v.__class__
    if c is tuple:
        return tuple(deepcopy(lib, vm, st, x, memo) for x in v)
    if c is Ref:
        if v.a in memo:
            return memo[v.a]
        o = st.get(v)
        oc = o.__class__
        if oc is LObj:
            r = st.alloc(LObj([], o.kind))
            memo[v.a] = r
            items = [deepcopy(lib, vm, st, x, memo) for x in o.items]
            st.w(r).items = items
            return r
        if oc is DObj:
            r = st.alloc(DObj({}, o.nabs, o.kind, o.extra))
            memo[v.a] = r
            d = {ik: (deepcopy(lib, vm, st, k, memo), deepcopy(lib, vm, st, w, memo)) for ik, (k, w) in o.d.items()}
            st.w(r).d = d
            return r
        if oc is SObj:
            return st.alloc(SObj(dict(o.d), o.nabs, o.kind))
        if oc is Inst:
            if vm.lookup_mro(st, o.cls, '__deepcopy__') is not UNSET:
                raise Unsupported('__deepcopy__')
            if st.get(o.cls).kind == 'enum':
                return v
            r = st.alloc(Inst(o.cls, {}))
            memo[v.a] = r
            f = {k: deepcopy(lib, vm, st, w, memo) for k, w in o.f.items()}
            st.w(r).f = f
            return r
        if oc is Box and o.kind not in ('path', 'pattern', 'match', 'hash'):
            raise Unsupported('deepcopy of ' + o.kind)
        return v
    return v


def shallow(lib, vm, st, v):
    if v.__class__ is Ref:
        o = st.get(v)
        if o.__class__ in (LObj, DObj, SObj):
            return st.alloc(o.clone())
        if o.__class__ is Inst:
            if vm.lookup_mro(st, o.cls, '__copy__') is not UNSET:
                return CallPy(vm.lookup_mro(st, o.cls, '__copy__'), [v])
            return st.alloc(o.clone())
    return v


# ===================================================================== modules
def mod(st, name, f):
    f = dict(f)
    f.setdefault('__name__', name)
    return st.alloc(Mod(name, f, None))


def conc_fn(lib, fn, name):
    """native wrapper of a pure function on concrete arguments"""
    def g(vm, st, args, kw):
        a = [lib.con(st, x) for x in args]
        k = {n: lib.con(st, x) for n, x in kw.items()}
        ok = (int, bool, float, str, bytes, type(None))
        if all(x.__class__ in ok for x in a) and all(x.__class__ in ok for x in k.values()):
            try:
                return lib.wrap(st, fn(*a, **k))
            except Unsupported:
                raise
            except Exception as e:
                raise PyExc(type(e).__name__ if type(e).__name__ in lib.excs else 'ValueError', str(e))
        raise Unsupported(name + ' on abstract arguments')
    return NF(name, g)


def typing_mod(lib, st):
    f = {}
    t = st.alloc(Box('typing', {}))
    for n in ('Any', 'Union', 'Optional', 'List', 'Dict', 'Tuple', 'Set', 'FrozenSet', 'Sequence', 'Iterable', 'Iterator', 'Callable',
              'Mapping', 'MutableMapping', 'Literal', 'Final', 'ClassVar', 'Generic', 'Protocol', 'Type', 'NoReturn', 'TextIO', 'IO',
              'Text', 'Annotated', 'Generator', 'Pattern', 'Match', 'Hashable', 'Self', 'TypeAlias', 'Never', 'Collection', 'Deque',
              'DefaultDict', 'Counter', 'OrderedDict', 'SupportsInt', 'Required', 'NotRequired', 'AnyStr', 'Concatenate', 'LiteralString'):
        f[n] = t
    f['TYPE_CHECKING'] = False
    f['cast'] = NF('cast', lambda vm, st, a, k: a[1])
    for n in ('overload', 'final', 'no_type_check', 'runtime_checkable', 'override'):
        f[n] = NF(n, lambda vm, st, a, k: a[0])
    f['TypeVar'] = NF('TypeVar', lambda vm, st, a, k: t)
    f['ParamSpec'] = f['TypeVar']
    f['NewType'] = NF('NewType', lambda vm, st, a, k: NF('newtype', lambda vm, st, b, kk: b[0]))
    td = st.alloc(Cls('TypedDict', (), (), {}, 'typeddict'))
    st.w(td).mro = (td,)
    f['TypedDict'] = td
    nt = st.alloc(Cls('NamedTuple', (), (), {}, 'ntbase'))
    st.w(nt).mro = (nt,)
    f['NamedTuple'] = nt
    f['get_type_hints'] = NF('get_type_hints', lambda vm, st, a, k: st.alloc(DObj()))
    f['get_args'] = NF('get_args', lambda vm, st, a, k: TOP)
    return mod(st, 'typing', f)


def native_module(lib, vm, st, name):
    P = lambda n: lib.prelude(st, n)

    def callprelude(pn, mk=None):
        def g(vm, st, args, kw):
            a = mk(args, kw) if mk else list(args)
            return CallPy(lib.prelude(st, pn), a)
        return NF(pn, g)
    if name == '__future__':
        return mod(st, name, {n: TOP for n in ('annotations', 'division', 'print_function', 'absolute_import', 'generator_stop', 'unicode_literals')})
    if name == 'typing' or name == 'typing_extensions':
        return typing_mod(lib, st)
    if name in ('collections.abc',):
        m = typing_mod(lib, st)
        return m
    if name == 're':
        f = {}
        for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE', 'L', 'LOCALE', 'NOFLAG'):
            f[n] = int(getattr(_re, n))
        f['error'] = lib.excs['re.error']

        def compile_(vm, st, args, kw):
            fl = re_flags(lib, st, arg(args, kw, 1, 'flags', 0))
            pat, flags = get_pattern(lib, st, arg(args, kw, 0, 'pattern'), fl)
            return st.alloc(Box('pattern', {'pat': pat, 'flags': flags}))
        f['compile'] = NF('re.compile', compile_)
        f['escape'] = conc_fn(lib, _re.escape, 're.escape')

        def esc(vm, st, args, kw):
            v = lib.con(st, args[0])
            if v.__class__ is str:
                return _re.escape(v)
            raise Unsupported('re.escape of abstract text')
        f['escape'] = NF('re.escape', esc)
        f['purge'] = NF('purge', lambda vm, st, a, k: None)

        def mkf(n):
            nargs = {'sub': 4, 'subn': 4, 'split': 3}.get(n, 2)

            def g(vm, st, args, kw):
                kw = dict(kw)
                args = list(args)
                if len(args) > nargs:
                    fl = args[nargs]
                    args = args[:nargs]
                else:
                    fl = kw.pop('flags', 0)
                if nargs == 2 and len(args) > 2:
                    fl = args[2]
                p = args.pop(0) if args else kw.pop('pattern')
                pat, flags = get_pattern(lib, st, p, re_flags(lib, st, fl))
                return re_call(lib, vm, st, pat, flags, n, args, kw)
            return NF('re.' + n, g)
        for n in RE_FUNCS:
            f[n] = mkf(n)
        f['Pattern'] = st.alloc(Box('typing', {}))
        f['Match'] = st.alloc(Box('typing', {}))
        return mod(st, name, f)
    if name == 'sys':
        f = {'maxsize': sys.maxsize, 'argv': st.alloc(LObj(['md_toc'])), 'platform': 'linux', 'maxunicode': 0x10ffff,
             'version_info': (3, 12, 3, 'final', 0), 'modules': st.alloc(DObj()), 'version': '3.12.3', 'byteorder': 'little',
             'path': st.alloc(LObj([]))}
        for n in ('stdin', 'stdout', 'stderr'):
            f[n] = st.alloc(Box('file', {'path': '<%s>' % n, 'mode': 'r' if n == 'stdin' else 'w', 'newline': None, 'closed': False,
                                         'binary': False, 'name': '<%s>' % n, 'errors': None, 'all': None, 'rest': None, 'marks': (),
                                         'iterating': False, 'delete': False}))

        def ex(vm, st, args, kw):
            raise PyExc('SystemExit', *(args or [None]))
        f['exit'] = NF('sys.exit', ex)
        f['intern'] = NF('intern', lambda vm, st, a, k: a[0])
        f['getrecursionlimit'] = NF('grl', lambda vm, st, a, k: 1000)
        f['setrecursionlimit'] = NF('srl', lambda vm, st, a, k: None)
        f['getdefaultencoding'] = NF('gde', lambda vm, st, a, k: 'utf-8')
        f['getfilesystemencoding'] = f['getdefaultencoding']
        f['exc_info'] = NF('exc_info', lambda vm, st, a, k: (TOP, st.exc, TOP))
        f['getsizeof'] = NF('getsizeof', lambda vm, st, a, k: TOP)
        return mod(st, name, f)
    if name in ('os.path', 'posixpath'):
        f = {'sep': '/'}

        def mk1(fn):
            def g(vm, st, args, kw):
                return fn(path_str(lib, st, args[0]))
            return g
        for n in ('basename', 'dirname', 'abspath', 'normpath', 'splitext', 'expanduser', 'realpath', 'split', 'expandvars'):
            real = getattr(os.path, n)
            if n in ('abspath', 'realpath', 'expanduser', 'expandvars'):
                real = lambda p: p
            f[n] = NF(n, mk1(real))
        f['join'] = NF('join', lambda vm, st, a, k: os.path.join(*[path_str(lib, st, x) for x in a]))
        for n in ('exists', 'isfile', 'lexists'):
            f[n] = NF(n, lambda vm, st, a, k: fs_exists(st, path_str(lib, st, a[0])))
        f['isdir'] = NF('isdir', lambda vm, st, a, k: path_str(lib, st, a[0]) in ('/', '/tmp', ''))
        f['islink'] = NF('islink', lambda vm, st, a, k: False)
        f['getsize'] = NF('getsize', lambda vm, st, a, k: TOP)
        f['samefile'] = NF('samefile', lambda vm, st, a, k: path_str(lib, st, a[0]) == path_str(lib, st, a[1]))
        f['isabs'] = NF('isabs', lambda vm, st, a, k: os.path.isabs(path_str(lib, st, a[0])))
        return mod(st, name, f)
    if name == 'os':
        pm = lib.load_module(vm, st, 'os.path')
        f = {'linesep': '\n', 'sep': '/', 'path': pm, 'name': 'posix', 'environ': P('_environ'),
             'devnull': '/dev/null', 'curdir': '.', 'pardir': '..', 'extsep': '.', 'altsep': None, 'EX_OK': 0}
        f['fsync'] = NF('fsync', lambda vm, st, a, k: st.event('fsync'))
        f['fdatasync'] = f['fsync']
        f['sync'] = f['fsync']
        f['rename'] = NF('rename', lambda vm, st, a, k: (do_rename(lib, st, a[0], a[1]), None)[1])
        f['replace'] = f['rename']
        f['remove'] = NF('remove', lambda vm, st, a, k: do_unlink(lib, st, a[0]))
        f['unlink'] = f['remove']
        f['getcwd'] = NF('getcwd', lambda vm, st, a, k: '/cwd')
        f['fspath'] = NF('fspath', lambda vm, st, a, k: path_str(lib, st, a[0]))
        f['fsencode'] = NF('fsencode', lambda vm, st, a, k: TOP)
        f['getpid'] = NF('getpid', lambda vm, st, a, k: TOP)
        f['stat'] = NF('stat', lambda vm, st, a, k: TOP)
        f['close'] = NF('close', lambda vm, st, a, k: None)
        f['chmod'] = NF('chmod', lambda vm, st, a, k: st.event('chmod', path_str(lib, st, a[0])))
        f['utime'] = NF('utime', lambda vm, st, a, k: st.event('utime', path_str(lib, st, a[0])))
        f['access'] = NF('access', lambda vm, st, a, k: fs_exists(st, path_str(lib, st, a[0])))
        f['R_OK'], f['W_OK'], f['F_OK'], f['X_OK'] = 4, 2, 0, 1

        f['getenv'] = lib.prelude(st, '_getenv')
        for n in ('system', 'popen', 'execv', 'execvp', 'fork', 'kill', 'spawnv', 'mkdir', 'makedirs', 'rmdir', 'link', 'symlink',
                  'truncate', 'open', 'write', 'startfile', 'putenv', 'chown', 'posix_spawn', 'execl', 'execlp', 'removedirs'):
            def mk(n):
                def g(vm, st, a, k):
                    st.event('extern', 'os.' + n)
                    st.taint('os.' + n)
                    return TOP
                return g
            f[n] = NF('os.' + n, mk(n))
        f['PathLike'] = st.alloc(Box('typing', {}))
        return mod(st, name, f)
    if name == 'io':
        f = {'open': lib.builtins['open'], 'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2, 'DEFAULT_BUFFER_SIZE': 8192,
             'UnsupportedOperation': lib.excs['UnsupportedOperation'], 'StringIO': P('_StringIO'),
             'TextIOWrapper': st.alloc(Box('typing', {})), 'TextIOBase': st.alloc(Box('typing', {})), 'IOBase': st.alloc(Box('typing', {}))}
        return mod(st, name, f)
    if name == 'copy':
        return mod(st, name, {'deepcopy': NF('deepcopy', lambda vm, st, a, k: deepcopy(lib, vm, st, a[0], {})),
                              'copy': NF('copy', lambda vm, st, a, k: shallow(lib, vm, st, a[0]))})
    if name == 'hashlib':
        f = {}
        for n in ('sha1', 'sha256', 'sha512', 'sha384', 'sha224', 'md5', 'sha3_256', 'sha3_512', 'blake2b', 'blake2s'):
            f[n] = NF(n, mk_hash(n)(lib))

        def new(vm, st, args, kw):
            n = lib.con(st, args[0])
            return mk_hash(n)(lib)(vm, st, args[1:], {})
        f['new'] = NF('hashlib.new', new)
        return mod(st, name, f)
    if name in ('zlib', 'binascii'):
        def crc(vm, st, args, kw):
            return Term('weak:crc32', (hash_text(lib, st, args[0]),))
        return mod(st, name, {'crc32': NF('crc32', crc), 'adler32': NF('adler32', lambda vm, st, a, k: Term('weak:adler32', (hash_text(lib, st, a[0]),)))})
    if name == 'dataclasses':
        def field(vm, st, args, kw):
            d = kw.get('default', UNSET)
            if 'default_factory' in kw:
                d = ('\0factory', kw['default_factory'])
            return st.alloc(Box('dcfield', {'default': d, 'init': kw.get('init', True)}))

        def deco(st, cls, opts):
            o = st.w(cls)
            flds = {}
            for b in reversed(o.mro[1:]):
                bf = st.get(b).f.get('__dataclass_fields__')
                if bf:
                    flds.update(bf)
            ann = o.f.get('__annotations__')
            for k, v in (st.get(ann).d.values() if ann is not None else ()):
                d = o.f.get(k, UNSET)
                init = True
                if d.__class__ is Ref and st.get(d).__class__ is Box and st.get(d).kind == 'dcfield':
                    init = st.get(d).f['init']
                    d = st.get(d).f['default']
                    if d is UNSET or d.__class__ is tuple:
                        o.f.pop(k, None)
                    else:
                        o.f[k] = d
                flds[k] = (d, init)
            o.f['__dataclass_fields__'] = flds
            if opts.get('frozen'):
                o.f['__dc_frozen__'] = True
            if opts.get('eq', True) is False:
                o.f['__dc_eq__'] = False
            return cls

        def dataclass(vm, st, args, kw):
            if args and args[0] is not None:
                return deco(st, args[0], {})
            o = {k: lib.con(st, v) for k, v in kw.items()}
            return NF('dataclass', lambda vm, st, a, k: deco(st, a[0], o))

        def asdict(vm, st, args, kw):
            o = st.get(args[0])
            flds = vm.lookup_mro(st, o.cls, '__dataclass_fields__')
            return st.alloc(DObj({k: (k, deepcopy(lib, vm, st, o.f[k], {})) for k in flds}))

        def replace(vm, st, args, kw):
            o = st.get(args[0])
            flds = vm.lookup_mro(st, o.cls, '__dataclass_fields__')
            kk = {k: o.f[k] for k in flds}
            kk.update(kw)
            return CallPy(o.cls, [], kk)
        return mod(st, name, {'dataclass': NF('dataclass', dataclass), 'field': NF('field', field), 'asdict': NF('asdict', asdict),
                              'replace': NF('replace', replace)})
    if name == 'enum':
        e = st.alloc(Cls('Enum', (), (), {}, 'enumbase'))
        st.w(e).mro = (e,)
        f = {'Enum': e}
        for n in ('IntEnum', 'StrEnum', 'Flag', 'IntFlag'):
            x = st.alloc(Cls(n, (e,), (), {}, 'enumbase'))
            st.w(x).mro = (x, e)
            f[n] = x
        f['auto'] = NF('auto', lambda vm, st, a, k: st.alloc(Box('auto', {})))
        f['unique'] = NF('unique', lambda vm, st, a, k: a[0])
        return mod(st, name, f)
    if name == 'functools':
        def partial(vm, st, args, kw):
            return st.alloc(Box('partial', {'fn': args[0], 'args': tuple(args[1:]), 'kw': dict(kw)}))

        def lru(vm, st, args, kw):
            if args and args[0].__class__ is Ref and st.get(args[0]).__class__ is Func:
                return st.alloc(Box('lru', {'fn': args[0], 'cache': st.alloc(DObj())}))
            return NF('lru', lambda vm, st, a, k: st.alloc(Box('lru', {'fn': a[0], 'cache': st.alloc(DObj())})))
        f = {'partial': NF('partial', partial), 'lru_cache': NF('lru_cache', lru), 'cache': NF('cache', lru),
             'reduce': callprelude('_reduce'),
             'cmp_to_key': NF('cmp_to_key', lambda vm, st, a, k: st.alloc(Box('cmpkey', {'fn': a[0]}))),
             'wraps': NF('wraps', lambda vm, st, a, k: NF('wraps2', lambda vm, st, b, kk: b[0])),
             'total_ordering': NF('total_ordering', lambda vm, st, a, k: a[0]),
             'cached_property': NF('cached_property', lambda vm, st, a, k: Prop(a[0]))}
        return mod(st, name, f)
    if name == 'itertools':
        f = {'chain': NT('chain', lambda vm, st, a, k: CallPy(lib.prelude(st, '_chain'), a)),
             'takewhile': callprelude('_takewhile'), 'dropwhile': callprelude('_dropwhile'),
             'starmap': callprelude('_starmap'), 'filterfalse': callprelude('_filterfalse'), 'pairwise': callprelude('_pairwise'),
             'product': NF('product', lambda vm, st, a, k: CallPy(lib.prelude(st, '_product'), [list_of(st, a)])),
             'count': NF('count', lambda vm, st, a, k: CallPy(lib.prelude(st, '_count'), [arg(a, k, 0, 'start', 0), arg(a, k, 1, 'step', 1)])),
             'repeat': NF('repeat', lambda vm, st, a, k: CallPy(lib.prelude(st, '_repeat'), [a[0], arg(a, k, 1, 'times')])),
             'groupby': NF('groupby', lambda vm, st, a, k: CallPy(lib.prelude(st, '_groupby'), [a[0], arg(a, k, 1, 'key')])),
             'accumulate': NF('accumulate', lambda vm, st, a, k: CallPy(lib.prelude(st, '_accumulate'), [a[0], arg(a, k, 1, 'func'), k.get('initial')])),
             'zip_longest': NF('zip_longest', lambda vm, st, a, k: CallPy(lib.prelude(st, '_zip_longest'), [list_of(st, a), k.get('fillvalue')]))}

        def islice(vm, st, a, k):
            if len(a) == 2:
                x = [a[0], 0, a[1], 1]
            else:
                x = [a[0], a[1] or 0, a[2], a[3] if len(a) > 3 and a[3] is not None else 1]
            return CallPy(lib.prelude(st, '_islice'), x)
        f['islice'] = NF('islice', islice)
        return mod(st, name, f)
    if name == 'collections':
        def defaultdict(vm, st, args, kw):
            r = st.alloc(DObj({k: (k, v) for k, v in kw.items()}, 0, 'defaultdict', args[0] if args else None))
            if len(args) > 1:
                o = st.get(args[1])
                if o.__class__ is not DObj:
                    raise Unsupported('defaultdict init')
                for k, v in list(o.d.values()):
                    lib.dict_set(st, r, k, v)
            return r

        def counter(vm, st, args, kw):
            r = st.alloc(DObj({}, 0, 'Counter'))
            if args:
                items = lib.iter_items(st, args[0])
                if items is None:
                    raise Unsupported('Counter init')
                for x in items:
                    v = lib.dict_get(st, r, x)
                    lib.dict_set(st, r, x, 1 if v is UNSET else add(v, 1))
            return r

        def deque(vm, st, args, kw):
            if arg(args, kw, 1, 'maxlen') is not None:
                raise Unsupported('bounded deque')
            if not args:
                return st.alloc(LObj([], 'deque'))
            items = lib.iter_items(st, args[0])
            if items is None:
                raise Unsupported('deque init')
            return st.alloc(LObj(list(items), 'deque'))

        def ordered(vm, st, args, kw):
            return lib.t_dict(vm, st, args, kw)

        def namedtuple(vm, st, args, kw):
            flds = args[1]
            flds = lib.con(st, flds)
            flds = flds.replace(',', ' ').split() if flds.__class__ is str else [lib.con(st, x) for x in lib.iter_items(st, flds)]
            defs = kw.get('defaults')
            dd = {}
            if defs is not None:
                ds = lib.iter_items(st, defs)
                dd = dict(zip(flds[len(flds) - len(ds):], ds))
            r = st.alloc(Cls(lib.con(st, args[0]), (), (), {'__ntf__': flds, '__ntd__': dd}, 'namedtuple'))
            st.w(r).mro = (r,)
            return r
        f = {'defaultdict': NF('defaultdict', defaultdict), 'Counter': NF('Counter', counter), 'deque': NF('deque', deque),
             'OrderedDict': NF('OrderedDict', ordered), 'namedtuple': NF('namedtuple', namedtuple)}
        return mod(st, name, f)
    if name == 'operator':
        f = {}
        for n, i in (('add', 0), ('and_', 1), ('floordiv', 2), ('lshift', 3), ('mul', 5), ('mod', 6), ('or_', 7), ('pow', 8),
                     ('rshift', 9), ('sub', 10), ('truediv', 11), ('xor', 12)):
            f[n] = NF(n, (lambda i: (lambda vm, st, a, k: lib.binop(vm, st, i, a[0], a[1])))(i))
        for n, o in (('lt', '<'), ('le', '<='), ('eq', '=='), ('ne', '!='), ('gt', '>'), ('ge', '>=')):
            f[n] = NF(n, (lambda o: (lambda vm, st, a, k: lib.compare(vm, st, o, a[0], a[1])))(o))
        f['not_'] = NF('not_', lambda vm, st, a, k: not lib.truth(vm, st, a[0]))
        f['truth'] = NF('truth', lambda vm, st, a, k: lib.truth(vm, st, a[0]))
        f['contains'] = NF('contains', lambda vm, st, a, k: lib.contains(vm, st, a[0], a[1]))
        f['getitem'] = NF('getitem', lambda vm, st, a, k: lib.subscr(vm, st, a[0], a[1]))
        f['itemgetter'] = NF('itemgetter', lambda vm, st, a, k: st.alloc(Box('itemgetter', {'keys': tuple(a)})))
        f['attrgetter'] = NF('attrgetter', lambda vm, st, a, k: st.alloc(Box('attrgetter', {'names': tuple(a)})))
        f['methodcaller'] = NF('methodcaller', lambda vm, st, a, k: st.alloc(Box('methodcaller', {'name': a[0], 'args': tuple(a[1:]), 'kw': dict(k)})))
        f['is_'] = NF('is_', lambda vm, st, a, k: lib.is_(vm, st, a[0], a[1]))
        f['is_not'] = NF('is_not', lambda vm, st, a, k: not lib.is_(vm, st, a[0], a[1]))
        f['neg'] = NF('neg', lambda vm, st, a, k: lib.binop(vm, st, 10, 0, a[0]))
        f['index'] = NF('index', lambda vm, st, a, k: a[0])
        return mod(st, name, f)
    if name == 'string':
        return mod(st, name, {n: getattr(_string, n) for n in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits',
                                                               'octdigits', 'punctuation', 'printable', 'whitespace')})
    if name == 'unicodedata':
        f = {}

        def category(vm, st, args, kw):
            v = lib.con(st, args[0])
            if v.__class__ is str:
                return unicodedata.category(v)
            p = st.res(v)
            if len(p) != 1 or p[0].__class__ is str:
                raise PyExc('TypeError', 'need a single Unicode character')
            sid, h, rev = p[0]
            A = chars.AT
            tab = {}
            for a in A.atoms_in(st.segs[sid][0]):
                o = h.table.get(a) if h is not None else None
                if o is None:
                    cs = {unicodedata.category(x) for x in A.samples[a]}
                elif o.__class__ is str:
                    if len(o) != 1:
                        raise Unsupported('category of replaced text')
                    cs = {unicodedata.category(o)}
                elif o is chars.LOW or o is chars.UP:
                    cs = {unicodedata.category(x.lower() if o is chars.LOW else x.upper()) for x in A.samples[a]}
                else:
                    raise Unsupported('category of a mapped char')
                if len(cs) != 1:
                    raise Unsupported('category of a mapped char')
                tab[a] = cs.pop()
            if len(set(tab.values())) == 1:
                return next(iter(tab.values()))
            return AStr(((sid, chars.Hom.make(tab), False),))
        f['category'] = NF('category', category)

        def normalize(vm, st, args, kw):
            v = lib.con(st, args[1])
            form = lib.con(st, args[0])
            if v.__class__ is str:
                return unicodedata.normalize(form, v)
            # below U+0300 every character is a starter that composes with nothing before it: the form is a map of characters
            A = chars.AT
            if not strs.all_in(st, v, (1 << chars.INDIV) - 1):
                raise Unsupported('normalize of other scripts')
            t = {a: unicodedata.normalize(form, A.rep[a]) for a in range(chars.INDIV)}
            return strs.apply_hom(st, v, chars.Hom.make({a: x for a, x in t.items() if x != A.rep[a]}))
        f['normalize'] = NF('normalize', normalize)
        for n in ('name', 'lookup', 'combining', 'bidirectional', 'east_asian_width', 'numeric', 'decimal', 'digit'):
            f[n] = conc_fn(lib, getattr(unicodedata, n), n)
        return mod(st, name, f)
    if name in ('html', 'html.entities'):
        if name == 'html.entities':
            d = html.entities.html5
            return mod(st, name, {'html5': st.alloc(DObj({k: (k, v) for k, v in d.items()})),
                                  'name2codepoint': st.alloc(DObj({k: (k, v) for k, v in html.entities.name2codepoint.items()}))})
        m = mod(st, name, {'unescape': conc_fn(lib, _html.unescape, 'html.unescape'), 'escape': conc_fn(lib, _html.escape, 'html.escape')})
        # `import html` makes html.entities available (html/__init__ imports from it)
        st.mods_ = dict(st.mods_)
        st.mods_['html'] = m
        ent = lib.load_module(vm, st, 'html.entities')
        st.w(m).f['entities'] = ent
        return m
    if name == 'tempfile':
        f = {'NamedTemporaryFile': NF('NamedTemporaryFile', lambda vm, st, a, k: mktemp(lib, st, a, k)),
             'TemporaryFile': NF('TemporaryFile', lambda vm, st, a, k: mktemp(lib, st, a, k)),
             'gettempdir': NF('gettempdir', lambda vm, st, a, k: '/tmp')}

        def mkstemp(vm, st, a, k):
            r = mktemp(lib, st, [], {'mode': 'w', 'dir': k.get('dir'), 'suffix': k.get('suffix'), 'delete': False})
            return (7, st.get(r).f['path'])
        f['mkstemp'] = NF('mkstemp', mkstemp)
        return mod(st, name, f)
    if name == 'shutil':
        f = {'move': NF('move', lambda vm, st, a, k: do_rename(lib, st, a[0], a[1]))}
        for n in ('copy', 'copyfile', 'copy2'):
            f[n] = NF(n, lambda vm, st, a, k: do_copy(lib, st, a[0], a[1]))
        f['copymode'] = NF('copymode', lambda vm, st, a, k: None)
        f['copystat'] = f['copymode']
        nt = st.alloc(Box('ns', {'columns': 80, 'lines': 24}))
        f['get_terminal_size'] = NF('gts', lambda vm, st, a, k: nt)

        def rmtree(vm, st, a, k):
            st.event('extern', 'shutil.rmtree')
            st.taint('rmtree')
        f['rmtree'] = NF('rmtree', rmtree)
        return mod(st, name, f)
    if name == 'pathlib':
        pt = NF('Path', lambda vm, st, a, k: path_join(lib, vm, st, a[0] if a else '.', a[1:]))
        return mod(st, name, {'Path': pt, 'PurePath': pt, 'PosixPath': pt})
    if name == 'traceback':
        def pe(vm, st, a, k):
            emit(lib, st, '<stderr>', 'Traceback')
            return None
        return mod(st, name, {'print_exc': NF('print_exc', pe), 'print_exception': NF('pe', pe),
                              'format_exc': NF('fe', lambda vm, st, a, k: 'Traceback')})
    if name == 'importlib':
        return mod(st, name, {'import_module': NF('import_module', lambda vm, st, a, k: lib.load_module(vm, st, lib.con(st, a[0])))})
    if name == 'importlib.metadata':
        d = st.alloc(Box('ns', {'version': '8.2.0'}))
        return mod(st, name, {'distribution': NF('distribution', lambda vm, st, a, k: d),
                              'version': NF('version', lambda vm, st, a, k: '8.2.0'),
                              'PackageNotFoundError': lib.excs['PackageNotFoundError']})
    if name == 'abc':
        a = st.alloc(Cls('ABC', (), (), {}, ''))
        st.w(a).mro = (a,)
        return mod(st, name, {'ABC': a, 'abstractmethod': NF('abstractmethod', lambda vm, st, a, k: a[0]), 'ABCMeta': st.alloc(Box('typing', {}))})
    if name == 'gettext':
        ident = NF('gettext', lambda vm, st, a, k: a[0])
        return mod(st, name, {'gettext': ident,
                              'ngettext': NF('ngettext', lambda vm, st, a, k: a[0] if lib.int_eq(st, a[2], 1) else a[1])})
    if name == 'warnings':
        return mod(st, name, {'warn': NF('warn', lambda vm, st, a, k: None), 'filterwarnings': NF('fw', lambda vm, st, a, k: None),
                              'simplefilter': NF('sf', lambda vm, st, a, k: None)})
    if name == 'logging':
        def lg(vm, st, a, k):
            return None
        l = st.alloc(Box('ns', {n: NF(n, lg) for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'setLevel', 'addHandler')}))
        f = {n: NF(n, lg) for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'basicConfig')}
        f['getLogger'] = NF('getLogger', lambda vm, st, a, k: l)
        f['NullHandler'] = NF('nh', lg)
        for n, v in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40)):
            f[n] = v
        return mod(st, name, f)
    if name == 'contextlib':
        return mod(st, name, {'suppress': P('_Suppress'), 'nullcontext': P('_NullContext'), 'closing': P('_Closing'),
                              'contextmanager': P('_contextmanager'), 'ExitStack': P('_ExitStack')})
    if name == 'types':
        ns = NF('SimpleNamespace', lambda vm, st, a, k: simple_ns(lib, st, k))
        return mod(st, name, {'SimpleNamespace': ns, 'MappingProxyType': NF('MappingProxyType', lambda vm, st, a, k: a[0]),
                              'FunctionType': lib.types['function'], 'ModuleType': lib.types['module'], 'NoneType': lib.types['NoneType'],
                              'GeneratorType': st.alloc(Box('typing', {}))})
    if name == 'time':
        f = {n: NF(n, lambda vm, st, a, k: TOP) for n in ('sleep', 'strftime')}
        for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns'):
            f[n] = NF(n, lambda vm, st, a, k: st.newint(10 ** 6, 2 * 10 ** 18))
        return mod(st, name, f)
    if name == 'math':
        import math
        f = {'inf': math.inf, 'pi': math.pi}
        for n in ('floor', 'ceil', 'sqrt', 'log10', 'log', 'isnan', 'gcd', 'log2'):
            f[n] = conc_fn(lib, getattr(math, n), 'math.' + n)
        return mod(st, name, f)
    if name == 'bisect':
        def bis(right):
            def g(vm, st, args, kw):
                items = lib.iter_items(st, args[0])
                if items is None:
                    raise Unsupported('bisect')
                i = 0
                for x in items:
                    r = lib.compare(vm, st, '<=' if right else '<', x, args[1])
                    if not lib.truth(vm, st, r):
                        break
                    i += 1
                return i
            return g
        return mod(st, name, {'bisect_left': NF('bl', bis(False)), 'bisect_right': NF('br', bis(True)), 'bisect': NF('b', bis(True))})
    if name == 'errno':
        import errno
        return mod(st, name, {n: getattr(errno, n) for n in dir(errno) if n.startswith('E')})
    if name == 'codecs':
        return mod(st, name, {'open': lib.builtins['open'], 'BOM_UTF8': b'\xef\xbb\xbf'})
    if name == 'locale':
        return mod(st, name, {'getpreferredencoding': NF('gpe', lambda vm, st, a, k: 'utf-8')})
    if name == 'fpyutils':
        m = mod(st, name, {'__package__': 'fpyutils', 'notify': OpaqueMod('fpyutils.notify'), 'path': OpaqueMod('fpyutils.path'),
                           'shell': OpaqueMod('fpyutils.shell')})
        return m
    if name == 'probe':
        from . import probe
        return probe.module(lib, vm, st)
    return None


def list_of(st, a):
    return st.alloc(LObj(list(a)))


def simple_ns(lib, st, kw):
    c = lib.ns_cls if hasattr(lib, 'ns_cls') else None
    if c is None:
        c = st.alloc(Cls('SimpleNamespace', (), (), {}, ''))
        st.w(c).mro = (c,)
    return st.alloc(Inst(c, dict(kw)))
