"""Intrinsics available to harness code interpreted by the abstract machine."""
from . import chars, rex
from .dom import AInt, AStr, TOP, Fork, Unsupported, PyExc, is_str
from .vm import NF, Ref, LObj, Mod, Box, EndPath, CallPy

_cc = {}


def mask(spec):
    m = _cc.get(spec)
    if m is None:
        p = rex.parse(spec, 0)
        m = _cc[spec] = rex.mask_of(list(p)[0], 32)
    return m


def p_star(vm, st, a, kw):
    lo = a[1] if len(a) > 1 else kw.get('lo', 0)
    hi = a[2] if len(a) > 2 else kw.get('hi')
    return st.star(mask(a[0]), lo, hi)


def p_char(vm, st, a, kw):
    return st.char(mask(a[0]))


def p_anyint(vm, st, a, kw):
    return st.newint(a[0], a[1])


def p_choice(vm, st, a, kw):
    p = st.opts.get('pending')
    if p is not None:
        st.opts = dict(st.opts)
        del st.opts['pending']
        return a[p]
    if len(a) == 1:
        return a[0]

    def alt(i):
        def f(s):
            s.opts = dict(s.opts)
            s.opts['pending'] = i
            return True
        return f
    raise Fork([alt(i) for i in range(len(a))], 'case')


def p_check(vm, st, a, kw):
    r = vm.lib.truth(vm, st, a[0])
    if r.__class__ is CallPy:
        raise Unsupported('check of an object')
    st.checks += 1
    if r is not True:
        raise EndPath(('violation', a[1], tuple(a[2:])))
    return None


def p_fail(vm, st, a, kw):
    raise EndPath(('violation', a[0], tuple(a[1:])))


def p_assume(vm, st, a, kw):
    r = vm.lib.truth(vm, st, a[0])
    if r.__class__ is CallPy:
        raise Unsupported('assume of an object')
    if not r:
        raise EndPath(('assumed-away',))
    return None


def p_note(vm, st, a, kw):
    st.inputs = st.inputs + ((a[0], a[1]),)
    return a[1]


def p_mkfile(vm, st, a, kw):
    st.fs = dict(st.fs)
    st.fs[a[0]] = a[1]


def p_fsread(vm, st, a, kw):
    v = st.fs.get(a[0])
    return v if v is None else st.rv(v)


def p_fsnames(vm, st, a, kw):
    return st.alloc(LObj(sorted(k for k in st.fs if not k.startswith('<'))))


def p_stdin(vm, st, a, kw):
    st.fs = dict(st.fs)
    st.fs['<stdin>'] = a[0]
    for h in (st.base, st.heap):
        for k in list(h):
            o = h[k]
            if o.__class__ is Box and o.kind == 'file' and o.f['path'] == '<stdin>':
                w = st.w(Ref(k))
                w.f = dict(w.f, all=None, rest=None, marks=(), iterating=False)


def p_events(vm, st, a, kw):
    return st.alloc(LObj([tuple(e) for e in st.events]))


def p_clear(vm, st, a, kw):
    st.events = ()


def p_wild(vm, st, a, kw):
    """from here on files that are not mentioned may exist and environment variables may be set"""
    st.opts = {k: v for k, v in st.opts.items() if not (k.__class__ is tuple and k[0] in ('env', 'nofile'))}
    st.opts['wild'] = a[0]


def p_wildtext(vm, st, a, kw):
    from .mods import WILD
    return WILD


def p_show(vm, st, a, kw):
    print('SHOW', [st.show_parts(st.res(x)) if is_str(x) else x for x in a])


FUNCS = {'star': p_star, 'char': p_char, 'anyint': p_anyint, 'choice': p_choice, 'check': p_check, 'fail': p_fail,
         'assume': p_assume, 'note': p_note, 'mkfile': p_mkfile, 'fsread': p_fsread, 'fsnames': p_fsnames,
         'set_stdin': p_stdin, 'events': p_events, 'clear_events': p_clear, 'wild': p_wild, 'wildtext': p_wildtext, 'show': p_show}


def module(lib, vm, st):
    return st.alloc(Mod('probe', {k: NF('probe.' + k, f) for k, f in FUNCS.items()}))
