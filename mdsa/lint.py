"""Effect analysis over the syntax trees of the package: which statements can reach
the outside world, and from which entry points they are reachable.

Every call site of the package is classified; a violation is a definite
occurrence of a forbidden effect (never a mere failure to resolve a name)."""
import ast
import glob
import os

NET = {'socket', 'ssl', 'http', 'urllib', 'ftplib', 'smtplib', 'poplib', 'imaplib', 'telnetlib', 'xmlrpc', 'socketserver', 'requests', 'httpx',
       'aiohttp', 'asyncio', 'webbrowser', 'nntplib', 'urllib3', 'pycurl'}
NET_OK = {'urllib.parse', 'http.HTTPStatus'}
PROC = {'subprocess', 'multiprocessing', 'pty', 'ctypes', 'cffi', 'signal', 'pexpect', 'sh', 'code', 'codeop', 'runpy'}
UNSAFE = {'pickle', 'marshal', 'shelve', 'dill', 'cloudpickle'}
OS_PROC = {'system', 'popen', 'fork', 'forkpty', 'kill', 'killpg', 'startfile', 'execv', 'execve', 'execl', 'execle', 'execlp', 'execvp', 'execvpe', 'spawnl',
           'spawnle', 'spawnlp', 'spawnv', 'spawnve', 'spawnvp', 'posix_spawn', 'posix_spawnp', 'putenv', 'setuid', 'chroot'}
OS_FS = {'remove', 'unlink', 'rmdir', 'removedirs', 'rename', 'renames', 'replace', 'truncate', 'mkdir', 'makedirs', 'link', 'symlink', 'chmod', 'chown',
         'mknod', 'mkfifo', 'utime', 'write', 'open'}
SHUTIL_FS = {'copy', 'copy2', 'copyfile', 'copyfileobj', 'move', 'rmtree', 'copytree', 'copymode', 'copystat', 'chown'}
PATH_FS = {'write_text', 'write_bytes', 'unlink', 'rename', 'replace', 'rmdir', 'mkdir', 'touch', 'symlink_to', 'hardlink_to', 'chmod'}
DYN = {'eval', 'exec', 'compile', '__import__', 'breakpoint'}


class Fn:
    def __init__(self, mod, qual, node):
        self.mod, self.qual, self.node = mod, qual, node
        self.calls = []
        self.locals = set()


class Package:
    def __init__(self, repo):
        self.repo = repo
        self.trees = {}
        self.fns = {}          # (module, qualname) -> Fn
        self.names = {}        # module -> {local name: dotted target}
        self.count = {'imports': 0, 'calls': 0}
        base = os.path.join(repo, 'md_toc')
        for p in sorted(glob.glob(base + '/**/*.py', recursive=True)):
            rel = os.path.relpath(p, repo)
            if '/tests' in rel or rel.startswith('tests'):
                continue
            self.add(rel[:-3].replace('/', '.').replace('.__init__', ''), p, rel)
        from .engine import find_fpyutils
        fpy = find_fpyutils()
        self.fpy = set()
        for p in sorted(glob.glob(fpy + '/*.py')):
            m = 'fpyutils.' + os.path.basename(p)[:-3]
            if m == 'fpyutils.__init__':
                m = 'fpyutils'
            self.fpy.add(m)
            self.add(m, p, 'fpyutils/' + os.path.basename(p))

    def add(self, mod, path, rel):
        t = ast.parse(open(path, encoding='utf-8').read(), path)
        t.rel = rel
        self.trees[mod] = t
        names = self.names[mod] = {}
        pkg = mod if os.path.basename(path) == '__init__.py' else mod.rpartition('.')[0]
        for n in ast.walk(t):
            if isinstance(n, ast.Import):
                for a in n.names:
                    names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                b = n.module or ''
                if n.level:
                    up = pkg.split('.')
                    up = up[:len(up) - (n.level - 1)]
                    b = '.'.join(up + ([n.module] if n.module else []))
                for a in n.names:
                    names[a.asname or a.name] = b + '.' + a.name

        def visit(node, prefix):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + c.name
                    self.fns[mod, q] = Fn(mod, q, c)
                    visit(c, q + '.')
                elif isinstance(c, ast.ClassDef):
                    visit(c, prefix + c.name + '.')
                else:
                    visit(c, prefix)
        visit(t, '')
        self.fns[mod, '<module>'] = Fn(mod, '<module>', t)

    def dotted(self, mod, e, local=()):
        """dotted target of a name or attribute expression when it is a module level binding or an import"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        if e.id in local:
            return None
        base = self.names[mod].get(e.id)
        if base is None:
            base = mod + '.' + e.id if (mod, e.id) in self.fns or not hasattr(__builtins__, e.id) else 'builtins.' + e.id
            if e.id in BUILTINS and (mod, e.id) not in self.fns:
                base = 'builtins.' + e.id
        return '.'.join([base] + parts[::-1])

    def body(self, fn):
        """the nodes of a function, without nested definitions (they are their own functions, reached by their definition)"""
        out = []
        work = list(ast.iter_child_nodes(fn.node))
        while work:
            n = work.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(n)
                if fn.qual == '<module>':
                    work.extend(n.decorator_list)
                continue
            if isinstance(n, ast.ClassDef) and fn.qual == '<module>':
                work.extend(x for x in n.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)))
                continue
            out.append(n)
            work.extend(ast.iter_child_nodes(n))
        return out

    def locals_of(self, fn):
        if fn.qual == '<module>':
            return set()
        a = fn.node.args
        loc = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                loc.add(x.arg)
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                loc.add(n.id)
        return loc

    def resolve(self, d):
        """the analysed function named by a dotted target"""
        if d is None:
            return None
        p = d.split('.')
        for i in range(len(p) - 1, 0, -1):
            m = '.'.join(p[:i])
            if m in self.trees:
                q = '.'.join(p[i:])
                if (m, q) in self.fns:
                    return self.fns[m, q]
                # re-exported name
                nm = self.names[m].get(p[i])
                if nm and nm != d:
                    return self.resolve('.'.join([nm] + p[i + 1:]))
                return None
        return None

    def refs(self, fn):
        """(node, dotted) of every reference of the function to something outside its own variables"""
        loc = self.locals_of(fn)
        for n in self.body(fn):
            if isinstance(n, (ast.Attribute, ast.Name)) and not isinstance(getattr(n, 'ctx', None), (ast.Store, ast.Del)):
                d = self.dotted(fn.mod, n, loc)
                if d:
                    yield n, d
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn.qual != '<module>':
                yield n, fn.mod + '.' + fn.qual + '.' + n.name

    def reach(self, roots):
        """functions that can be reached, with the path from a root"""
        seen = {}
        work = []
        for r in roots:
            f = self.resolve(r)
            if f is not None:
                seen[f] = (r,)
                work.append(f)
        meth = {}
        for (m, q), f in self.fns.items():
            if '.' in q:
                meth.setdefault(q.rpartition('.')[2], []).append(f)
        while work:
            f = work.pop()
            for n, d in self.refs(f):
                g = self.resolve(d)
                if g is not None and g not in seen:
                    seen[g] = seen[f] + (d,)
                    work.append(g)
        return seen


import builtins as _b
BUILTINS = set(dir(_b))


def site(pk, fn, n):
    return '%s:%d (%s)' % (pk.trees[fn.mod].rel, getattr(n, 'lineno', 0), fn.qual)


def write_mode(call):
    """True when an open() call definitely opens for writing"""
    mode = None
    if len(call.args) > 1:
        mode = call.args[1]
    for k in call.keywords:
        if k.arg == 'mode':
            mode = k.value
    return isinstance(mode, ast.Constant) and isinstance(mode.value, str) and any(c in mode.value for c in 'wax+')


def fs_effects(pk, fn):
    """definite modifications of files in a function: (node, what)"""
    loc = pk.locals_of(fn)
    for n in pk.body(fn):
        if not isinstance(n, ast.Call):
            continue
        pk.count['calls'] += 1
        d = pk.dotted(fn.mod, n.func, loc)
        if d in ('builtins.open', 'io.open', 'codecs.open') and write_mode(n):
            yield n, 'open for writing'
        elif d and d.split('.')[0] == 'os' and d.split('.')[-1] in OS_FS and d.count('.') == 1:
            yield n, d
        elif d and d.split('.')[0] == 'shutil' and d.split('.')[-1] in SHUTIL_FS:
            yield n, d
        elif d and d.split('.')[0] == 'tempfile':
            yield n, d
        elif isinstance(n.func, ast.Attribute) and n.func.attr in ('write_text', 'write_bytes'):
            yield n, n.func.attr
        elif isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and write_mode(ast.Call(func=n.func, args=[None] + n.args, keywords=n.keywords)):
            yield n, 'open for writing'


READERS = ['md_toc.api.build_toc', 'md_toc.api.build_multiple_tocs', 'md_toc.api.tocs_equal', 'md_toc.api.get_md_header', 'md_toc.api.get_atx_heading',
           'md_toc.api.build_anchor_link', 'md_toc.api.remove_emphasis', 'md_toc.api.remove_html_tags', 'md_toc.api.build_toc_line_without_indentation',
           'md_toc.api.is_opening_code_fence', 'md_toc.api.is_closing_code_fence']


def readers_do_not_write(repo):
    pk = Package(repo)
    seen = pk.reach(READERS)
    v = []
    ex = []
    for f, path in sorted(seen.items(), key=lambda x: (x[0].mod, x[0].qual)):
        ex.append('%s.%s' % (f.mod, f.qual))
        for n, what in fs_effects(pk, f):
            v.append({'label': 'a reading entry point reaches a modification of files: ' + what, 'construct': site(pk, f, n), 'path': list(path)})
    return {'rule': 'effect analysis: no function reachable from a reading entry point modifies files', 'sites': pk.count['calls'], 'examined': ex, 'violations': v}


def only_known_effects(repo):
    """no network, process, dynamic code or deserialisation anywhere in the package"""
    pk = Package(repo)
    v = []
    ex = []
    sites = 0
    for (mod, q), fn in sorted(pk.fns.items(), key=lambda x: x[0]):
        if mod in pk.fpy:
            continue
        ex.append('%s.%s' % (mod, q))
        loc = pk.locals_of(fn)
        for n in pk.body(fn):
            bad = None
            if isinstance(n, ast.Import):
                sites += 1
                for a in n.names:
                    bad = bad or module_effect(a.name)
            elif isinstance(n, ast.ImportFrom) and not n.level:
                sites += 1
                for a in n.names:
                    bad = bad or module_effect((n.module or '') + '.' + a.name) or module_effect(n.module or '')
                    if n.module == 'os' and a.name in OS_PROC:
                        bad = 'process: os.' + a.name
            elif isinstance(n, ast.Call):
                sites += 1
                d = pk.dotted(mod, n.func, loc)
                if d and d.split('.')[0] == 'builtins' and d.split('.')[1] in DYN and d.count('.') == 1:
                    bad = 'dynamic code: ' + d
                elif d and d.startswith('importlib.') and d.split('.')[1] in ('import_module', '__import__', 'reload', 'util', 'machinery'):
                    bad = 'dynamic code: ' + d
            elif isinstance(n, ast.Attribute):
                d = pk.dotted(mod, n, loc)
                if d and d.split('.')[0] == 'os' and d.count('.') == 1 and d.split('.')[1] in OS_PROC:
                    bad = 'process: ' + d
            if bad:
                v.append({'label': bad, 'construct': site(pk, fn, n)})
    return {'rule': 'effect analysis: no network, process, dynamic code or deserialisation', 'sites': sites, 'examined': ex, 'violations': v}


def module_effect(name):
    if name in NET_OK:
        return None
    top = name.split('.')[0]
    if top in NET and name != 'http' and not any(name == o or name == o.rpartition('.')[0] and False for o in NET_OK):
        if name == 'urllib' or name.startswith('urllib.parse'):
            return None
        return 'network: ' + name
    if top in PROC:
        return 'process: ' + name
    if top in UNSAFE:
        return 'deserialisation: ' + name
    return None


WRITERS = ['md_toc.api.write_string_on_file_between_markers', 'md_toc.api.write_strings_on_files_between_markers', 'md_toc.cli.CliToApi.write_toc',
           'md_toc.__main__.main']


def writes_behind_writers(repo):
    """every modification of files lies behind the in-place entry points: it is not executed at import"""
    pk = Package(repo)
    v = []
    ex = []
    for (mod, q), fn in sorted(pk.fns.items(), key=lambda x: x[0]):
        if q != '<module>' or mod in pk.fpy:
            continue
        ex.append(mod)
        for n, what in fs_effects(pk, fn):
            v.append({'label': 'importing the package modifies files: ' + what, 'construct': site(pk, fn, n)})
    return {'rule': 'effect analysis: importing a module of the package modifies no file', 'sites': max(1, pk.count['calls']), 'examined': ex, 'violations': v}


CHECKS = {'C18': [readers_do_not_write], 'C30': [only_known_effects, writes_behind_writers]}
