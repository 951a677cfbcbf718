"""C front end: clang's typed AST (JSON) of the repository's C files, rebuilt on every run."""
import json
import os
import subprocess

REPO = '/repo'
INC = ['include', 'source/libtomo/recon', 'source/libtomo/misc', 'source/libtomo/prep', 'source/libtomo/gridrec']
OMP_INC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include')

_cache = {}


class FrontEndError(Exception):
    pass


def parse(path, openmp=True):
    """-> {function name: FunctionDecl node with a body} for one C file."""
    full = os.path.join(REPO, path)
    key = (full, openmp)
    if key in _cache:
        return _cache[key]
    cmd = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-DNDEBUG', '-w', '-std=gnu11']
    for i in INC:
        cmd += ['-I', os.path.join(REPO, i)]
    if openmp:
        cmd += ['-fopenmp', '-idirafter', OMP_INC]
    cmd.append(full)
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise FrontEndError('clang: %s' % p.stderr[-2000:])
    tu = json.loads(p.stdout)
    fns = {}
    records = {}
    for d in tu.get('inner', ()):
        if d.get('kind') == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', ())):
            fns[d['name']] = d
        elif d.get('kind') == 'RecordDecl' and d.get('completeDefinition'):
            records[d.get('name') or d['id']] = d
    _annotate(tu)
    res = {'functions': fns, 'records': records, 'path': path}
    _cache[key] = res
    return res


def _annotate(tu):
    """clang omits repeated line numbers: fill them in."""
    line = [0]

    def rec(n):
        if not isinstance(n, dict):
            return
        loc = n.get('loc') or {}
        rng = n.get('range') or {}
        b = rng.get('begin') or {}
        for l in (loc, b):
            e = l.get('expansionLoc') or l
            if 'line' in e:
                line[0] = e['line']
        n['_line'] = line[0]
        for c in n.get('inner', ()) or ():
            rec(c)
        e = rng.get('end') or {}
        e = e.get('expansionLoc') or e
        if 'line' in e:
            line[0] = e['line']
    rec(tu)


def params(fn):
    return [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']


def body(fn):
    return [c for c in fn['inner'] if c.get('kind') == 'CompoundStmt'][-1]


def qt(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


_INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
         'unsigned char', 'long long', 'unsigned long long', '_Bool', 'bool', 'size_t', 'int32_t', 'uint16_t', 'uint8_t'}
_SIZES = {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'short': 2, 'unsigned short': 2, 'char': 1,
          'signed char': 1, 'unsigned char': 1, 'long long': 8, 'unsigned long long': 8, '_Bool': 1, 'float': 4,
          'double': 8, 'size_t': 8, 'bool': 1, 'int32_t': 4, 'uint16_t': 2, 'uint8_t': 1}


def strip(t):
    t = t.replace('const ', '').replace('volatile ', '').replace('restrict', '').replace(' const', '').strip()
    return t


def kind_of(t):
    """'int' | 'uint' | 'float' | ('ptr', elemtype) | 'void' | ('rec', name)"""
    t = strip(t)
    if t.endswith('*'):
        return ('ptr', t[:-1].strip())
    if t.endswith(']'):
        return ('ptr', t[:t.index('[')].strip())
    if t in ('float', 'double', 'long double'):
        return 'float'
    if t in _INTS or t.startswith('enum'):
        return 'uint' if t.startswith('unsigned') or t in ('size_t', 'uint16_t', 'uint8_t') else 'int'
    if t == 'void':
        return 'void'
    return ('rec', t)


def sizeof(t):
    t = strip(t)
    if t.endswith('*'):
        return 8
    return _SIZES.get(t)
