# Runs under Jython 2.7 (the interpreter the project runs on).
# Two services over stdin/stdout, one JSON document per line:
#   {"op":"ast","path":...}            -> the syntax tree of a source file
#   {"op":"call"/"new"/"method"/...}   -> run the real code
# argv: repo-root stub-dir link-dir
import sys, os, ast, json, traceback
repo, stubs, link = sys.argv[1:4]
sys.dont_write_bytecode = True
out = sys.stdout
sys.stdout = sys.stderr
sys.setrecursionlimit(6000)
# 'cryptopy' (a scratch link to the working tree) first, then stand-ins for third-party packages
sys.path[0:0] = [link, stubs, repo]


def dump(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in n._fields:
            d[f] = dump(getattr(n, f, None))
        for a in ('lineno', 'col_offset'):
            if hasattr(n, a):
                d[a] = getattr(n, a)
        return d
    if isinstance(n, (list, tuple)):
        return [dump(x) for x in n]
    if isinstance(n, bool) or n is None:
        return n
    if isinstance(n, (int, long)):
        return {'#': 'long' if isinstance(n, long) else 'int', 'v': str(n)}
    if isinstance(n, float):
        return {'#': 'float', 'v': repr(n)}
    if isinstance(n, unicode):
        return {'#': 'unicode', 'v': n}
    if isinstance(n, str):
        return {'#': 'str', 'v': n.decode('latin-1')}
    # identifiers in Jython may be java strings
    return {'#': 'str', 'v': unicode(n)}


def ident(n):
    return n

handles = {}
counter = [0]


def enc(v):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, (int, long)):
        return {'#': 'int', 'v': '%x' % v}
    if isinstance(v, float):
        return {'#': 'float', 'v': repr(v)}
    if isinstance(v, str):
        return {'#': 'str', 'v': v.encode('hex')}
    if isinstance(v, unicode):
        return {'#': 'unicode', 'v': v}
    if isinstance(v, tuple):
        return {'#': 'tuple', 'v': [enc(x) for x in v]}
    if isinstance(v, list):
        return {'#': 'list', 'v': [enc(x) for x in v]}
    if isinstance(v, dict):
        return {'#': 'dict', 'v': [[enc(k), enc(x)] for k, x in sorted(v.items())]}
    counter[0] += 1
    handles[counter[0]] = v
    return {'#': 'obj', 'v': counter[0], 'cls': getattr(getattr(v, '__class__', None), '__name__', '?')}


def dec(v):
    if v is None or isinstance(v, bool):
        return v
    t = v['#']
    if t == 'int':
        n = int(v['v'], 16)
        return int(n) if -2**31 <= n < 2**31 else n
    if t == 'long':
        return long(v['v'], 16)
    if t == 'str':
        return v['v'].decode('hex')
    if t == 'tuple':
        return tuple([dec(x) for x in v['v']])
    if t == 'list':
        return [dec(x) for x in v['v']]
    if t == 'dict':
        return dict([(dec(k), dec(x)) for k, x in v['v']])
    if t == 'float':
        return float(v['v'])
    if t == 'obj':
        return handles[v['v']]
    if t == 'ref':
        m = module(v['mod'])
        for a in v['name'].split('.') if v['name'] else []:
            m = getattr(m, a)
        return m
    raise ValueError(t)

mods = {}


def module(name):
    if name not in mods:
        if name.startswith('cryptopy.analysis.'):
            # scripts next to each other, not a package
            import imp
            f = name.split('.')[-1]
            mods[name] = imp.load_source('analysis_' + f, os.path.join(repo, 'analysis', f + '.py'))
        else:
            __import__(name)
            mods[name] = sys.modules[name]
    return mods[name]


def resolve(m, name):
    for a in name.split('.'):
        m = getattr(m, a)
    return m


def exc_info():
    et, ev = sys.exc_info()[:2]
    n = getattr(et, '__name__', None) or str(et)
    bases = [c.__name__ for c in getattr(et, '__mro__', ())]
    try:
        msg = str(ev)[:300]
    except Exception:
        msg = '?'
    return {'exc': n, 'bases': bases, 'msg': msg}


def handle(r):
    op = r['op']
    if op == 'ast':
        src = open(r['path'], 'rb').read()
        return {'ok': dump(ast.parse(src, r['path']))}
    if op == 'ping':
        return {'ok': True}
    if op == 'reset':
        handles.clear()
        return {'ok': True}
    try:
        if op == 'import':
            module(r['mod'])
            return {'ok': True}
        if op == 'call':
            f = resolve(module(r['mod']), r['name'])
            return {'ok': enc(f(*[dec(a) for a in r.get('args', [])], **dict([(str(k), dec(x)) for k, x in r.get('kw', {}).items()])))}
        if op == 'get':
            return {'ok': enc(resolve(module(r['mod']), r['name']))}
        if op == 'method':
            o = dec(r['obj'])
            f = getattr(o, r['name'])
            return {'ok': enc(f(*[dec(a) for a in r.get('args', [])], **dict([(str(k), dec(x)) for k, x in r.get('kw', {}).items()])))}
        if op == 'callobj':
            o = dec(r['obj'])
            return {'ok': enc(o(*[dec(a) for a in r.get('args', [])]))}
        if op == 'attr':
            return {'ok': enc(getattr(dec(r['obj']), r['name']))}
        if op == 'setattr':
            setattr(dec(r['obj']), r['name'], dec(r['val']))
            return {'ok': True}
        if op == 'value':
            return {'ok': enc(dec(r['obj']))}
        if op == 'binop':
            import operator
            a, b = dec(r['a']), dec(r['b'])
            f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.div,
                 '^': operator.xor, '==': operator.eq, '!=': operator.ne, '%': operator.mod, '<': operator.lt,
                 '**': operator.pow}[r['f']]
            return {'ok': enc(f(a, b))}
        if op == 'unop':
            import operator
            a = dec(r['a'])
            f = {'-': operator.neg, 'int': int, 'str': str, 'bool': bool, 'len': len}[r['f']]
            return {'ok': enc(f(a))}
        if op == 'classes':
            m = module(r['mod'])
            res = []
            for k in sorted(vars(m)):
                v = getattr(m, k)
                if isinstance(v, type) or type(v).__name__ == 'classobj':
                    res.append([k, [c.__name__ for c in getattr(v, '__mro__', ())]])
            return {'ok': res}
    except (KeyboardInterrupt, SystemExit):
        raise
    except:
        return exc_info()
    raise ValueError(op)

while True:
    line = sys.stdin.readline()
    if not line:
        break
    try:
        res = handle(json.loads(line))
    except:
        res = {'fault': traceback.format_exc()}
    out.write(json.dumps(res) + '\n')
    out.flush()
