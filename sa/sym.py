"""Symbolic evaluation of small loop-free function bodies into terms. Terms are
nested tuples: ('P', i) the i-th operand (the object is operand 0 of a member),
('f', base, field), ('c', int), ('op', sym, x, y), ('un', sym, x), ('m', name,
receiver, args), ('call', name, args), ('new', type, args), ('ite', c, a, b),
('upd', base, field, value), ('idx', base, i), ('s', text) anything else."""
from flow import strip, lit, walk, assert_cond


class Opaque(Exception):
    pass


ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^='}
WRAP = {'move', 'forward', 'as_const'}


class Sym:
    def __init__(s, d, inline=None, depth=6):
        s.d = d; s.T = d['types']; s.fid = {f['id']: f for f in d['funcs']}; s.inline = inline or (lambda f: False); s.depth = depth
        s.uniq = 0; s.lam = {r['id'] for r in d['records'] if r.get('lambda')}

    def operands(s, fn):
        n = 0; env = {}
        if fn.get('cls') in s.lam: env['this'] = ('s', 'outer')
        elif fn.get('cls') is not None and not fn.get('static') and not fn.get('friend'): env['this'] = ('P', 0); n = 1
        for p in fn['p']: env[p['id']] = ('P', n); n += 1
        return env

    def call(s, fn, args=None, effects=False):
        """the value fn returns (effects: the object after the call) on the given operand terms"""
        env = s.operands(fn)
        if args is not None: env = {k: v if v[0] != 'P' else args[v[1]] if v[1] < len(args) else ('s', 'missing') for k, v in env.items()}
        b = fn.get('body')
        if not isinstance(b, dict) or s.depth <= 0: raise Opaque()
        if effects: s.op0 = 'this' if 'this' in env and env['this'][0] != 's' else fn['p'][0]['id'] if fn['p'] else None
        s.depth -= 1
        try: return s.block(list(b.get('s') or []), env, effects)
        finally: s.depth += 1

    def block(s, ss, env, eff):
        for i, st in enumerate(ss):
            k = st.get('k')
            if k == 'block': return s.block(list(st['s']) + ss[i + 1:], env, eff)
            if k in ('null', 'typedef', 'using', 'sassert'): continue
            if k == 'decl':
                for v in st['v']:
                    if v.get('binds'):
                        base = s.ev(v['e'], env) if v.get('e') is not None else ('s', 'none')
                        for n, b in enumerate(v['binds']): env[b['id'] if isinstance(b, dict) else b] = ('bind', base, n)
                    elif v.get('static'): raise Opaque()
                    else: env[v['id']] = s.ev(v['e'], env) if v.get('e') is not None else ('s', 'undef')
                continue
            if k == 'expr':
                if assert_cond(st['e']) is not None: continue
                s.ev(st['e'], env); continue
            if k == 'ret':
                r = s.ev(st['e'], env) if st.get('e') is not None else None
                return ('pair', env.get(s.op0), r if r is not None else ('s', 'void')) if eff else r
            if k == 'if':
                if st.get('init') is not None or isinstance(st.get('cv'), dict): raise Opaque()
                c = s.ev(st['c'], env); rest = ss[i + 1:]
                v = c[1] if c[0] == 'c' else None
                def br(x):
                    e2 = dict(env); l = [] if x is None else (list(x['s']) if x.get('k') == 'block' else [x])
                    return s.block(l + rest, e2, eff)
                if v is not None: return br(st.get('a') if v else st.get('b'))
                return ite(c, br(st.get('a')), br(st.get('b')))
            raise Opaque()
        return ('pair', env.get(s.op0), ('s', 'void')) if eff else None

    def ev(s, e, env):
        e = strip(e)
        if not isinstance(e, dict): return ('s', repr(e))
        k = e.get('k'); v = lit(e)
        if v is not None and k in ('int', 'bool', 'char', 'ref', 'cast', 'un', 'sizeof', 'x'): return ('c', int(v))
        if k == 'this': return ('addr', env.get('this', ('s', 'this')))
        if k == 'ref':
            if e.get('d') in env: return env[e['d']]
            return ('s', e.get('n') or '?')
        if k == 'mem':
            b = e.get('b')
            b = env.get('this', ('s', 'this')) if b is None else deref(s.ev(b, env)) if e.get('ar') else s.ev(b, env)
            return field(b, e.get('n'))
        if k == 'cast': return s.ev(e['e'], env)
        if k == 'cond':
            c = s.ev(e['c'], env)
            if c[0] == 'c': return s.ev(e['a'] if c[1] else e['b'], env)
            return ite(c, s.ev(e['a'], dict(env)), s.ev(e['b'], dict(env)))
        if k == 'un':
            op = e['op']
            if op == '*': return deref(s.ev(e['e'], env))
            if op == '&': return ('addr', s.ev(e['e'], env))
            if op in ('++', '--', 'p++', 'p--', '++p', '--p') or op.startswith(('++', '--')) or op.endswith(('++', '--')):
                x = s.ev(e['e'], env); n = ('op', '+' if '+' in op else '-', x, ('c', 1))
                s.store(e['e'], n, env)
                post = e.get('post') or op in ('p++', 'p--', 'x++', 'x--') or op.endswith('post')
                return x if post else n
            x = s.ev(e['e'], env)
            if op in ('!', 'not'): return ('un', '!', x)
            if op == '-' and x[0] == 'c': return ('c', -x[1])
            if op == '+': return x
            return ('un', op, x)
        if k == 'bin': return s.binop(e['op'], e['a'], e['b'], env)
        if k == 'call':
            op = e.get('opc')
            if op:
                a = ([e['o']] if e.get('o') is not None else []) + list(e.get('a') or [])
                if len(a) == 2 and op not in ('()', '[]'): return s.binop(op, a[0], a[1], env, e)
                if op == '[]': return ('idx', s.ev(a[0], env), s.ev(a[1], env))
                if len(a) == 1 and op == '*': return deref(s.ev(a[0], env))
                if len(a) == 1 and op in ('++', '--'):
                    x = s.ev(a[0], env); n = ('op', op[0], x, ('c', 1)); s.store(a[0], n, env); return n
                if op in ('++', '--'):
                    x = s.ev(a[0], env); s.store(a[0], ('op', op[0], x, ('c', 1)), env); return x
                if len(a) == 1 and op in ('-', '~', '!'): return ('un', op, s.ev(a[0], env))
                if op == '()': return ('call', '()', tuple(s.ev(x, env) for x in a))
                return ('call', op, tuple(s.ev(x, env) for x in a))
            fe = strip(e.get('fe')) if e.get('fe') is not None else {}
            n = e.get('n') or (fe or {}).get('n')
            args = [s.ev(x, env) for x in e.get('a') or []]
            if n in WRAP and len(args) == 1: return args[0]
            if n == 'swap' and len(args) == 2 and len(e.get('a')) == 2 and e.get('o') is None:
                s.store(e['a'][0], args[1], env); s.store(e['a'][1], args[0], env); return ('c', 0)
            o = e.get('o')
            if o is None and isinstance(fe, dict) and fe.get('k') == 'mem': o = fe.get('b'); ar = fe.get('ar')
            else: ar = e.get('ar')
            f = s.fid.get(e.get('f'))
            rec = None
            if o is not None:
                rec = s.ev(o, env); rec = deref(rec) if rec[0] == 'addr' or ar else rec
            elif f is not None and f.get('cls') is not None and not f.get('static') and 'this' in env: rec = env['this']
            if n in ('exchange',) and len(args) == 2: s.store(e['a'][0], args[1], env); return args[0]
            if f is not None and s.inline(f):
                return s.call(f, ([rec] if rec is not None and not f.get('static') else []) + args)
            if rec is not None:
                # an unknown member may change its object
                if o is not None and not (f and f.get('const')): s.touch(o, env, n)
                return ('m', n, rec, tuple(args))
            if n is None: return ('call', s.ev(fe, env) if fe else '?', tuple(args))
            return ('call', n, tuple(args))
        if k in ('ctor', 'init', 'ilist', 'x', 'pinit'):
            a = e.get('a') if isinstance(e.get('a'), list) else ([e['e']] if isinstance(e.get('e'), dict) else [])
            args = tuple(s.ev(x, env) for x in a)
            if k == 'ctor' and e.get('cp') and len(args) == 1: return args[0]
            if len(args) == 1 and k in ('ctor', 'x', 'pinit', 'init'): return ('new1', args[0]) if not s.scalar(e) else args[0]
            return ('new', args)
        if k == 'idx': return ('idx', s.ev(e['a'] if 'a' in e else e['b'], env), s.ev(e['i'] if 'i' in e else e['b'], env))
        if k == 'lambda': s.uniq += 1; return ('s', 'lambda%d' % s.uniq)
        if k in ('float', 'str', 'nullptr'): return ('s', str(e.get('v', k)))
        return ('s', '%s@%s' % (k, e.get('l')))

    def scalar(s, e):
        t = s.T[e['t']] if 't' in e else {}
        return bool(t.get('int') or t.get('bool') or t.get('flt'))

    def touch(s, o, env, n):
        x = strip(o)
        while isinstance(x, dict) and x.get('k') == 'mem': x = strip(x['b']) if x.get('b') is not None else {'k': 'this'}
        if n in ('size', 'begin', 'end', 'empty', 'get', 'val', 'value', 'mod', 'top', 'back', 'front', 'compare', 'first', 'second') or n is None: return

    def binop(s, op, a, b, env, node=None):
        op = {'and': '&&', 'or': '||', 'not_eq': '!='}.get(op, op)
        if op == ',': s.ev(a, env); return s.ev(b, env)
        if op in ASSIGN:
            y = s.ev(b, env)
            if op != '=': y = ('op', op[:-1], s.ev(a, env), y)
            s.store(a, y, env); return y
        x = s.ev(a, env)
        if op in ('&&', '||'):
            if x[0] == 'c': return (s.ev(b, env) if x[1] else ('c', 0)) if op == '&&' else (('c', 1) if x[1] else s.ev(b, env))
            return ('op', op, x, s.ev(b, dict(env)))
        return ('op', op, x, s.ev(b, env))

    def store(s, lhs, v, env):
        l = strip(lhs)
        if l.get('k') == 'ref':
            if l.get('d') in env: env[l['d']] = v; return
            raise Opaque()
        if l.get('k') == 'un' and l['op'] == '*':
            i = strip(l['e'])
            if i.get('k') == 'this': env['this'] = v; return
            raise Opaque()
        if l.get('k') == 'mem':
            b = strip(l['b']) if l.get('b') is not None else {'k': 'this'}
            if b.get('k') == 'this': env['this'] = upd(env.get('this', ('s', 'this')), l.get('n'), v); return
            base = s.ev(b, env)
            if l.get('ar'): raise Opaque()
            s.store(b, upd(base, l.get('n'), v), env); return
        if l.get('k') in ('ctor', 'x', 'cast', 'init', 'pinit', 'tmp'): return          # a temporary
        raise Opaque()


def ite(c, a, b):
    if a == b: return a
    if a is None or b is None: raise Opaque()
    if a[0] == 'pair' and b[0] == 'pair': return ('pair', ite(c, a[1], b[1]), ite(c, a[2], b[2]))
    return ('ite', c, a, b)

def deref(x): return x[1] if x[0] == 'addr' else ('deref', x)


def upd(b, f, v):
    if b[0] == 'upd' and b[2] == f: return ('upd', b[1], f, v)
    return ('upd', b, f, v)


def field(b, f):
    while b[0] == 'upd':
        if b[2] == f: return b[3]
        b = b[1]
    if b[0] == 'ite': return ite(b[1], field(b[2], f), field(b[3], f))
    return ('f', b, f)


def sub(t, m):
    """replace terms"""
    if t in m: return m[t]
    if isinstance(t, tuple): return tuple(sub(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def show(t):
    if not isinstance(t, tuple): return str(t)
    k = t[0]
    if k == 'P': return 'abcdefgh'[t[1]]
    if k == 'f': return show(t[1]) + '.' + str(t[2])
    if k == 'c': return str(t[1])
    if k == 'op': return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'un': return '%s%s' % (t[1], show(t[2]))
    if k == 'm': return '%s.%s(%s)' % (show(t[2]), t[1], ', '.join(map(show, t[3])))
    if k == 'call': return '%s(%s)' % (show(t[1]), ', '.join(map(show, t[2])))
    if k == 'new': return '{%s}' % ', '.join(map(show, t[1]))
    if k == 'new1': return '{%s}' % show(t[1])
    if k == 'ite': return '(%s ? %s : %s)' % tuple(map(show, t[1:]))
    if k == 'upd': return '%s[%s:=%s]' % (show(t[1]), t[2], show(t[3]))
    if k == 'idx': return '%s[%s]' % (show(t[1]), show(t[2]))
    return ' '.join(show(x) for x in t)
