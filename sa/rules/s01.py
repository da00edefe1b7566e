"""Ownership of nodes, by interprocedural abstract interpretation of every public operation of the persistent structures (each instantiated in witness/persist.cpp). Every node pointer carries 'fresh' (allocated by this operation) or 'shared' (reachable from a version the caller holds: anything received, loaded from a version, or copied out of a shared node). Rule: no operation stores to a field of a shared node, frees one, or stores to a member of the version it is called on. Calls, lambdas and recursion are followed by value kinds; facts about the children of the node at hand are kept per access path."""
import re
import extract as X
from flow import Flow, Exit, walk, strip, lit, kids
from rules.s07 import ser
TECHNIQUE = 'interprocedural ownership (fresh/shared) abstract interpretation over instantiated bodies'
LEVEL = 'other'

SN = frozenset('SN'); FR = frozenset('F')
# operations whose documented meaning is to change or drop versions
BYCONTRACT = {'mut_set', 'free', 'rebuild', 'init_pool', 'clear_pool', 'check_rbtree_properties'}


def P(k, n=None): return ('P', frozenset(k), n)
OBJ = ('O',)


def jv(a, b):
    if a == b: return a
    if a is None or b is None: return None
    if a[0] == b[0] == 'P': return ('P', a[1] | b[1], a[2] if a[2] == b[2] else None)
    if a[0] == b[0] == 'T' and len(a[1]) == len(b[1]): return ('T', tuple(jv(x, y) for x, y in zip(a[1], b[1])))
    if a[0] == b[0] == 'C':
        if a[1] is None: return b
        if b[1] is None: return a
        return ('C', jv(a[1], b[1]))
    return None


def strip_names(r):
    if r is None: return r
    if r[0] == 'P': return ('P', r[1], None)
    if r[0] == 'T': return ('T', tuple(strip_names(x) for x in r[1]))
    return r


class Own(Flow):
    MAXIT = 20
    def __init__(s, d, res, root):
        s.d = d; s.T = d['types']; s.res = res; s.root = root
        s.F = d['_f']; s.stack = []; s.sites = []; s.memo = d.setdefault('_memo', {}); s.summ = {}; s.cur = None; s.changed = False; s.rets = []
    # -- states
    def copy(s, st): return {'v': dict(st['v']), 'h': dict(st['h'])}
    def join(s, a, b):
        v = {}
        for k in set(a['v']) | set(b['v']):
            if k in a['v'] and k in b['v']: v[k] = jv(a['v'][k], b['v'][k])
            else: v[k] = a['v'].get(k, b['v'].get(k))
        return {'v': v, 'h': {k: jv(x, b['h'][k]) for k, x in a['h'].items() if k in b['h']}}
    def isptr(s, t):
        t = s.T[t]
        while t.get('ref') and t.get('of') is not None: t = s.T[t['of']]
        return bool(t.get('ptr'))
    # -- reporting
    def bad(s, e, what):
        fn = s.cur; f = X.rel(s.d['files'][fn['loc'][0]])
        s.res.violation('%s:%s' % (fn['q'], what), '%s:%s' % (f, e.get('l')), what + ' (reached from %s)' % s.root['q'], fn['q'])
    # -- locations
    def rename(s, st, name):
        for m in ('v', 'h'):
            for k, x in list(st[m].items()):
                st[m][k] = s.forget(x, name)
        for k in [k for k in st['h'] if k[0] == name]: del st['h'][k]
    def forget(s, x, name):
        if x is None: return x
        if x[0] == 'P' and x[2] == name: return ('P', x[1], None)
        if x[0] == 'T': return ('T', tuple(s.forget(y, name) for y in x[1]))
        if x[0] == 'C': return ('C', s.forget(x[1], name))
        return x
    def named(s, loc, st, site):
        """give the pointer held in a variable a name so that facts about its fields can be kept"""
        if loc and loc[0] == 'v':
            x = st['v'].get(loc[1])
            if x and x[0] == 'P' and x[2] is None:
                n = ('w', site); s.rename(st, n)
                st['v'][loc[1]] = ('P', x[1], n)
    def ikey(s, i):
        v = lit(i)
        if v is not None: return '[%s]' % v
        if all(x.get('k') in ('ref', 'bin', 'un', 'int', 'cast') and not x.get('op', '').endswith(('=', '++', '--', 'post')) for x in walk(i)): return '[~%s]' % ser(i).replace('[', '(').replace('.', '_')
        return '[*]'
    def loc(s, e, st):
        """location denoted by an lvalue expression; evaluates its parts"""
        e = strip(e)
        if not isinstance(e, dict): return None
        k = e.get('k')
        if k == 'ref':
            x = st['v'].get(e.get('d'))
            if x and x[0] == 'R': return x[1]
            return ('v', e.get('d'))
        if k == 'mem':
            b = strip(e['b']) if e.get('b') is not None else {'k': 'this'}
            if e.get('dk') == 'gvar': return ('g',)
            if b.get('k') == 'this':
                o = st['v'].get('this') or OBJ
                return ('f', o, e['n'])
            if e.get('ar'):
                bl = s.loc(b, st)
                s.named(bl, st, '%s:%s' % (s.cur['id'], e.get('l')))
                v = s.ev(b, st)
                return ('f', v, e['n']) if v and v[0] in 'PO' else None
            l = s.loc(b, st)
            if l and l[0] == 'f': return ('f', l[1], e['n'] if l[2] == '*' else l[2] + '.' + e['n'])
            if l and l[0] == 'v': return ('m', l, e['n'])
            return None
        if k == 'idx':
            l = s.loc(e['a'], st); s.ev(e['i'], st)
            if l and l[0] == 'f': return ('f', l[1], l[2] + s.ikey(e['i']))
            return ('m', l, '[]') if l else None
        if k == 'un' and e['op'] == '*':
            v = s.ev(e['e'], st)
            return ('f', v, '*') if v and v[0] in 'PO' else None
        if k == 'un' and e['op'] in ('++', '--'): s.ev(e, st); return s.loc(e['e'], st)
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            s.ev(e, st); return s.loc(e['a'], st)
        if k == 'bin' and e['op'] == ',': s.ev(e['a'], st); return s.loc(e['b'], st)
        if k == 'cond': s.ev(e, st); return None
        if k == 'cast': return s.loc(e['e'], st)
        if k == 'call':
            if e.get('opc') == '[]' and e.get('o') is not None:
                l = s.loc(e['o'], st)
                for a in e['a']: s.ev(a, st)
                if l and l[0] == 'f': return ('f', l[1], l[2] + s.ikey(e['a'][0]))
                return ('m', l, '[]') if l else None
            if e.get('n') in ('move', 'forward') and e.get('a'): return s.loc(e['a'][0], st)
            v = s.evcall(e, st)
            if v and v[0] == 'R': return v[1]
            return None
        return None
    def load(s, l, st, t):
        ptr = t is not None and s.isptr(t)
        if l is None: return P(SN) if ptr else None
        if l[0] == 'v': 
            x = st['v'].get(l[1])
            if x is None and ptr: return P(SN)
            return x
        if l[0] == 'f':
            o = l[1]
            if o[0] == 'P' and o[2] is not None and (o[2], l[2]) in st['h']: return st['h'][(o[2], l[2])]
            return P(SN) if ptr else None
        if l[0] == 'm':
            x = s.load(l[1], st, None)
            if x and x[0] == 'C': return x[1] if x[1] is not None else (P(()) if ptr else None)
            if x and x[0] == 'T' and l[2] in ('first', 'second'): return x[1][0 if l[2] == 'first' else 1]
            return P(SN) if ptr else None
        return P(SN) if ptr else None
    def store(s, l, v, st, e):
        if l is None: return
        if l[0] == 'v':
            st['v'][l[1]] = v; pat = re.compile(r'#%s\b' % l[1])
            for k in [k for k in st['h'] if '~' in k[1] and pat.search(k[1])]: del st['h'][k]
            return
        if l[0] == 'f':
            o = l[1]
            if o[0] == 'O':
                if not s.cur.get('ctor'): s.bad(e, 'a member of the version itself is overwritten: %s' % l[2])
                return
            s.res.count('stores through node pointers')
            if 'S' in o[1] or ('l' in o[1] and not s.childkey(o, l[2], v)): s.bad(e, 'field %s of a node shared with existing versions is overwritten' % l[2])
            base = l[2].split('[')[0]
            for k in list(st['h']):
                if k[0] == o[2] and o[2] is not None and k[1] == l[2] and '*' not in l[2]: continue
                if k[1].split('[')[0] == base and ('*' in l[2] or '~' in l[2] or '*' in k[1] or '~' in k[1] or k[1] == l[2]): st['h'][k] = jv(st['h'][k], v)
                if l[2] == '*' and k[0] == o[2]: del st['h'][k]
            if o[2] is not None and '*' not in l[2]: st['h'][(o[2], l[2])] = v
            return
        if l[0] == 'm':
            x = s.load(l[1], st, None)
            if x and x[0] == 'C': s.store(l[1], ('C', v if x[1] is None else jv(x[1], v)), st, e)
            elif l[1] and l[1][0] == 'v' and x and x[0] == 'T' and l[2] in ('first', 'second'):
                t = list(x[1]); t[0 if l[2] == 'first' else 1] = v; st['v'][l[1][1]] = ('T', tuple(t))
    def childkey(s, o, key, v):
        """a child link: storing one into a leaf does not happen (operations descend only below internal nodes)"""
        return v is not None and v[0] == 'P'
    def leaftest(s, e, st):
        """location tested and polarity when e is `not x->child[..]`, possibly wrapped in a one-line predicate"""
        e = strip(e)
        if not isinstance(e, dict): return None
        if e.get('k') == 'cast': return s.leaftest(e['e'], st)
        if e.get('k') == 'idx' or (e.get('k') == 'mem' and e.get('ar')):
            if 't' not in e or not s.isptr(e['t']): return None
            b = strip(e['a']) if e.get('k') == 'idx' else e
            if b.get('k') == 'mem' and b.get('ar') and isinstance(strip(b['b']), dict) and strip(b['b']).get('k') == 'ref': return strip(b['b']).get('d'), True
            return None
        if e.get('k') == 'un' and e['op'] == '!':
            r = s.leaftest(e['e'], st)
            return (r[0], not r[1]) if r else None
        if e.get('k') == 'call':
            fn = s.F.get(e.get('f'))
            if fn and s.body(fn) and len(fn['body'].get('s') or []) == 1 and fn['body']['s'][0].get('k') == 'ret' and len(fn['p']) == 1 and len(e.get('a') or []) == 1:
                r = s.leaftest(fn['body']['s'][0]['e'], st); a = strip(e['a'][0])
                if r and r[0] == fn['p'][0]['id'] and isinstance(a, dict) and a.get('k') == 'ref': return a.get('d'), r[1]
        return None
    # -- expressions
    def expr(s, e, st): return s.ev(e, st)
    def ev(s, e, st):
        e = strip(e)
        if not isinstance(e, dict): return None
        k = e.get('k')
        if k == 'null': return P('N')
        if k == 'this': return st['v'].get('this') or OBJ
        if k in ('ref', 'mem', 'idx'):
            l = s.loc(e, st)
            return s.load(l, st, e.get('t'))
        if k == 'lambda':
            return ('L', tuple(e.get('ops') or ()))
        if k == 'un':
            if e['op'] == '&':
                l = s.loc(e['e'], st)
                if l and l[0] == 'f' and l[2] == '*': return l[1]
                return P(SN) if s.isptr(e['t']) else None
            if e['op'] == '*': return s.load(s.loc(e, st), st, e.get('t'))
            if e['op'].startswith(('++', '--')):
                l = s.loc(e['e'], st); s.store(l, None, st, e)
                return None
            s.ev(e['e'], st); return None
        if k == 'bin':
            op = e['op']
            if op == '=':
                v = s.ev(e['b'], st); l = s.loc(e['a'], st); s.store(l, v, st, e)
                return v
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                s.ev(e['b'], st); l = s.loc(e['a'], st)
                s.store(l, None, st, e)
                return None
            if op in ('&&', '||'):
                t, f = s.cond(e, s.copy(st)); r = s.j([t, f])
                if r is not None: st['v'] = r['v']; st['h'] = r['h']
                return None
            a = s.ev(e['a'], st); b = s.ev(e['b'], st)
            return b if op == ',' else None
        if k == 'cond':
            t, f = s.cond(e['c'], st)
            a = s.ev(e['a'], t) if t is not None else None; b = s.ev(e['b'], f) if f is not None else None
            r = s.j([t, f])
            if r is not None: st['v'] = r['v']; st['h'] = r['h']
            if t is None: return b
            if f is None: return a
            return jv(a, b)
        if k == 'cast':
            v = s.ev(e['e'], st)
            if s.isptr(e['t']) and (v is None or v[0] != 'P'): return P('N') if lit(e['e']) == 0 else P(SN)
            return v
        if k in ('init', 'ctor', 'stdinit'):
            if e.get('cp') and len(e.get('a') or []) == 1:
                return s.ev(e['a'][0], st)
            a = e.get('a') if isinstance(e.get('a'), list) else [e.get('e')]
            vs = tuple(s.ev(x, st) for x in a)
            tn = s.T[e['t']]['s'] if 't' in e else ''
            if re.match(r'(const )?std::(vector|deque|stack|array|basic_string)<', tn):
                return ('C', None) if 'array' not in tn else ('C', P('N'))
            if re.match(r'(const )?std::(pair|tuple)<', tn):
                if len(vs) == 1 and vs[0] and vs[0][0] == 'T': return vs[0]
                return ('T', vs)
            fn = s.F.get(e.get('f'))
            if fn and s.body(fn): s.call(fn, OBJ if not s.nodecls(fn) else P('F'), vs, e.get('a') or [], st, e)
            return None
        if k == 'call':
            r = s.evcall(e, st)
            return s.load(r[1], st, e.get('t')) if r and r[0] == 'R' else r
        if k == 'delete':
            v = s.ev(e['e'], st)
            if v and v[0] == 'P' and (v[1] & {'S', 'l'}): s.bad(e, 'a node shared with existing versions is deleted')
            return None
        if k == 'new': s.ev(e.get('e'), st); return s.alloc(e, st)
        for c in kids(e): s.ev(c, st)
        return P(SN) if 't' in e and s.isptr(e['t']) else None
    def alloc(s, e, st):
        n = ('n', tuple(s.sites) + (e.get('l'),)); s.rename(st, n)
        s.res.count('allocations seen')
        return P('F', n)
    def body(s, fn): return isinstance(fn.get('body'), dict) and X.rel(s.d['files'][fn['loc'][0]]).startswith('library/')
    def nodecls(s, fn): return 'Node' in (fn.get('q') or '').split('::')[-2:][0] if '::' in fn.get('q', '') else False
    def evcall(s, e, st):
        n = e.get('n') or e.get('opc') or ''
        args = e.get('a') or []
        ptr = s.isptr(e['t']) if 't' in e else False
        fn = s.F.get(e.get('f')); q = (fn or s.d['_decl'].get(e.get('f')) or {}).get('q', '')
        if q.startswith('suisen::ObjectPool'):
            if n == 'alloc': return s.alloc(e, st)
            vs = [s.ev(a, st) for a in args]
            if n == 'free' and vs and vs[0] and vs[0][0] == 'P' and (vs[0][1] & {'S', 'l'}): s.bad(e, 'a node shared with existing versions is returned to the pool')
            return P(SN) if ptr else None
        if n == 'exchange' and len(args) == 2:
            l = s.loc(args[0], st); old = s.load(l, st, e.get('t')); v = s.ev(args[1], st); s.store(l, v, st, e); return old
        if n == 'swap' and len(args) == 2 and not (fn and s.body(fn)):
            la = s.loc(args[0], st); lb = s.loc(args[1], st); ta = args[0].get('t') if isinstance(args[0], dict) else None
            va = s.load(la, st, ta); vb = s.load(lb, st, ta); s.store(la, vb, st, e); s.store(lb, va, st, e); return None
        if n == 'operator=' or e.get('opc') == '=':
            o = strip(e.get('o')) if e.get('o') is not None else None
            if isinstance(o, dict) and o.get('k') == 'call' and o.get('n') == 'tie':
                v = s.ev(args[0], st)
                for i, a in enumerate(o.get('a') or []):
                    s.store(s.loc(a, st), v[1][i] if v and v[0] == 'T' and i < len(v[1]) else P(SN), st, e)
                return None
            v = s.ev(args[-1], st); l = s.loc(o if o is not None else args[0], st)
            s.store(l, v if not (l and l[0] == 'f' and l[2] == '*') else None, st, e)
            return ('R', l) if l else None
        if e.get('opc') and e['opc'] != '()' and len(e['opc']) >= 2 and e['opc'].endswith('=') and e['opc'] not in ('==', '!=', '<=', '>='):
            vs = [s.ev(a, st) for a in args]
            l = s.loc(e['o'] if e.get('o') is not None else args[0], st)
            if not (l and l[0] == 'v'): s.store(l, None, st, e)
            return None
        if n in ('move', 'forward', 'as_const') and len(args) == 1: return s.ev(args[0], st)
        if n in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple'): return ('T', tuple(s.ev(a, st) for a in args))
        if n == 'get' and len(args) == 1 and not (fn and s.body(fn)): 
            s.ev(args[0], st); return P(SN) if ptr else None
        # containers
        if e.get('o') is not None and not (fn and s.body(fn)):
            o = strip(e['o']); l = s.loc(o, st) if isinstance(o, dict) else None
            x = s.load(l, st, None) if l else None
            if e.get('opc') == '()' or n == 'operator()':
                f = x if x else s.ev(o, st)
                vs = tuple(s.ev(a, st) for a in args)
                if f and f[0] == 'L':
                    tgt = s.F.get(e.get('f'))
                    if tgt and s.body(tgt): return s.call(tgt, None, vs, args, st, e)
                return P(SN) if ptr else None
            if e.get('opc') == '[]': return s.load(s.loc(e, st), st, e.get('t'))
            vs = [s.ev(a, st) for a in args]
            if x and x[0] == 'C':
                if n in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front'):
                    v = vs[0] if vs else None
                    s.store(l, ('C', v if x[1] is None else jv(x[1], v)), st, e); return None
                if n in ('back', 'front', 'top', 'at'):
                    return s.forget(x[1], x[1][2]) if x[1] and x[1][0] == 'P' else (x[1] if x[1] is not None else (P(()) if ptr else None))
                if n in ('clear',): s.store(l, ('C', None), st, e)
                return P(SN) if ptr else None
            if l and l[0] == 'f' and l[1][0] == 'P' and n in ('push_back', 'emplace_back', 'pop_back', 'clear', 'resize', 'swap', 'insert', 'erase', 'assign', 'reset', 'set', 'flip'):
                s.store(l, None, st, e)
            return P(SN) if ptr else None
        if fn and s.body(fn):
            this = None
            if e.get('o') is not None:
                o = strip(e['o'])
                if fn.get('lam') or e.get('opc') == '()':
                    vs = tuple(s.ev(a, st) for a in args)
                    return s.call(fn, None, vs, args, st, e)
                v = s.ev(o, st) if e.get('ar') else None
                if v and v[0] == 'P': this = v
                else:
                    l = s.loc(o, st)
                    this = l[1] if l and l[0] == 'f' and l[2] == '*' else OBJ
            vs = []
            for a in args:
                x = strip(a)
                if isinstance(x, dict) and x.get('k') == 'ref' and s.isptr(x['t']): s.named(s.loc(x, st), st, '%s:%s:%s' % (s.cur['id'], e.get('l'), x.get('d')))
                v = s.ev(a, st)
                # an internal node of the balanced tree has two children
                if n == 'merge' and isinstance(x, dict) and x.get('k') == 'idx' and v and v[0] == 'P' and v[1] == SN: v = ('P', frozenset('S'), v[2])
                vs.append(v)
            return s.call(fn, this, tuple(vs), args, st, e)
        vs = [s.ev(a, st) for a in args]
        if e.get('o') is not None: s.ev(e['o'], st)
        if e.get('fe') is not None: s.ev(e['fe'], st)
        return P(SN) if ptr else None
    def call(s, fn, this, vs, args, st, e):
        def kk(v):
            if v is None: return None
            if v[0] == 'P': return ('P', v[1])
            if v[0] == 'T': return ('T', tuple(kk(x) for x in v[1]))
            return v[:2] if v[0] != 'R' else 'R'
        key = (fn['id'], kk(this), tuple(kk(v) for v in vs))
        s.res.count('calls followed')
        if key in s.stack or len(s.stack) > 40:
            st['h'].clear(); s.hit.add(key)
            return s.summ.get(key, P(()) if s.isptr(fn['ret']) else None)
        def hasr(v): return v is not None and (v[0] in 'RLC' or (v[0] == 'T' and any(hasr(x) for x in v[1])))
        cacheable = s.T[fn['ret']]['s'] != 'void' and not fn.get('lam') and not any(hasr(v) for v in vs)
        names = {v[2] for v in vs + (this,) if v is not None and v[0] == 'P' and v[2] is not None}
        if cacheable and key in s.memo:
            for k in [k for k in st['h'] if k[0] in names]: del st['h'][k]
            return s.memo[key]
        params = fn['p']
        locs = []
        for p, a in zip(params, args):
            t = s.T[p['t']]
            locs.append(s.loc(a, s.copy(st)) if t.get('ref') and isinstance(strip(a), dict) and strip(a).get('k') in ('ref', 'mem', 'idx') else None)
        ids = {p['id'] for p in params} | {v['id'] for x in walk(fn['body']) if x.get('k') == 'decl' for v in x['v']} | {'this'}
        saved = {i: st['v'].get(i) for i in ids}
        old = (s.cur, s.rets); s.stack.append(key); s.sites.append(e.get('l') if e else 0)
        entry = s.copy(st)
        for rnd in range(6):
            s.cur = fn; s.rets = []; s.hit = getattr(s, 'hit', set()); cur = s.copy(entry)
            if not fn.get('lam') and e is not None and not (e.get('opc') == '()'): cur['v']['this'] = this
            for p, v, l in zip(params, vs, locs):
                if l is not None and l != ('v', p['id']): cur['v'][p['id']] = ('R', l)
                else: cur['v'][p['id']] = v if v is not None else (P(SN) if s.isptr(p['t']) else None)
            for i in fn.get('inits') or []:
                if i.get('e') is not None: s.ev(i['e'], cur)
            ex = Exit(); out = s.stmt(fn['body'], cur, ex)
            end = s.j([out] + ex.ret)
            r = None; first = True
            for v in s.rets: r = v if first else jv(r, v); first = False
            if key not in s.hit or s.summ.get(key) == r: break
            s.summ[key] = r
        s.summ[key] = r
        s.stack.pop(); s.sites.pop(); s.cur, s.rets = old
        if end is None: end = cur
        st['v'] = end['v']; st['h'] = end['h']
        for i, v in saved.items():
            if v is None: st['v'].pop(i, None)
            else: st['v'][i] = v
        if r is None and s.isptr(fn['ret']): r = P(SN)
        if r and r[0] == 'R' and r[1] and r[1][0] == 'v' and r[1][1] in ids: r = None
        s.hit.discard(key)
        if cacheable and not (s.hit & set(s.stack)) and not (r and r[0] in 'RLC') : s.memo[key] = strip_names(r)
        return r
    hit = set()
    def on_return(s, e, st, node):
        if e is None: return
        x = strip(e)
        rt = s.T[s.cur['ret']]
        if rt.get('ref'):
            l = s.loc(x, st); s.rets.append(('R', l) if l else None); return
        s.rets.append(s.ev(x, st))
    def decl(s, v, st):
        t = s.T[v['t']]
        s.store(('v', v['id']), None, st, v)
        if v.get('binds'):
            x = s.ev(v['e'], st) if v.get('e') is not None else None
            for i, b in enumerate(v['binds']):
                st['v'][b['id']] = x[1][i] if x and x[0] == 'T' and i < len(x[1]) else (P(SN) if s.isptr(b['t']) else None)
            return
        if t.get('ref') and v.get('e') is not None:
            l = s.loc(v['e'], st)
            if l is not None and l[0] != 'g': st['v'][v['id']] = ('R', l); return
        x = s.ev(v['e'], st) if v.get('e') is not None else None
        if re.match(r'(const )?std::(vector|deque|stack)<', t['s']) and not (x and x[0] == 'C'): x = ('C', None)
        if re.match(r'(const )?std::vector<', t['s']) and v.get('e') is not None and (strip(v['e']).get('a') or []): x = ('C', P('N')) if x == ('C', None) else x
        if x is None and s.isptr(v['t']): x = P(SN if v.get('e') is not None else 'N')
        st['v'][v['id']] = x
    def refine(s, e, st, truth):
        e = strip(e)
        if isinstance(e, dict) and e.get('k') == 'cast': e = strip(e['e'])
        v = None; neg = False
        r = s.leaftest(e, st)
        if r:
            x = st['v'].get(r[0])
            if x and x[0] == 'P':
                if truth == r[1]: st['v'][r[0]] = ('P', x[1] - {'l'}, x[2])
                elif 'S' in x[1]: st['v'][r[0]] = ('P', (x[1] - {'S'}) | {'l'}, x[2])
            return st
        if isinstance(e, dict) and e.get('k') in ('ref', 'mem', 'idx') and 't' in e and s.isptr(e['t']): v = e
        elif isinstance(e, dict) and e.get('k') == 'bin' and e['op'] in ('==', '!='):
            for x, y in ((e['a'], e['b']), (e['b'], e['a'])):
                if isinstance(strip(y), dict) and strip(y).get('k') == 'null': v = strip(x); neg = e['op'] == '=='
        if v is None or v.get('k') != 'ref': return st
        l = s.loc(v, st)
        x = s.load(l, st, v.get('t'))
        if l and l[0] == 'v' and x and x[0] == 'P':
            ks = x[1] - {'N'} if truth != neg else x[1] & {'N'}
            if not ks: return None
            st['v'][l[1]] = ('P', ks, x[2])
        return st


def run(res, tier):
    js = X.run_witnesses(['persist'])
    d = X.load(js['persist']); T = d['types']
    d['_f'] = {f['id']: f for f in d['funcs']}; d['_decl'] = {x['id']: x for x in d['decls']} | {x['id']: x for x in d['funcs']}
    recs = {r['id']: r for r in d['records']}
    import collections
    per = collections.Counter()
    for fn in d['funcs']:
        f = X.rel(d['files'][fn['loc'][0]])
        r = recs.get(fn.get('cls'))
        if not r or not f.startswith('library/') or not isinstance(fn.get('body'), dict): continue
        full = r.get('full') or ''
        if 'Persistent' not in full or fn.get('lam') or fn.get('ctor') or fn.get('dtor') or fn.get('imp'): continue
        if fn.get('acc') not in ('public', None): continue
        if re.search(r'(::|>::)Node$', full) or r['n'] == 'Node' or r['q'].startswith('suisen::ObjectPool'): continue
        if fn['n'] in BYCONTRACT: res.count('operations that change versions by contract'); continue
        per[r['q']] += 1
        res.count('public operations analysed')
        o = Own(d, res, fn); o.hit = set()
        st = {'v': {}, 'h': {}}
        vs = tuple(P(SN) if o.isptr(p['t']) else None for p in fn['p'])
        o.cur = fn
        o.call(fn, OBJ, vs, [], st, {'l': fn['loc'][1]})
    for q, n in sorted(per.items()): res.sample('%s: %d operations' % (q, n))
    res.floor('public operations analysed', 120); res.floor('stores through node pointers', 200)
    res.assumptions.append('an internal node of the balanced trees has two children (merge is entered with non-null children)')
    res.assumptions.append('mut_set, free, rebuild and the pool resets change versions by contract and are not analysed as operations')
