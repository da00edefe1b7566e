"""Array-based lazy trees (vectors of values and of pending operations, node k has the children 2k and 2k+1).
Every method is turned into a structured trace of its effects on the two arrays, member calls inlined, with the indices as linear terms over
the parameters and loop variables:
  reset X / comp X f / map X f / upd X / rd X / set X / alt(condition, A, B) / loop(variables with start and step, condition, body)
and the rules are decided on the traces (see the end of the file). A construct the trace cannot express makes the rule it concerns silent."""
import collections
from flow import walk, strip, lit, assert_cond, is_assert_fail
import extract as X

class Stop(Exception): pass

def C(n): return ('lin', n, ())
def A(a): return ('lin', 0, ((a, 1),))
def add(x, y, s=1):
    m = dict(x[2])
    for a, c in y[2]: m[a] = m.get(a, 0) + s * c
    return ('lin', x[1] + s * y[1], tuple(sorted(((a, c) for a, c in m.items() if c), key=repr)))
def mul(x, k): return ('lin', x[1] * k, tuple((a, c * k) for a, c in x[2])) if k else C(0)
def islin(t): return isinstance(t, tuple) and t and t[0] == 'lin'
def const(t): return t[1] if islin(t) and not t[2] else None

OPN = {'op': 'op', 'opb': 'op', 'mapping': 'map', 'mappingb': 'map', 'composition': 'comp', 'id': 'id', 'e': 'e', 'eb': 'e'}


class Trace:
    def __init__(t, d, rec, data, lazy, family):
        t.d = d; t.T = d['types']; t.f = d['_f']; t.data = data; t.lazy = lazy; t.family = family; t.n = 0; t.org = {}; t.stack = []
        t.lam = {r['id'] for r in d['records'] if r.get('lambda')}

    def fresh(t, n='x'):
        t.n += 1; return A(('v', n, t.n))

    # ---- expressions: returns a term; effects appended to st['ev']
    def ev(t, e, st):
        e = strip(e)
        if not isinstance(e, dict): return ('?',)
        k = e.get('k'); env = st['env']; v = lit(e)
        if v is not None and k in ('int', 'bool', 'char', 'ref', 'cast', 'un', 'sizeof', 'x'): return C(int(v))
        if k == 'ref':
            if e.get('d') in env: return t.rd(env[e['d']], st)
            return A(('g', e.get('n'))) if t.isint(e) else ('?', e.get('n'))
        if k == 'mem':
            if e.get('n') in (t.data, t.lazy) and t.onthis(e): return ('arr', e['n'])
            b = strip(e['b']) if e.get('b') is not None else None
            if b is None or b.get('k') == 'this': return A(('fld', e.get('n'))) if t.isint(e) else ('?', e.get('n'))
            t.ev(b, st); return t.fresh() if t.isint(e) else ('?', e.get('n'))
        if k == 'cast': return t.ev(e['e'], st)
        if k == 'this': return ('this',)
        if k == 'lambda': return ('lam', e, dict(env))
        if k == 'un':
            op = e['op']
            if '++' in op or '--' in op:
                x = t.ev(e['e'], st)
                if not islin(x): return ('?',)
                y = add(x, C(1 if '+' in op else -1)); t.store(e['e'], y, st)
                return x if e.get('post') or op in ('p++', 'p--', 'x++', 'x--') or op.endswith('post') else y
            x = t.ev(e['e'], st)
            if op == '*' and x == ('this',): return x
            if op == '-' and islin(x): return mul(x, -1)
            if op in ('!', 'not'): return ('not', x)
            return t.fresh() if t.isint(e) else ('?',)
        if k == 'bin': return t.binop(e['op'], e['a'], e['b'], st, e)
        if k == 'idx':
            b = t.ev(e['a'] if 'a' in e else e['b'], st); i = t.ev(e['i'] if 'i' in e else e['b'], st)
            return t.rd(('el', b[1], i), st) if b[0] == 'arr' else ('?',)
        if k == 'cond':
            c = t.ev(e['c'], st)
            a, b = t.fork(st, c); x = t.ev(e['a'], a); y = t.ev(e['b'], b); t.joinalt(st, c, a, b, e)
            return x if x == y else t.fresh() if t.isint(e) else ('?',)
        if k == 'ctor' or k in ('init', 'ilist', 'x', 'pinit'):
            a = e.get('a') if isinstance(e.get('a'), list) else ([e['e']] if isinstance(e.get('e'), dict) else [])
            if k == 'ctor' and not e.get('cp') and len(a) >= 2:
                # an object made of an element and a callback (an update proxy): the element is modified, then the callback runs
                l = t.lval(a[0], st); y = strip(a[1]); y = t.ev(y, st) if isinstance(y, dict) else ('?',)
                while isinstance(y, tuple) and y and y[0] == 'wrap': y = y[1]
                if l and l[0] == 'el' and l[1] == t.data and y[0] == 'lam':
                    st['ev'].append(('rd', l[2], e.get('l'))); st['ev'].append(('set', l[2], ('?',), e.get('l'))); t.runlam(y, st); return ('?',)
            xs = [t.ev(x, st) for x in a]
            return xs[0] if len(xs) == 1 else ('?',)
        if k == 'call': return t.call(e, st)
        if k in ('float', 'str', 'nullptr'): return ('?',)
        for x in walk(e):
            if x is not e and x.get('k') == 'call': t.call(x, st)
        return t.fresh() if t.isint(e) else ('?',)

    def runlam(t, y, st):
        for o in y[1].get('ops') or []:
            f = t.f.get(o)
            if f and isinstance(f.get('body'), dict):
                sub = {'env': dict(y[2]), 'ev': st['ev'], 'facts': st['facts'], 'ret': None, 'done': False}
                for r in t.block(f['body']['s'], [sub]):
                    if r['ev'] is not st['ev']: st['ev'][:] = r['ev']
                return

    def isint(t, e):
        x = t.T[e['t']] if 't' in e else {}
        return bool(x.get('int') or x.get('bool')) or not x
    def onthis(t, e):
        b = strip(e['b']) if e.get('b') is not None else None
        return b is None or b.get('k') == 'this' or b.get('k') == 'un' and strip(b['e']).get('k') == 'this'
    def rd(t, v, st):
        if isinstance(v, tuple) and v and v[0] == 'el':
            if v[1] == t.data: st['ev'].append(('rd', v[2], st.get('line')))
            if v[1] == t.lazy:
                for x in reversed(st['ev']):
                    if x[0] == 'comp' and x[1] == v[2]: break
                    if x[0] == 'reset' and x[1] == v[2]: return ('id',)
            return ('data' if v[1] == t.data else 'lazy', v[2])
        return v

    def lval(t, e, st):
        e = strip(e)
        if not isinstance(e, dict): return None
        k = e.get('k')
        if k == 'ref' and e.get('d') in st['env']:
            v = st['env'][e['d']]
            return v if isinstance(v, tuple) and v and v[0] == 'el' else ('var', e['d'])
        if k == 'call' and e.get('opc') == '[]' or k == 'idx':
            a = ([e['o']] if e.get('o') is not None else []) + list(e.get('a') or []) if k == 'call' else [e.get('a') or e['b'], e.get('i') or e['b']]
            o = strip(a[0])
            if o.get('k') == 'mem' and o.get('n') in (t.data, t.lazy) and t.onthis(o): return ('el', o['n'], t.ev(a[1], st))
        if k == 'mem': return ('fldv', e.get('n'))
        if k == 'cast' and e.get('lv'): return t.lval(e['e'], st)
        return None

    def store(t, lhs, v, st, line=None):
        l = t.lval(lhs, st)
        if l is None: return
        if l[0] == 'var': st['env'][l[1]] = v; return
        if l[0] != 'el': return
        Xi = l[2]; ev = st['ev']; line = line or st.get('line')
        def drop(n):                                 # the reads that are part of the store itself
            for i in range(len(ev) - 1, -1, -1):
                if n <= 0 or ev[i][0] != 'rd': break
                del ev[i]; n -= 1
        if l[1] == t.lazy:
            if v == ('id',): ev.append(('reset', Xi, line))
            elif v[0] == 'comp': ev.append(('comp', Xi, v[1], v[2], line))
            else: ev.append(('over', Xi, v, line))
        else:
            if v[0] == 'map' and v[2] == ('data', Xi): drop(1); ev.append(('map', Xi, v[1], line))
            elif v[0] == 'op' and v[1][0] == v[2][0] == 'data' and islin(Xi) and {v[1][1], v[2][1]} == {mul(Xi, 2), add(mul(Xi, 2), C(1))}: drop(2); ev.append(('upd', Xi, line))
            else: ev.append(('set', Xi, v, line))

    def binop(t, op, a, b, st, e):
        op = {'and': '&&', 'or': '||', 'not_eq': '!=', 'bitand': '&', 'bitor': '|', 'xor': '^'}.get(op, op)
        if op == ',': t.ev(a, st); return t.ev(b, st)
        if op == '=':
            y = t.ev(b, st); t.store(a, y, st, e.get('l')); return y
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            x = t.ev(a, st); y = t.arith(op[:-1], x, t.ev(b, st), e); t.store(a, y, st, e.get('l')); return y
        if op in ('&&', '||'):
            x = t.ev(a, st); n = len(st['ev']); y = t.ev(b, st)
            if len(st['ev']) > n and any(q[0] != 'rd' for q in st['ev'][n:]): raise Stop()
            return (op, x, y)
        x = t.ev(a, st); y = t.ev(b, st)
        if op in ('==', '!=', '<', '>', '<=', '>='): return ('cmp', op, x, y)
        return t.arith(op, x, y, e)

    def arith(t, op, x, y, e):
        if islin(x) and islin(y):
            if op == '+': return add(x, y)
            if op == '-': return add(x, y, -1)
            if op == '*':
                if const(y) is not None: return mul(x, const(y))
                if const(x) is not None: return mul(y, const(x))
            if op == '<<' and const(y) is not None and 0 <= const(y) < 31: return mul(x, 1 << const(y))
            if op == '<<': return A(('shl', x, y))
            if op == '>>': return x if const(y) == 0 else A(('shr', x, y))
            if op == '/' and const(y) == 2: return A(('shr', x, C(1)))
            even = x[1] % 2 == 0 and all(c % 2 == 0 for _, c in x[2])
            if op in ('|', '^') and const(y) == 1 and even: return add(x, C(1))
            return A(('bin', op, x, y))
        return t.fresh() if t.isint(e) else ('?',)

    def call(t, e, st):
        op = e.get('opc'); fe = strip(e.get('fe')) if e.get('fe') is not None else {}
        n = e.get('n') or (fe or {}).get('n'); args = list(e.get('a') or [])
        f = t.f.get(e.get('f')); o = e.get('o')
        if op == '[]':
            l = t.lval(e, st)
            if l and l[0] == 'el': return t.rd(l, st)
        if op == '=' and (o is not None and len(args) == 1 or o is None and len(args) == 2):
            lhs, rhs = (o, args[0]) if o is not None else args
            y = t.ev(rhs, st); l = t.lval(lhs, st)
            if l: t.store(lhs, y, st, e.get('l'))
            else: t.ev(lhs, st)
            return y
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a = ([o] if o is not None else []) + args
            if len(a) == 2: return ('cmp', op, t.ev(a[0], st), t.ev(a[1], st))
        if n in ('move', 'forward', 'as_const') and len(args) == 1: return t.ev(args[0], st)
        if n in ('__builtin_ctz', '__builtin_ctzll', 'countr_zero') and len(args) == 1:
            x = t.ev(args[0], st); return A(('ctz', x)) if islin(x) else t.fresh()
        if n in ('max', 'min') and len(args) == 2:
            x = t.ev(args[0], st); y = t.ev(args[1], st)
            return A((n, x, y)) if islin(x) and islin(y) else t.fresh()
        if n == 'exchange' and len(args) == 2:
            x = t.ev(args[0], st); y = t.ev(args[1], st); t.store(args[0], y, st, e.get('l')); return x
        if n in OPN and o is None and (f is None or f.get('cls') is None):
            xs = [t.ev(a, st) for a in args]
            if OPN[n] in ('id', 'e'): return (OPN[n],)
            if len(xs) == 2: return (OPN[n], xs[0], xs[1])
        if f is not None and f.get('cls') in t.lam and o is not None:
            y = t.ev(o, st)
            if y[0] == 'lam' and not args: t.runlam(y, st); return ('?',)
        if f is not None and f.get('cls') in t.family and isinstance(f.get('body'), dict) and (f.get('static') or o is None or strip(o).get('k') == 'this' or t.ev(o, st) == ('this',)):
            env = {}
            for p, a in zip(f['p'], args):
                ty = t.T[p['t']].get('s', '')
                l = t.lval(a, st) if ty.endswith('&') else None
                env[p['id']] = l if l and l[0] == 'el' else t.ev(a, st)
                if l and l[0] == 'var' and not ty.startswith('const'): raise Stop()
            if t.stack.count(f['id']) >= 2: st['ev'].append(('rec', f['n'], e.get('l'))); return ('?',)
            t.stack.append(f['id'])
            try:
                sub = {'env': env, 'ev': st['ev'], 'facts': st['facts'], 'ret': None, 'done': False}
                rs = t.block(f['body']['s'], [sub])
                if len(rs) == 1:
                    if rs[0]['ev'] is not st['ev']: st['ev'][:] = rs[0]['ev']
                    return rs[0]['ret'] if rs[0]['ret'] is not None else ('?',)
                # several ways out: an alternative of complete traces
                n0 = len(st['ev']) if all(r['ev'] is not st['ev'] for r in rs) else 0
                base = list(rs[0]['ev']); i = 0
                while all(i < len(r['ev']) and r['ev'][i] == base[i] for r in rs) and i < len(base): i += 1
                tails = [r['ev'][i:] for r in rs]; acc = tails[-1]
                for q, r in zip(reversed(tails[:-1]), reversed(rs[:-1])): acc = [('alt', r.get('way') or ('?',), q, acc)]
                st['ev'][:] = base[:i] + acc
                return t.fresh() if t.isint(e) else ('?',)
            finally: t.stack.pop()
        if o is not None: t.ev(o, st)
        for a in args: t.ev(a, st)
        return t.fresh() if t.isint(e) else ('?',)

    # ---- statements
    def fork(t, st, c):
        r = []
        for neg in (0, 1):
            r.append({'env': dict(st['env']), 'ev': [], 'facts': st['facts'] + [c if not neg else ('not', c)], 'ret': st['ret'], 'done': False, 'line': st.get('line')})
        return r
    def joinalt(t, st, c, a, b, n):
        if a['ev'] or b['ev']: st['ev'].append(('alt', c, a['ev'], b['ev']))
        for v in set(a['env']) | set(b['env']):
            x, y = a['env'].get(v), b['env'].get(v)
            if x == y: st['env'][v] = x
            elif x is not None and y is not None and islin(x) and islin(y):
                z = t.fresh(); t.org[z[2][0][0]] = [x, y]; st['env'][v] = z
            else: st['env'][v] = ('?',)

    def block(t, ss, states):
        for s in ss or []:
            out = []
            for st in states:
                if st['done']: out.append(st)
                else: out += t.stmt(s, st)
            states = out
            if len(states) > 64: raise Stop()
        return states

    def stmt(t, n, st):
        if not isinstance(n, dict): return [st]
        k = n['k']; st['line'] = n.get('l')
        if k == 'block': return t.block(n['s'], [st])
        if k in ('null', 'typedef', 'using', 'sassert'): return [st]
        if k == 'expr':
            c = assert_cond(n['e'])
            if c is not None: st['facts'] = st['facts'] + [t.ev(c, st)]; return [st]
            t.ev(n['e'], st); return [st]
        if k == 'decl':
            for v in n['v']:
                if v.get('binds'): raise Stop()
                ty = t.T[v['t']].get('s', '') if 't' in v else ''
                l = t.lval(v['e'], st) if v.get('e') is not None and ty.endswith('&') else None
                if l and l[0] == 'var' and not ty.startswith('const'): raise Stop()
                st['env'][v['id']] = l if l and l[0] == 'el' else t.ev(v['e'], st) if v.get('e') is not None else ('?',)
            return [st]
        if k == 'ret':
            st['ret'] = t.ev(n['e'], st) if n.get('e') is not None else ('?',); st['done'] = 'ret'; return [st]
        if k == 'break' or k == 'cont': st['done'] = k; return [st]
        if k == 'if':
            if n.get('init') is not None: t.stmt(n['init'], st)
            c = t.ev(n['c'], st); v = const(c) if islin(c) else None
            if v is not None:
                br = n.get('a') if v else n.get('b')
                return t.stmt(br, st) if br is not None else [st]
            a, b = t.fork(st, c)
            ra = t.stmt(n.get('a'), a) if n.get('a') is not None else [a]
            rb = t.stmt(n.get('b'), b) if n.get('b') is not None else [b]
            if len(ra) == len(rb) == 1 and not ra[0]['done'] and not rb[0]['done']:
                t.joinalt(st, c, ra[0], rb[0], n); return [st]
            pre = st['ev']; out = []
            for r in ra + rb: r['ev'] = list(pre) + r['ev']; r.setdefault('way', c); out.append(r)
            return out
        if k in ('for', 'while', 'do'): return t.loop(n, st)
        raise Stop()

    def assigned(t, n, env):
        s = set()
        for x in walk(n):
            e = None
            if x.get('k') == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='): e = x['a']
            elif x.get('k') == 'un' and ('++' in x['op'] or '--' in x['op']): e = x['e']
            elif x.get('k') == 'call' and x.get('opc') == '=': e = x['o'] if x.get('o') is not None else x['a'][0]
            if e is not None:
                e = strip(e)
                if isinstance(e, dict) and e.get('k') == 'ref' and e.get('d') in env: s.add(e['d'])
        return s

    def loop(t, n, st):
        if n['k'] == 'for' and n.get('init') is not None:
            r = t.stmt(n['init'], st)
            if len(r) != 1: raise Stop()
        vs = t.assigned({'k': 'x', 'q': [y for y in (n.get('c'), n.get('inc'), n.get('s')) if y]}, st['env'])
        L = {'vars': {}, 'line': n.get('l'), 'do': n['k'] == 'do'}
        head = {}
        for v in vs:
            x = st['env'][v]
            if islin(x):
                s = t.fresh(); a = s[2][0][0]; t.org[a] = [x]; head[v] = s; L['vars'][a] = {'init': x, 'next': []}
            elif isinstance(x, tuple) and x and x[0] == 'el': pass
            else: head[v] = ('loopval', v)
        cur = {'env': {**st['env'], **head}, 'ev': [], 'facts': list(st['facts']), 'ret': None, 'done': False}
        c = None
        if n['k'] != 'do' and n.get('c') is not None:
            c = t.ev(n['c'], cur); cur['facts'] = cur['facts'] + [c]
        L['c'] = c; L['head_ev'] = len(cur['ev'])
        rs = t.stmt(n.get('s'), cur); outs = []; L['paths'] = []
        ended = []
        for r in rs:
            if r['done'] == 'ret': ended.append(r)
            elif r['done'] != 'break':
                if n.get('inc') is not None: t.ev(n['inc'], r)
                if n['k'] == 'do': L['c'] = t.ev(n['c'], r)
                for v, s in head.items():
                    if islin(s): L['vars'][s[2][0][0]]['next'].append(r['env'].get(v))
            L['paths'].append((r['ev'], r['done']))
        # chained application of pending operations to a local value: res = mapping(lazy[X], res)
        L['chain'] = [r['env'][v] for r in rs for v, s in head.items() if not islin(s) and isinstance(r['env'].get(v), tuple) and r['env'][v][0] == 'map' and r['env'][v][2] == s]
        st['ev'].append(('loop', L))
        for v, s in head.items():
            if islin(s):
                z = t.fresh(); t.org[z[2][0][0]] = [st['env'][v]]; st['env'][v] = z
            else: st['env'][v] = ('?',)
        if c is not None and not any(r['done'] == 'break' for r in rs):
            pass
        return [st]

    def base(t, term, depth=0):
        """the index at which the cursor in the term starts, and whether the term is that index itself"""
        if not islin(term): return None, False
        if depth > 12: return None, False
        for a, _ in term[2]:
            if a in t.org:
                xs = {t.base(x, depth + 1)[0] for x in t.org[a]}
                return (xs.pop() if len(xs) == 1 else None), False
        if any(a[0] == 'v' for a, _ in term[2]) and depth == 0: return term, True
        return term, True


# ------------------------------------------------------------------ rules
def events(evs):
    for e in evs:
        yield e
        if e[0] == 'alt':
            yield from events(e[2]); yield from events(e[3])
        elif e[0] == 'loop':
            for p, _ in e[1]['paths']: yield from events(p)


def leafcond(c, Xi, m):
    """(+1, k): the condition says Xi + k < m; (-1, k): it says not; None: it says something else"""
    s = 1
    while isinstance(c, tuple) and c and c[0] == 'not': s = -s; c = c[1]
    if not islin(Xi) or not (isinstance(c, tuple) and c and c[0] == 'cmp') or not islin(c[2]) or not islin(c[3]): return None
    op, a, b = c[1], c[2], c[3]
    dl = add(a, b, -1); mm = add(Xi, A(('fld', m)), -1)
    if op in ('>', '>='): op = {'>': '<', '>=': '<='}[op]; dl = mul(dl, -1)
    if op == '<=': dl = add(dl, C(-1)); op = '<'
    if op != '<': return None
    k = add(dl, mm, -1)
    if const(k) is not None: return (s, const(k))
    k = const(add(dl, mm))                       # m - X + c < 0, that is not X - (c + 1) < m
    if k is not None: return (-s, -(k + 1))
    return None


def under(evs, pred, Xi, m, bad=None, guards=()):
    """guards (other than whether Xi is a leaf) under which an event satisfying pred happens; None if there is none"""
    r = None
    for e in evs:
        if e[0] == 'alt':
            for side, br in ((1, e[2]), (-1, e[3])):
                q = under(br, pred, Xi, m, bad, guards)
                if q is not None:
                    g = leafcond(e[1], Xi, m)
                    q2 = q + ([] if g is not None else [e[1]])
                    if g is not None and bad is not None: bad.append((g[0] * side, g[1]))
                    if r is None or len(q2) < len(r): r = q2
        elif e[0] == 'rec' or e[0] != 'loop' and pred(e): return []
    return r


def check_seq(R, evs, ctx):
    """the local rules, on one sequence of events and those nested in it"""
    for i, e in enumerate(evs):
        k = e[0]
        if k == 'alt': check_seq(R, e[2], ctx + [evs[:i]]); check_seq(R, e[3], ctx + [evs[:i]])
        elif k == 'loop':
            for p, _ in e[1]['paths']: check_seq(R, p, ctx)
        elif k == 'comp':
            R.res.count('compositions in arrays')
            if e[3] != ('lazy', e[1]) or e[2] == ('lazy', e[1]): R.v(e[4], 'the operation pending on a node is not composed below (before) the newer one')
        elif k == 'over' and not R.ctor: R.v(e[3], 'the operation pending on a node is overwritten')
        elif k == 'map' and R.full and dict(e[1][2] if islin(e[1]) else ()).get(('fld', R.m), 0) < 1:
            bad = []
            q = under(evs[i + 1:] + evs[:i], lambda x: x[0] == 'comp' and x[1] == e[1] and x[2] == e[2], e[1], R.m, bad)
            if q is None: R.v(e[3], 'an operation is applied to the value of a node but not kept for its children')
            elif any(y[0] == 'alt' and under([y], lambda x: x[0] == 'reset' and x[1] == e[1], e[1], R.m) is not None and under([y], lambda x: x[0] == 'upd' and x[1] == e[1], e[1], R.m) is None for y in evs[i + 1:]): R.v(e[3], 'a node is pushed because its value is not determined, and not recomputed from its children')
            elif q == [] and bad and not any(b == (1, 0) for b in bad): R.v(e[3], 'an operation is kept for the children of a node under the wrong condition')
        elif k == 'reset' and not R.ctor:
            R.res.count('pending operations cleared in arrays')
            before = [x for s in ctx for x in s] + evs[:i] + evs[i + 1:]
            for b in (0, 1):
                c = add(mul(e[1], 2), C(b)); l = ('lazy', e[1])
                off = [c, add(c, A(('fld', R.m)), -1)]
                q = under(before, lambda x: x[0] == 'comp' and x[1] == c and x[2] == l, c, R.m)
                q2 = under(before, lambda x: x[0] == 'map' and x[1] in off and x[2] == l, c, R.m)
                if q is None or q2 is None: R.v(e[2], 'a pending operation is cleared before the %s child received it' % ('left', 'right')[b])


def delivered(R, evs):
    """an operation handed to the children is cleared on the node, under no further condition"""
    give = []; clear = []
    def rec(evs, g):
        for e in evs:
            if e[0] == 'alt': rec(e[2], g + [e[1]]); rec(e[3], g + [('not', e[1])])
            elif e[0] == 'loop':
                for p, _ in e[1]['paths']: delivered(R, p)
            elif e[0] in ('map', 'comp') and isinstance(e[2], tuple) and e[2] and e[2][0] == 'lazy' and islin(e[2][1]) and islin(e[1]):
                c = [mul(e[2][1], 2), add(mul(e[2][1], 2), C(1))]
                if e[1] in c: give.append((e[2][1], g, e[-1]))
            elif e[0] == 'reset': clear.append((e[1], g))
            elif e[0] == 'rec': clear.append(('any', g))
    rec(evs, [])
    for k, g, line in give:
        if not any((x in (k, 'any')) and all(c in g or x == 'any' or leafcond(c, x, R.m) is not None for c in h) for x, h in clear):
            R.v(line, 'a pending operation is handed to a child and stays pending')


def inlen(L, a):
    """step of the loop variable a: a constant, 'half' or None"""
    v = L['vars'].get(a)
    if v is None: return None
    r = set()
    for x in v['next']:
        if not islin(x): return None
        dd = const(add(x, A(a), -1))
        if dd is not None: r.add(dd)
        elif x == A(('shr', A(a), C(1))): r.add('half')
        else: return None
    return r.pop() if len(r) == 1 else None


def sweep(L, kind):
    """[(base, low, high, guards)] for the nodes base >> i that the loop pushes (kind 'reset') or recomputes (kind 'upd'); None: not of that form"""
    out = []; found = False
    def rec(evs, guards):
        nonlocal found
        for e in evs:
            if e[0] == 'alt': rec(e[2], guards + [e[1]]); rec(e[3], guards + [('not', e[1])])
            elif e[0] == 'loop':
                for p, _ in e[1]['paths']: rec(p, guards + [('inner',)])
            elif e[0] == kind:
                if isinstance(e[1], tuple): found = True; out.append((e[1], guards, e[-1]))
    for p, _ in L['paths']: rec(p, [])
    if not found: return None
    res = []
    for x, g, line in out:
        if not (islin(x) and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1 and x[2][0][0][0] == 'shr'): res.append(None); continue
        _, b, i = x[2][0][0]
        if not (islin(i) and i[1] == 0 and len(i[2]) == 1 and i[2][0][1] == 1 and i[2][0][0] in L['vars']) or any(a in L['vars'] for a, _ in b[2]): res.append(None); continue
        a = i[2][0][0]; step = inlen(L, a); init = L['vars'][a]['init']; c = L['c']
        if step not in (1, -1) or not (isinstance(c, tuple) and c and c[0] == 'cmp'): res.append(None); continue
        op, p, q = c[1], c[2], c[3]
        if not (islin(p) and islin(q)): res.append(None); continue
        dl = add(p, q, -1)                     # p - q op 0
        co = dict(dl[2]).get(a)
        if co not in (1, -1): res.append(None); continue
        rest = add(dl, mul(A(a), co), -1)
        if co == -1: op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op); rest = mul(rest, 1)
        lim = mul(rest, -1) if co == 1 else rest             # a op lim
        if op == '!=': op = '<' if step == 1 else '>'
        if step == 1 and op in ('<', '<='): lo, hi = init, lim if op == '<=' else add(lim, C(-1))
        elif step == -1 and op in ('>', '>='): hi, lo = init, lim if op == '>=' else add(lim, C(1))
        else: res.append(None); continue
        res.append((b, lo, hi, step, g, line))
    return res


class Rules:
    def __init__(s, res, d, fn, t, full, m, lg, ctor):
        s.res, s.d, s.fn, s.t, s.full, s.m, s.lg, s.ctor = res, d, fn, t, full, m, lg, ctor
    def v(s, line, msg):
        rel = X.rel(s.d['files'][s.fn['loc'][0]])
        s.res.violation('%s:%s:%s' % (rel, s.fn['q'].split('suisen::')[-1], msg), '%s:%s' % (rel, line or s.fn['loc'][1]), msg, s.fn.get('full') or s.fn['q'])

    def islg(s, x): return x in (A(('fld', s.lg)), A(('ctz', A(('fld', s.m)))))

    def below(s, b, st):
        """the facts of the path say that the leaf index b is that of an existing leaf"""
        p = add(b, A(('fld', s.m)), -1)
        def say(c, neg=False):
            while isinstance(c, tuple) and c and c[0] == 'not': neg = not neg; c = c[1]
            if not isinstance(c, tuple) or not c: return False
            if c[0] == '&&' and not neg or c[0] == '||' and neg: return say(c[1], neg) or say(c[2], neg)
            if c[0] != 'cmp' or not islin(c[2]) or not islin(c[3]): return False
            op = c[1]
            if neg: op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
            a, bb = c[2], c[3]
            if op in ('>', '>='): a, bb = bb, a; op = {'>': '<', '>=': '<='}[op]
            sz = A(('fld', 'n'))
            if op == '<': return a == p and bb != p and const(bb) is None
            if op == '<=': return add(a, C(-1)) == p and const(bb) is None
            if op == '!=': return p in (a, bb) and const(a) is None and const(bb) is None
            return False
        return any(say(c) for c in st['facts'])

    def public(s, st):
        """pushes before, recomputation after, on one way through a public method"""
        pushed = []; need = []; upds = []; opaque_push = opaque_upd = False; chains = 0
        def touch(Xi, line, mod):
            if not islin(Xi) or const(Xi) is not None: return
            b, exact = s.t.base(Xi)
            if b is None: return
            if not any(a == ('fld', s.m) for a, _ in b[2]):
                if s.full: return
                b = add(b, A(('fld', s.m)))
            need.append((b, exact, line, mod, list(pushed), opaque_push))
        def lin(evs, L=None):
            nonlocal opaque_push, opaque_upd, chains
            for e in evs:
                k = e[0]
                if k == 'loop':
                    L0 = L; L = e[1]; up = sweep(L, 'upd'); pu = sweep(L, 'reset')
                    for kind, q in (('reset', pu), ('upd', up)):
                        if q is None: continue
                        for x in q:
                            if x is None:
                                if kind == 'upd': opaque_upd = True
                                continue
                            b, lo, hi, step, g, line = x
                            s.res.count('sweeps over the ancestors of a leaf')
                            if kind == 'reset' and step != -1: s.v(line, 'pending operations are pushed from the leaf upwards')
                            if kind == 'upd' and step != 1: s.v(line, 'products are recomputed from the root downwards')
                            if const(add(hi, A(('fld', s.lg)), -1)) not in (None, 0) or const(add(hi, A(('ctz', A(('fld', s.m)))), -1)) not in (None, 0):
                                s.v(line, 'the root is not among the nodes %s' % ('pushed' if kind == 'reset' else 'recomputed'))
                            if kind == 'reset': pushed.append((b, lo, g, line))
                            else: upds.append((b, lo, g, line))
                    if pu is None and up is None:
                        chains += len(L['chain'])
                        for c in L['chain']: s.chain(L, c)
                        for p, _ in L['paths']: s.descend(p, [])
                        for p, _ in L['paths']: lin(p)
                    elif None in (pu or []) or None in (up or []):
                        for p, _ in L['paths']: s.descend(p, []); lin(p, L)
                    L = L0
                elif k == 'alt': lin(e[2], L); lin(e[3], L)
                elif k == 'rd': touch(e[1], e[2], False)
                elif k == 'map':
                    if not (isinstance(e[2], tuple) and e[2] and e[2][0] == 'lazy'): touch(e[1], e[3], True)
                elif k == 'comp':
                    if not s.full and not (isinstance(e[2], tuple) and e[2] and e[2][0] == 'lazy'): touch(e[1], e[4], True)
                elif k == 'set': touch(e[1], e[3], True)
                elif k == 'reset':
                    # going down, a node is pushed before its children are looked at: that says nothing about the nodes above
                    a = e[1][2][0][0] if islin(e[1]) and e[1][1] == 0 and len(e[1][2]) == 1 and e[1][2][0][1] == 1 else None
                    if not (a and L and a in L['vars'] and all(islin(x) and dict(x[2]).get(a) == 2 or islin(x) and any(q in s.t.org and True for q, _ in x[2]) for x in L['vars'][a]['next'])): opaque_push = True
                elif k == 'rec': opaque_push = opaque_upd = True
        lin(st['ev'])
        for b, exact, line, mod, before, op in need:
            s.res.count('node accesses in public methods')
            if not op and not (chains and not mod):
                if not any(s.covers(b, exact, p, st) for p in before): s.v(line, 'a node is %s while operations may be pending above it' % ('modified' if mod else 'read'))
            if mod and s.full and not opaque_upd:
                if not any(s.covers(b, exact, p, st) for p in upds): s.v(line, 'a node is modified and the products above it are not all recomputed')
        for b, lo, g, line in pushed + upds:
            if const(lo) == 1 and not g and not s.below(b, st) and s.maybe_end(b, st): s.v(line, 'the ancestors of a leaf index that may lie behind the last leaf are visited')

    def maybe_end(s, b, st):
        p = add(b, A(('fld', s.m)), -1)
        # an assertion p <= n, and nothing that excludes p == n
        for c in st['facts']:
            for x in flat(c):
                if x[0] == 'cmp' and x[1] in ('<=', '>=') and islin(x[2]) and islin(x[3]):
                    a, bb = (x[2], x[3]) if x[1] == '<=' else (x[3], x[2])
                    if a == p and bb[2] and bb[2][0][0][0] == 'fld' and bb[1] == 0: return True
        return False

    def covers(s, b, exact, p, st):
        b2, lo, g, line = p
        dl = const(add(b2, b, -1))
        if dl is None: return False
        mx = [a for a, k in lo[2] if a[0] in ('max', 'min')]
        if len(mx) == 1 and len(lo[2]) == 1 and lo[2][0][1] == 1:
            q = [s.covers(b, exact, (b2, add(x, C(lo[1])), g, line), st) for x in mx[0][1:]]
            return all(q) if mx[0][0] == 'max' else any(q)
        if const(lo) is not None and const(lo) <= 1: low = True
        elif lo == add(A(('ctz', b)), C(1)) or lo == A(('ctz', b)): low = not exact
        elif const(lo) is not None: return False
        elif any(a[0] in ('ctz', 'bin', 'v', 'g') for a, _ in lo[2]) and const(add(lo, A(('ctz', b)), -1)) is None and not any(a[0] == 'ctz' for a, _ in lo[2]): low = True
        else: return False
        return low and (dl == 0 or dl == -1 and not exact)

    def chain(s, L, c):
        """res = mapping(lazy[X], res): from the leaf to the root, since what is pending further up is newer"""
        if c[1][0] != 'lazy' or not islin(c[1][1]): return
        for a, _ in c[1][1][2]:
            if a in L['vars']:
                s.res.count('chains of pending operations applied to a value')
                nx = L['vars'][a]['next']
                if nx and all(islin(x) and (x == mul(A(a), 2) or x == add(mul(A(a), 2), C(1))) or islin(x) and const(add(x, A(a), -1)) not in (None,) and False for x in nx): s.v(L['line'], 'newer pending operations are applied to a value before older ones')
                if inlen(L, a) == 'half' and islin(L['vars'][a]['init']):
                    i = L['vars'][a]['init']
                    if i[1] == 0 and len(i[2]) == 1 and i[2][0][0][0] == 'shr' and const(i[2][0][0][2]) not in (None, 1): s.v(L['line'], 'the parent of the leaf is skipped')
                    cc = L['c']
                    if isinstance(cc, tuple) and cc and cc[0] == 'cmp' and cc[2] == A(a) and islin(cc[3]) and (cc[1], const(cc[3])) in (('>', 1), ('!=', 1), ('>=', 2)): s.v(L['line'], 'the operations pending on the root are not applied')

    def descend(s, evs, done):
        """a child of a node reached by going down is read only after the node was pushed"""
        done = list(done)
        for e in evs:
            if e[0] == 'reset': done.append(e[1])
            elif e[0] == 'rec': done.append('all')
            elif e[0] == 'map' and isinstance(e[2], tuple) and e[2] and e[2][0] == 'lazy' and e[1] in (mul(e[2][1], 2), add(mul(e[2][1], 2), C(1))): done.append(('child', e[1]))
            elif e[0] == 'alt': s.descend(e[2], done); s.descend(e[3], done)
            elif e[0] == 'loop':
                for p, _ in e[1]['paths']: s.descend(p, [])
            elif e[0] == 'rd' and islin(e[1]) and len(e[1][2]) == 1 and e[1][2][0][1] == 2 and e[1][1] in (0, 1):
                s.res.count('children read while going down')
                if A(e[1][2][0][0]) not in done and ('child', e[1]) not in done and 'all' not in done: s.v(e[2], 'the child of a node is read before what is pending on the node was pushed')


def flat(c):
    if isinstance(c, tuple) and c:
        if c[0] == '&&': yield from flat(c[1]); yield from flat(c[2])
        elif c[0] == 'cmp': yield c


def check(res, d):
    T = d['types']; byid = d['_rec']
    def ty(decl): return T[decl['t']].get('s', '') if decl and 't' in decl else ''
    fields = collections.defaultdict(dict)
    for f in d['funcs']:
        if f.get('cls') is None: continue
        for x in walk({'k': 'x', 'q': [f.get('body')] + [i.get('e') for i in f.get('inits') or []]} if isinstance(f.get('body'), dict) else {}):
            if x.get('k') == 'mem' and x.get('dk') == 'field' and 't' in x:
                s = T[x['t']].get('s', '').replace('const ', '')
                if s.startswith('std::vector<wit::'): fields[f['cls']].setdefault(x['n'], s)
    for r in d['records']:
        own = dict(fields.get(r['id'], {}))
        for i in [T[b].get('rec') for b in r.get('bases') or []]:
            own.update(fields.get(i, {}))
        lazy = [n for n, s in own.items() if s.startswith('std::vector<wit::F,')]; data = [n for n, s in own.items() if s.startswith(('std::vector<wit::S,', 'std::vector<wit::SB,'))]
        if len(lazy) != 1 or len(data) != 1: continue
        fam = {r['id']} | {T[b].get('rec') for b in r.get('bases') or []}
        fs = [f for f in d['funcs'] if f.get('cls') in fam and isinstance(f.get('body'), dict)]
        if not fs: continue
        m = lg = None
        for f in fs:
            for i in f.get('inits') or []:
                e = strip(i.get('e'))
                if i.get('n') == lazy[0] and isinstance(e, dict) and e.get('a'):
                    a = strip(e['a'][0])
                    while isinstance(a, dict) and a.get('k') == 'cast': a = strip(a['e'])
                    if isinstance(a, dict) and a.get('k') == 'mem': m = a['n']
                if isinstance(e, dict) and e.get('k') == 'call' and e.get('n') == '__builtin_ctz': lg = i.get('n')
        if m is None: continue
        traces = []; 
        for f in fs:
            ctor = f['n'] == r['n'] or f.get('ctor') or f['n'] in [byid[i]['n'] for i in fam if i in byid]
            t = Trace(d, r, data[0], lazy[0], fam)
            env = {p['id']: (A(('p', p['n'])) if T[p['t']].get('int') or T[p['t']].get('s') in ('int', 'const int') else ('?', p['n'])) for p in f['p']}
            st = {'env': env, 'ev': [], 'facts': [], 'ret': None, 'done': False}
            try: out = t.block(f['body']['s'], [st])
            except Stop: res.count('methods not expressible as a trace'); continue
            traces.append((f, t, out, ctor))
        allev = [e for f, t, out, c in traces for s in out for e in events(s['ev'])]
        full = any(e[0] == 'upd' for e in allev); pushes = any(e[0] == 'reset' for e in allev)
        for f, t, out, ctor in traces:
            res.count('methods of array-based lazy trees')
            R = Rules(res, d, f, t, full, m, lg, ctor)
            for s in out:
                check_seq(R, s['ev'], []); delivered(R, s['ev'])
                # constructors: products are computed from the leaves up
                if ctor and full:
                    for e in s['ev']:
                        if e[0] == 'loop':
                            for p, _ in e[1]['paths']:
                                for x in events(p):
                                    if x[0] == 'upd' and islin(x[1]) and len(x[1][2]) == 1 and x[1][2][0][0] in e[1]['vars']:
                                        st = inlen(e[1], x[1][2][0][0])
                                        if st == 1: R.v(x[2], 'products are built from the root downwards')
            if f.get('acc') == 'public' and not ctor and pushes and (f['cls'] == r['id'] or not any(g['cls'] == r['id'] and g['n'] == f['n'] for g in fs)):
                for s in out: R.public(s)
