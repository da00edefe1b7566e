"""Argument guards. For every public operation the conditions that must hold on entry, or the program aborts before anything is touched, are computed from the source: the conjuncts of assert()s in the straight-line prefix of the body (locals replaced by what they were initialised with, one-line accessors inlined), plus the guards of every operation it calls unconditionally with those arguments substituted. They are compared, as a system of difference constraints (closed by shortest paths), with the ranges frozen in witness/guards.json, in both directions: a range that is no longer enforced, or is enforced more narrowly, is a violation. A guard that constrains the object's own fields only, against its declared range, is a violation too."""
import json, re
import extract as X
from flow import walk, strip, lit, kids, assert_cond
TECHNIQUE = 'symbolic prefix analysis of entry guards with interprocedural import, compared as difference constraints with frozen ranges'
OUT = X.VERIF + '/witness/guards.json'


class Fn:
    """guard computation for one function"""
    def __init__(s, A, fn, d): s.A = A; s.fn = fn; s.d = d; s.T = d['types']; s.par = {p['id']: i for i, p in enumerate(fn['p'])}; s.env = {}
    # ---- canonical expressions
    def uns(s, e):
        t = s.T[e['t']] if isinstance(e, dict) and 't' in e else {}
        return bool(t.get('uns'))
    def lin(s, e):
        """linear form {atom: coef} with '' for the constant"""
        e = strip(e)
        if not isinstance(e, dict): return {str(e): 1}
        v = lit(e)
        if v is not None and not isinstance(v, bool): return {'': v}
        k = e.get('k')
        if k == 'cast' and s.intlike(e): return s.lin(e['e'])
        if k in ('ctor', 'init', 'x', 'pinit') and s.intlike(e):
            a = e.get('a') if isinstance(e.get('a'), list) else ([e['e']] if e.get('e') is not None else [])
            if len(a) == 1: return s.lin(a[0])
        if k == 'bin' and e['op'] in ('+', '-'):
            a, b = s.lin(e['a']), s.lin(e['b']); sg = 1 if e['op'] == '+' else -1
            r = dict(a)
            for x, c in b.items(): r[x] = r.get(x, 0) + sg * c
            return {x: c for x, c in r.items() if c or x == ''}
        if k == 'un' and e['op'] == '-': return {x: -c for x, c in s.lin(e['e']).items()}
        if k == 'un' and e['op'] == '+': return s.lin(e['e'])
        if k == 'ref':
            d = e.get('d')
            if d in s.par: return {'p%d' % s.par[d]: 1}
            if d in s.env and s.env[d] is not None: return s.lin(s.env[d]) if not isinstance(s.env[d], tuple) else s.env[d][1]
        return s.inl(e) or {s.can(e): 1}
    def inl(s, e):
        """linear form of a call to a one-line accessor of the same object"""
        e = strip(e)
        if not isinstance(e, dict) or e.get('k') != 'call' or e.get('a'): return None
        t = s.A.callee(s, e)
        if len(t) != 1: return None
        g = t[0]; b = g['body'].get('s') or []
        if len(b) != 1 or b[0].get('k') != 'ret' or b[0].get('e') is None: return None
        o = s.obj(e)
        if o not in (None, 'this'): return None
        if g['id'] in s.A.inlining: return None
        s.A.inlining.add(g['id'])
        try: return Fn(s.A, g, s.d).lin(b[0]['e'])
        finally: s.A.inlining.discard(g['id'])
    def intlike(s, e):
        t = s.T[e['t']] if 't' in e else {}
        return bool(t.get('int') or t.get('bool')) or t.get('s') in ('size_t', 'std::size_t') or bool(re.match(r'^type-parameter', t.get('s', '')))
    def obj(s, e):
        """receiver of a call: None when free or implicit"""
        o = e.get('o')
        if o is None and isinstance(strip(e.get('fe')), dict):
            fe = strip(e['fe'])
            if fe.get('k') == 'un' and fe['op'] == '*' and strip(fe['e']).get('k') == 'this': return 'this'
            o = fe.get('b')
        if o is None: return None
        o = strip(o)
        if o.get('k') == 'this' or (o.get('k') == 'un' and o['op'] == '*' and strip(o['e']).get('k') == 'this'): return 'this'
        return s.can(o)
    def can(s, e):
        e = strip(e)
        if not isinstance(e, dict): return repr(e)
        k = e.get('k'); v = lit(e)
        if v is not None: return str(int(v))
        if k == 'this': return 'this'
        if k == 'ref':
            d = e.get('d')
            if d in s.par: return 'p%d' % s.par[d]
            if d in s.env and s.env[d] is not None: return s.can(s.env[d]) if not isinstance(s.env[d], tuple) else s.env[d][2]
            return e.get('n') if e.get('dk') not in ('var', 'bind', 'parm') else 'local'
        if k == 'mem':
            b = strip(e['b']) if e.get('b') is not None else {'k': 'this'}
            f = s.A.fidx.get(e.get('d'))
            n = f if f else e.get('n')
            return n if b.get('k') == 'this' else s.can(b) + '.' + str(n)
        if k == 'cast': return s.can(e['e'])
        if k in ('bin',) and e['op'] in ('+', '-'):
            l = s.lin(e); return '(' + '+'.join('%d*%s' % (c, x) for x, c in sorted(l.items())) + ')'
        if k == 'call':
            i = s.inl(e)
            if i: return '(' + '+'.join('%d*%s' % (c, x) for x, c in sorted(i.items())) + ')'
            n = e.get('n') or e.get('opc') or (strip(e.get('fe')) or {}).get('n')
            if n in ('move', 'forward') and len(e.get('a') or []) == 1: return s.can(e['a'][0])
            o = s.obj(e); a = [s.can(x) for x in e.get('a') or []]
            if o == 'this': o = None
            return '%s%s(%s)' % (o + '.' if o else '', n, ','.join(a))
        if k == 'ctor' and e.get('cp') and len(e.get('a') or []) == 1: return s.can(e['a'][0])
        if k == 'lambda': return 'lambda'
        r = [k, e.get('op', '')]
        for f in ('a', 'b', 'e', 'c', 'i'):
            x = e.get(f)
            if isinstance(x, dict): r.append(s.can(x))
            elif isinstance(x, list): r += [s.can(y) for y in x]
        return '<' + ' '.join(r) + '>'
    # ---- conditions -> constraints: ('le', frozenset of (atom, coef)) meaning sum <= 0, or ('op', text)
    def cons(s, e, out, pos=True):
        e = strip(e)
        if not isinstance(e, dict): return
        k = e.get('k'); op = e.get('op')
        if k == 'cast' and not s.T[e['t']].get('uns'): return s.cons(e['e'], out, pos)
        if k == 'un' and op in ('!', 'not'): return s.cons(e['e'], out, not pos)
        if k == 'bin' and (op in ('&&', 'and') and pos or op in ('||', 'or') and not pos): s.cons(e['a'], out, pos); s.cons(e['b'], out, pos); return
        if k == 'call' and not e.get('opc') and s.predicate(e, out, pos): return
        neg = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
        if k == 'call' and e.get('opc') in neg and (s.plain(e)):
            a, b = (e['a'] if len(e['a']) == 2 else [e['o'], e['a'][0]])
            e = {'k': 'bin', 'op': e['opc'], 'a': a, 'b': b}; k = 'bin'; op = e['op']
        if k == 'bin' and op in neg:
            o = op if pos else neg[op]
            a, b = s.lin(e['a']), s.lin(e['b'])
            if o in ('<', '<=', '==') and s.unscast(e['a']): out.append(s.le({x: -c for x, c in a.items()}, {}))
            if o in ('>', '>=', '==') and s.unscast(e['b']): out.append(s.le({x: -c for x, c in b.items()}, {}))
            if o == '<': out.append(s.le(a, b, 1))
            elif o == '<=': out.append(s.le(a, b))
            elif o == '>': out.append(s.le(b, a, 1))
            elif o == '>=': out.append(s.le(b, a))
            elif o == '==': out.append(s.le(a, b)); out.append(s.le(b, a))
            else: out.append(('op', '!=' + '|'.join(sorted([s.txt(a), s.txt(b)]))))
            return
        t = s.T[e['t']] if 't' in e else {}
        if (t.get('int') or False) and not t.get('bool') and pos and (s.uns(e) or k == 'call' and (e.get('n') == 'size')):
            out.append(s.le({'': 1}, s.lin(e))); return
        out.append(('op', ('' if pos else '!') + s.can(e)))
    def predicate(s, e, out, pos):
        """a call to a function that only decides a condition: what it asks of the arguments"""
        ts = s.A.callee(s, e)
        if len(ts) != 1 or s.obj(e) not in (None, 'this') or ts[0]['id'] in s.A.inlining: return False
        g = ts[0]; b = g['body'].get('s') or []
        if not b or b[-1].get('k') != 'ret' or b[-1].get('e') is None: return False
        f = Fn(s.A, g, s.d); sub = []; s.A.inlining.add(g['id'])
        try:
            for st in b[:-1]:
                if st.get('k') == 'decl' and all(v.get('e') is not None and not v.get('binds') for v in st['v']):
                    for v in st['v']: f.env[v['id']] = v['e']
                    continue
                r = st.get('a') if st.get('k') == 'if' and st.get('b') is None else None
                if isinstance(r, dict) and r.get('k') == 'block' and len(r['s']) == 1: r = r['s'][0]
                if not isinstance(r, dict) or r.get('k') != 'ret' or not isinstance(lit(r.get('e')), bool) or lit(r['e']) == pos: return False
                f.cons(st['c'], sub, False)
            t = s.T[strip(b[-1]['e'])['t']] if 't' in strip(b[-1]['e']) else {}
            if lit(b[-1]['e']) is not None and lit(b[-1]['e']) == pos: pass
            elif len(b) > 1 or t.get('bool'): f.cons(b[-1]['e'], sub, pos)
            else: return False
        finally: s.A.inlining.discard(g['id'])
        a = e.get('a') or []
        m = {'p%d' % i: s.lin(y) for i, y in enumerate(a)}; mt = {'p%d' % i: s.can(y) for i, y in enumerate(a)}
        for c in sub:
            c = s.subst(c, m, mt, None, g)
            if c is not None: out.append(c)
        return True
    def plain(s, e): return True
    def unscast(s, e):
        """the operand is a signed value converted to unsigned"""
        if not isinstance(e, dict): return False
        x = e
        while isinstance(x, dict) and x.get('k') in ('paren',): x = x['e']
        if not isinstance(x, dict) or x.get('k') != 'cast' or not s.uns(x): return False
        y = strip(x['e'])
        return isinstance(y, dict) and 't' in y and s.T[y['t']].get('int') and not s.uns(y) and lit(y) is None
    def txt(s, l): return '+'.join('%d*%s' % (c, x) for x, c in sorted(l.items()) if c)
    def le(s, a, b, k=0):
        r = dict(a)
        for x, c in b.items(): r[x] = r.get(x, 0) - c
        r[''] = r.get('', 0) + k
        return ('le', frozenset((x, c) for x, c in r.items() if c or x == ''))
    # ---- prefix
    def guards(s):
        out = []; s.exits = []
        for i, p in enumerate(s.fn['p']):
            if s.T[p['t']].get('uns') or re.match(r'(const )?unsigned( char| short| int| long| long long)?$', s.T[p['t']]['s']): out.append(('le', frozenset({('p%d' % i, -1), ('', 0)})))
        if s.fn.get('ctor'):
            for i in s.fn.get('inits') or []:
                if i.get('e') is not None and (i.get('deleg') or 'base' in i): s.imports(i['e'], out)
        s.block(s.fn['body'], out)
        if s.A.uncond:
            # only what is checked on every way through: a condition after an early return counts when the returning inputs meet it anyway
            keep = out[:]
            for i, q in s.exits: keep = [c for j, c in enumerate(out) if c in keep and (j < i or q is None or entails(q, c))]
            out = keep
        return set(out)
    def block(s, b, out):
        for st in b.get('s') or []:
            k = st.get('k')
            if k == 'block':
                if not s.block(st, out): return False
                continue
            if k == 'decl':
                for v in st['v']:
                    if v.get('e') is not None:
                        s.imports(v['e'], out)
                        if not v.get('binds'): s.env[v['id']] = v['e'] if s.stable(v['e']) else None
                if s.touches(st): return False
                continue
            if k == 'expr':
                c = assert_cond(st['e'])
                if c is not None: s.cons(c, out); continue
                s.imports(st['e'], out)
                if s.touches(st): return False
                continue
            if k == 'ret':
                if st.get('e') is not None: s.imports(st['e'], out)
                return False
            if k == 'if':
                if st.get('cx') or s.touches(st): return False
                # an early exit: what follows guards the remaining inputs
                if st.get('c') is not None: s.imports(st['c'], out)
                for br, pos in ((st.get('a'), True), (st.get('b'), False)):
                    if st.get('c') is not None and isinstance(br, dict) and any(x.get('k') == 'ret' for x in walk(br)):
                        q = []; s.cons(st['c'], q, pos); s.exits.append((len(out), q if conj(st['c'], pos) else None))
                continue
            if s.touches(st): return False
        return True
    def stable(s, e): return not any(x.get('k') in ('lambda',) for x in walk(e))
    def touches(s, st):
        chk = {id(y) for x in walk(st) if x.get('k') == 'cond' and assert_cond(x) is not None for y in walk(x)}
        for x in walk(st):
            k = x.get('k')
            if id(x) in chk: continue
            if k == 'idx' or (k == 'call' and x.get('opc') == '[]'): return True
            if k in ('delete', 'new'): return True
            tgt = None
            if k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='): tgt = x['a']
            elif k == 'un' and x['op'].startswith(('++', '--')): tgt = x['e']
            elif k == 'call' and x.get('opc', '').endswith('=') and x['opc'] not in ('==', '!=', '<=', '>='): tgt = x.get('o') or (x['a'][0] if x.get('a') else None)
            if tgt is not None:
                t = strip(tgt)
                while isinstance(t, dict) and t.get('k') == 'mem' and not t.get('ar') and t.get('b') is not None: t = strip(t['b'])
                if isinstance(t, dict) and t.get('k') == 'ref':
                    d = t.get('d')
                    if d in s.par or d in s.env: s.env[d] = ('x', {'changed%s' % d: 1}, 'changed'); s.par.pop(d, None)
                    continue
                return True
            if k == 'call' and not x.get('opc') and not s.A.pure(s, x): return True
        return False
    def imports(s, e, out):
        """guards of unconditional calls in e"""
        st = [e]
        while st:
            x = strip(st.pop())
            if not isinstance(x, dict): continue
            k = x.get('k')
            if k == 'lambda': continue
            if k == 'cond': st.append(x['c']); continue
            if k == 'bin' and x['op'] in ('&&', '||', 'and', 'or'): st.append(x['a']); continue
            if k in ('call', 'ctor') and assert_cond(x) is None: s.importcall(x, out)
            st.extend(kids(x))
    def importcall(s, x, out):
        o = s.obj(x) if x.get('k') == 'call' else None
        if x.get('k') == 'ctor' and x.get('cp'): return
        ts = s.A.callee(s, x)
        if not ts: return
        a = x.get('a') or []
        sets = []
        for t in ts:
            m = {'p%d' % i: s.lin(y) for i, y in enumerate(a)}; mt = {'p%d' % i: s.can(y) for i, y in enumerate(a)}
            r = set()
            for c0 in s.A.guards(t):
                c = s.subst(c0, m, mt, o, t)
                if c is not None and not (trivial(c0) and any(re.match(r'p\d', x) for x, k in c[1]) and not (len(c[1]) == 2 and not dict(c[1]).get('', 0))): r.add(c)
            for i, y in enumerate(a):
                # a signed argument converted to an unsigned parameter
                pass
            sets.append(r)
        r = sets[0]
        for y in sets[1:]: r = r & y
        out += sorted(r, key=repr)
    def subst(s, c, m, mt, o, t):
        mem = t.get('cls') is not None
        def atom(x):
            """rewrite an atom of the callee"""
            if x == '': return {'': 1}
            if x in m: return m[x]
            if 'changed' in x: return None
            y = re.sub(r'\bp(\d+)\b', lambda g: mt.get('p' + g.group(1), '?'), x)
            if '?' in y: return None
            if o not in (None, 'this') and mem and x not in m: y = '{%s}%s' % (o, y)
            return {y: 1}
        if c[0] == 'op':
            r = atom(c[1])
            return ('op', list(r)[0]) if r else None
        tot = {'': 0}
        for x, k in c[1]:
            if x == '': tot[''] += k; continue
            r = atom(x)
            if r is None: return None
            for y, q in r.items(): tot[y] = tot.get(y, 0) + q * k
        return ('le', frozenset((x, k) for x, k in tot.items() if k or x == ''))


class A:
    """one header's functions"""
    def __init__(s, d):
        s.d = d; s.uncond = False; s.memo = {}; s.inlining = set(); s.busy = set()
        s.byname = {}
        for f in d['funcs']:
            if isinstance(f.get('body'), dict) and not f.get('lam'): s.byname.setdefault((f.get('cls'), f['n']), []).append(f)
        s.fid = {f['id']: f for f in d['funcs']}
        s.recs = {r['id']: r for r in d['records']}
        s.fidx = {}
        for r in d['records']:
            for x in r.get('fields') or []: s.fidx[x['id']] = 'F%d' % x['i']
        s.names = {}
        for f in d['funcs']:
            if isinstance(f.get('body'), dict) and not f.get('lam'): s.names.setdefault(f['n'], []).append(f)
    def callee(s, fn, e):
        t = s.fid.get(e.get('f'))
        if t: return [t] if isinstance(t.get('body'), dict) and not t.get('lam') else []
        if e.get('k') == 'ctor': return []
        fe = strip(e.get('fe')) or {}
        n = e.get('n') or fe.get('n')
        if fe.get('k') == 'un' and fe['op'] == '*' and strip(fe['e']).get('k') == 'this':
            na = len(e.get('a') or [])
            return [f for f in s.byname.get((fn.fn.get('cls'), 'operator()'), []) if len([p for p in f['p'] if not p.get('def')]) <= na <= len(f['p'])]
        if not n or fe.get('k') not in ('ref', 'mem') or fe.get('dk') in ('parm', 'var', 'bind', 'field'): return []
        na = len(e.get('a') or [])
        ok = lambda f: len([p for p in f['p'] if not p.get('def')]) <= na <= len(f['p'])
        o = fn.obj(e)
        if o in (None, 'this'):
            r = [f for f in s.byname.get((fn.fn.get('cls'), n), []) if ok(f)]
            if r: return r
            if o is None and fe.get('k') == 'ref':
                r = [f for f in s.byname.get((None, n), []) if ok(f)]
                if r: return r
                q = fe.get('qn', '')
                r = [f for f in s.names.get(n, []) if ok(f) and f.get('cls') is not None]
                return r if len({f.get('cls') for f in r}) == 1 else []
        return []
    def pure(s, fn, e):
        """a call that cannot change what later guards read"""
        n = e.get('n') or (strip(e.get('fe')) or {}).get('n')
        if n in ('size', 'empty', 'move', 'forward', 'min', 'max', 'begin', 'end', 'abs', 'find', 'lower_bound', 'upper_bound', 'is_sorted', 'get', 'swap', '__builtin_clz', '__builtin_ctz', '__assert_fail', 'floor_log2', 'length', 'find_if', 'count'): return True
        for t in s.callee(fn, e) or [None]:
            if t is None: return False
            if not t.get('const') and not t.get('static') and not s.guardonly(t): return False
        return True
    def guardonly(s, t):
        """only checks: no loads, no stores"""
        for st in walk(t['body']):
            k = st.get('k')
            if k == 'idx' or (k == 'call' and st.get('opc') in ('[]', '=')): return False
            if k == 'bin' and st['op'].endswith('=') and st['op'] not in ('==', '!=', '<=', '>='): return False
            if k == 'un' and st['op'].startswith(('++', '--')): return False
            if k in ('for', 'while', 'do', 'rfor', 'delete', 'new'): return False
        return True
    def leaves(s, t, stop, seen=None):
        """kinds of every asserted condition in t and in the helpers it reaches (functions named in stop are operations of their own)"""
        seen = set() if seen is None else seen
        if t['id'] in seen: return {}
        seen.add(t['id']); fn = Fn(s, t, s.d); r = {}
        rd = {}
        for x in walk(t['body']):
            if x.get('k') == 'decl':
                for v in x['v']:
                    if v.get('e') is not None and not v.get('binds') and fn.stable(v['e']): fn.env[v['id']] = v['e']
            tg = strip(x['a']) if x.get('k') == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') else strip(x['e']) if x.get('k') == 'un' and x['op'].startswith(('++', '--')) else None
            if isinstance(tg, dict) and tg.get('k') == 'ref': rd[tg.get('d')] = 1
        for d in rd: fn.env.pop(d, None)
        for x in walk(t['body']):
            c = assert_cond(x) if x.get('k') == 'cond' else None
            if c is not None and lit(c) is None:
                out = []; fn.cons(c, out); eq = 0
                for q in out:
                    k = 'cond' if q[0] == 'op' else 'le%d' % max(-3, min(3, dict(q[1]).get('', 0)))
                    if q[0] == 'op' and q[1].startswith('!='): k = 'ne'
                    r[k] = r.get(k, 0) + 1
                    if q[0] == 'le' and len([x for x, n in q[1] if x]) >= 3: r['sum'] = r.get('sum', 0) + 1
                continue
            if x.get('k') in ('call', 'ctor'):
                for g in s.callee(fn, x):
                    if g['q'] in stop or g['id'] in seen: continue
                    for k, n in s.leaves(g, stop, seen).items(): r[k] = r.get(k, 0) + n
        return r
    def guards(s, t):
        if t['id'] in s.busy: return set()
        k = (t['id'], s.uncond)
        if k not in s.memo:
            s.busy.add(t['id'])
            try: s.memo[k] = Fn(s, t, s.d).guards()
            finally: s.busy.discard(t['id'])
        return s.memo[k]
    def uguards(s, t):
        s.uncond = True
        try: return s.guards(t)
        finally: s.uncond = False


def conj(e, pos):
    """the condition (or its negation) is a plain conjunction of comparisons"""
    e = strip(e)
    if not isinstance(e, dict): return False
    if e.get('k') == 'un' and e['op'] in ('!', 'not'): return conj(e['e'], not pos)
    if e.get('k') == 'bin' and e['op'] in ('&&', '||', 'and', 'or'):
        return (e['op'] in ('&&', 'and')) == pos and conj(e['a'], pos) and conj(e['b'], pos)
    if e.get('k') == 'bin' and e['op'] in ('==', '!='): return (e['op'] == '==') == pos
    return e.get('k') == 'bin' and e['op'] in ('<', '<=', '>', '>=')


def entails(q, c):
    if c[0] == 'op': return True        # not decided
    at = {x for k in list(q) + [c] if k[0] == 'le' for x, n in k[1] if x}
    if any('changed' in x or 'local' in x for x in at): return True
    nn = [('le', frozenset({(x, -1), ('', 0)})) for x in at if not re.match(r'p\d+$', x)]
    D, o = closure(list(q) + nn)
    k = dict(c[1]).get('', 0); ps = [x for x, n in c[1] if x and n == 1]; ns = [x for x, n in c[1] if x and n == -1]
    if len(ps) > 1 or len(ns) > 1 or len(ps) + len(ns) != len([x for x, n in c[1] if x]): return True
    a, b = ps[0] if ps else '0', ns[0] if ns else '0'
    return a == b or D.get((a, b), 10**40) <= -k


def closure(cs):
    """difference-bound matrix; returns {(x, y): c} meaning x - y <= c, opaque set"""
    D = {}; op = set()
    for c in cs:
        if c[0] == 'op': op.add(c[1]); continue
        k = dict(c[1]).get('', 0); v = [(x, q) for x, q in c[1] if x != '']
        ps = [x for x, q in v if q == 1]; ns = [x for x, q in v if q == -1]
        if len(v) == len(ps) + len(ns) and len(ps) <= 1 and len(ns) <= 1 and v:
            key = (ps[0] if ps else '0', ns[0] if ns else '0'); D[key] = min(D.get(key, 10**40), -k)
        elif v: op.add(repr(sorted(c[1])))
        elif k > 0: op.add('false')
    ns = {x for k in D for x in k}
    for m in ns:
        for a in ns:
            if (a, m) not in D: continue
            for b in ns:
                if (m, b) in D and a != b:
                    w = D[(a, m)] + D[(m, b)]
                    if w < D.get((a, b), 10**40): D[(a, b)] = w
    return D, op


PUB = X.VERIF + '/witness/guard_ops.json'


NAMES = {'size'}


def compute(stop=()):
    """{function key: (set of constraints, location, q)} for every public operation of every header"""
    r = {}
    for h, j in sorted(X.run_headers().items()):
        d = X.load(j); a = None; NAMES.update(f['n'] for f in d['funcs'])
        for fn in d['funcs']:
            f = X.rel(d['files'][fn['loc'][0]])
            if f != h or not isinstance(fn.get('body'), dict) or fn.get('lam') or fn.get('inst') or fn.get('imp'): continue
            if fn.get('acc') in ('private', 'protected') or '(anonymous' in fn['q']: continue
            a = a or A(d)
            g = a.guards(fn)
            ty = ','.join(re.sub(r'\bconst\b|[&\s]', '', d['types'][p['t']]['s']) for p in fn['p'])
            key = '%s:%s(%s)' % (h, fn['q'], ty)
            rc = a.recs.get(fn.get('cls')) or {}
            nm = {'F%d' % x['i']: x['n'] for x in rc.get('fields') or [] if x.get('n')}
            r.setdefault(key, []).append((g, '%s:%d' % (f, fn['loc'][1]), fn['q'], len(fn['p']), nm, a.leaves(fn, stop), a.uguards(fn)))
    return r


def enc(g): return sorted([['le', sorted(map(list, c[1]))] if c[0] == 'le' else ['op', c[1]] for c in g], key=repr)
def dec(g): return {('le', frozenset((x, k) for x, k in c[1])) if c[0] == 'le' else ('op', c[1]) for c in g}


def trivial(c):
    return c[0] == 'le' and len([x for x, k in c[1] if x]) == 1 and all(re.match(r'p\d+$', x) and k == -1 for x, k in c[1] if x) and dict(c[1]).get('', 0) == 0


def show(k, w):
    a, b = k
    f = lambda x: re.sub(r'\bp(\d+)\b', lambda m: 'arg%s' % m.group(1), x)
    return '%s <= %s%s' % (f(a), f(b), ('%+d' % w) if w else '')


def run(res, tier):
    fz = json.load(open(OUT)); cur = compute(set(json.load(open(PUB))))
    byq = {}
    for k, v in cur.items():
        for x in v: byq.setdefault((k.split(':')[0], x[2], x[3]), []).append(x)
    res.count('public operations analysed', sum(len(v) for v in cur.values()))
    for key, gs in sorted(fz.items()):
        res.count('guarded operations')
        now = cur.get(key)
        if now is None:
            h, q, n = key.split(':')[0], gs[0]['q'], gs[0]['n']
            now = byq.get((h, q, n), [])
            if not now: res.count('guarded operations no longer present'); continue
        for i, z in enumerate(gs):
            if i >= len(now): break
            g, where, q, n, nm, lv, ug = now[i]
            D0, o0 = closure(remap(dec(z['g']), z.get('f') or {}, nm)); D1, o1 = closure(g); D0 = renamed(D0, D1)
            res.count('range constraints compared', len(z['g']))
            ty = key[key.rindex('(') + 1:-1].split(',')
            if len(ty) == n:
                # a parameter declared unsigned has no negative values: where it became signed the check has to say so
                for i2, y in enumerate(ty):
                    if re.match(r'unsigned(char|short|int|long)?', y) and any(a == 'p%d' % i2 for a, b in D0): D0.setdefault(('0', 'p%d' % i2), 0)
            U0 = closure(remap(dec(z['g']) - dec(z.get('c') or []), z.get('f') or {}, nm))[0]; U1 = closure(ug)[0]; U0 = renamed(U0, U1)
            for k, w in sorted(U0.items()):
                if k[0] != k[1] and not fact(k, w) and D1.get(k, 10**40) <= w < U1.get(k, 10**40):
                    res.violation('skip:%s:%s' % (key, show(k, w)), where, 'an early return in front of the check lets arguments outside the declared range pass: %s is not enforced for them' % show(k, w), q)
            bad = 0
            for k, w in sorted(D0.items()):
                if k[0] == k[1] or fact(k, w): continue
                if D1.get(k, 10**40) > w:
                    if any(re.search(r'\b%s\b' % re.escape(x), o) for o in o1 - o0 for x in k if re.match(r'p\d+$', x)): res.count('rewritten non-linear guards'); continue
                    res.violation('weak:%s:%s' % (key, show(k, w)), where, 'an argument outside the declared range is no longer rejected on entry: %s is not enforced' % show(k, w), q)
            for k, w in sorted(D1.items()):
                if k[0] == k[1]: continue
                if k in D0 and D0[k] > w: res.violation('strong:%s:%s' % (key, show(k, w)), where, 'arguments inside the declared range are rejected: %s is required (declared %s)' % (show(k, w), show(k, D0[k])), q)
                elif k not in D0 and not any(re.search(r'\bp\d', x) for x in k) and D0 and w < 0 and '0' not in k: res.violation('self:%s:%s' % (key, show(k, w)), where, 'the operation rejects its own object: %s is required' % show(k, w), q)
                elif k not in D0 and z['g'] and newarg(k, D0, D1, w): res.violation('strong:%s:%s' % (key, show(k, w)), where, 'arguments inside the declared range are rejected: %s is required' % show(k, w), q)
            for x, c in sorted((z.get('in') or {}).items()):
                res.count('checked conditions inside bodies', c)
                if lv.get(x, 0) < c and not bad: res.violation('inner:%s:%s' % (key, x), where, 'a condition this operation used to check is no longer checked: %d %s, %d before' % (lv.get(x, 0), {'cond': 'boolean conditions', 'ne': 'inequations', 'sum': 'comparisons with a sum'}.get(x, 'comparisons with offset ' + x[2:]), c), q)
            for x in sorted(o0 - o1):
                if o1 - o0: 
                    # rewritten condition: only its presence can be compared
                    res.count('rewritten non-linear guards'); continue
                res.violation('gone:%s:%s' % (key, x), where, 'a declared precondition is no longer checked on entry: %s' % x, q)
    res.floor('guarded operations', 200); res.floor('range constraints compared', 300)


ATOM = re.compile(r'^(0|[A-Z]\w*|p\d+(\.F\d+)?|F\d+|(\w+|p\d+|F\d+|p\d+\.F\d+)(\.\w+)?\(((p|F)\d+(,(p|F)\d+)*)?\))$')


def clean(c):
    if c[0] == 'op': return bool(re.match(r'^!?[\w.()=!|*]+$', c[1])) and 'local' not in c[1] and 'changed' not in c[1] and 'lambda' not in c[1]
    return all(x == '' or ATOM.match(x) for x, k in c[1]) and not any('changed' in x or 'local' in x for x, k in c[1])


def remap(g, old, new):
    """rewrite the frozen field indices when a field of the same name moved"""
    inv = {n: i for i, n in new.items()}; m = {}
    for i, n in old.items():
        if n in inv and inv[n] != i and new.get(i) not in old.values() or (n in inv and inv[n] != i): m[i] = inv[n]
    if not m: return g
    def tr(x): return re.sub(r'(?<![\w.])F\d+\b', lambda q: m.get(q.group(0), q.group(0)), x)
    return {('op', tr(c[1])) if c[0] == 'op' else ('le', frozenset((tr(x), k) for x, k in c[1])) for c in g}


def renamed(D0, D1):
    """frozen size atoms name(args) that vanished while one new atom with the same arguments appeared: a renamed accessor"""
    a0 = {x for k in D0 for x in k}; a1 = {x for k in D1 for x in k}; m = {}
    for x in a0 - a1:
        g = re.match(r'^([\w.]*?)(\w+)\((.*)\)$', x)
        if not g or g.group(2) in NAMES: continue
        c = [y for y in a1 - a0 if re.match(r'^%s\w+\(%s\)$' % (re.escape(g.group(1)), re.escape(g.group(3))), y)]
        if len(c) == 1: m[x] = c[0]
    return {(m.get(a, a), m.get(b, b)): w for (a, b), w in D0.items()} if m else D0


def fact(k, w):
    """a size or an unsigned field of the object is never negative"""
    return k[0] == '0' and w >= 0 and not re.match(r'p\d', k[1])


def newarg(k, D0, D1, w):
    a, b = k
    ar = [x for x in k if re.match(r'p\d+$', x)]
    other = [x for x in k if not re.match(r'p\d+$', x)]
    if not ar or any('changed' in x or 'local' in x for x in k): return False
    # a bound on an argument that had a declared bound in the same direction against the same object
    return any((x[0] == a and a in ar) or (x[1] == b and b in ar) for x in D0) and bool(other) and other[0] != '0'
