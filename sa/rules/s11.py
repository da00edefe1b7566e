"""References never outlive what they refer to. Per function and lambda, a forward dataflow tracks every local reference, pointer, iterator and structured binding that points into a standard container (a member, static pool, parameter or local), and every value that was moved away. Growing, shrinking or replacing the container - directly, in a callee (transitive summaries of which members, pools and parameters a function may grow), or in a local lambda - makes what points into it stale; any later use on any path is a violation, and so is growing the container a range-for runs over. A function returning a reference, or a callable, must not refer to its own locals."""
import re
import extract as X
from flow import Flow, Exit, kids, walk, strip, lit, assert_cond, is_assert_fail
from rules.s07 import method, ser
TECHNIQUE = 'interprocedural invalidation dataflow (containers grown by each function) over every body of every header, with escape rules for returned references and callables'

VEC = re.compile(r'^(const )?(std::(__cxx11::)?)?(vector|basic_string)<')
DEQ = re.compile(r'^(const )?(std::)?deque<')
PQ = re.compile(r'^(const )?(std::)?priority_queue<')
ADP = re.compile(r'^(const )?(std::)?(stack|queue)<')
GROW = {'push_back', 'emplace_back', 'resize', 'reserve', 'insert', 'emplace', 'erase', 'clear', 'assign', 'shrink_to_fit', 'append', '+=', 'operator+='}
ELEM = {'[]', 'operator[]', 'at', 'front', 'back', 'top'}
ITER = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'data'}
SEARCH = {'lower_bound', 'upper_bound', 'find', 'find_if', 'max_element', 'min_element', 'partition_point', 'remove', 'remove_if', 'unique', 'next', 'prev', 'partition', 'stable_partition', 'search'}
SCALAR = re.compile(r'^(const )?(unsigned |signed |long |short )*(int|long|short|char|bool|float|double|u?int\d+_t|(std::)?size_t)( int)?$')
ITFN = {'find', 'lower_bound', 'upper_bound', 'begin', 'end', 'rbegin', 'cbegin', 'prev', 'next', 'insert', 'emplace_hint'}
REASSIGN = {'clear', 'assign', 'resize', 'reset', 'swap', 'emplace', 'push_back', 'emplace_back', '=', 'operator=', 'reserve', 'insert'}


class Hdr:
    def __init__(s, d):
        s.d = d; s.T = d['types']
        s.fid = {f['id']: f for f in d['funcs'] if isinstance(f.get('body'), dict)}
        s.by = {}
        for f in s.fid.values():
            if not f.get('lam') and not f.get('inst'): s.by.setdefault((f.get('cls'), f['n']), []).append(f)
        s.names = {}
        for f in s.fid.values():
            if not f.get('lam') and not f.get('inst'): s.names.setdefault(f['n'], []).append(f)
        s.memo = {}; s.rmemo = {}; s.res = {}; s.busy = set(); s.lamvar = {}; s.itvar = set()
        s.vty = {}
        for f in s.fid.values():
            for p in f['p']: s.vty[p['id']] = p['t']
            for x in walk(f['body']):
                if x.get('k') == 'decl':
                    for v in x['v']: s.note(v)
                if x.get('k') == 'rfor' and isinstance(x.get('v'), dict): s.note(x['v'])
                if x.get('k') == 'if' and isinstance(x.get('cv'), dict): s.note(x['cv'])
    def note(s, v):
        s.vty[v['id']] = v['t']
        e = strip(v.get('e'))
        if isinstance(e, dict) and e.get('k') == 'lambda': s.lamvar[v['id']] = e
        while isinstance(e, dict) and e.get('k') == 'ctor' and len(e.get('a') or []) == 1: e = strip(e['a'][0])
        if isinstance(e, dict) and e.get('k') == 'call' and (e.get('n') or (strip(e.get('fe')) or {}).get('n')) in ITFN or 'terator' in s.T[v['t']]['s']: s.itvar.add(v['id'])
    def ty(s, e):
        e = strip(e)
        if isinstance(e, dict) and e.get('k') == 'ref' and e.get('d') in s.vty: return s.T[s.vty[e['d']]]['s']
        if isinstance(e, dict) and e.get('k') == 'mem' and e.get('dk') == 'dep':
            ts = {s.T[f['t']]['s'] for r in s.d['records'] if r.get('lib') for f in r.get('fields') or [] if f['n'] == e.get('n')}
            if len(ts) == 1: return ts.pop()
        return s.T[e['t']]['s'] if isinstance(e, dict) and 't' in e else ''
    def kind(s, e):
        t = re.sub(r'\s*&+$', '', s.ty(e))
        for n, r in (('vec', VEC), ('deq', DEQ), ('pq', PQ), ('adp', ADP)):
            if r.match(t): return n
        return None
    def inline(s, e):
        t = re.sub(r'\s*&+$', '', s.ty(e))
        return bool(re.match(r'^(const )?(std::)?(array|pair|tuple)<', t)) or bool(re.search(r'\[\w*\]$', t))
    def handle(s, e):
        """a pointer, a pointer-like handle, or a type only known at instantiation"""
        t = s.ty(e)
        return not t or '*' in t or 'ptr' in t or 'pointer' in t or bool(re.match(r'^(const )?(typename |auto|[A-Z]\w*$)', t))
    def targets(s, fn, e):
        f = s.fid.get(e.get('f'))
        if f is not None: return [f]
        fe = strip(e.get('fe')) or {}
        n = fe.get('n'); na = len(e.get('a') or [])
        if not n or fe.get('dk') in ('parm', 'var', 'bind', 'field'): return []
        ok = lambda f: len([p for p in f['p'] if not p.get('def')]) <= na <= len(f['p'])
        r = [f for f in s.by.get((fn.get('cls'), n), []) if ok(f)]
        if r: return r
        if fe.get('k') == 'ref' or (fe.get('k') == 'mem' and strip(fe.get('b') or {}).get('k') == 'this'):
            r = [f for f in s.names.get(n, []) if ok(f) and f.get('cls') is not None]
            return r if len({f['q'] for f in r}) == 1 else []
        return []
    def inits(s, fn):
        """member initialisers in the order they run (bases, then members as declared)"""
        if not fn.get('inits'): return []
        order = {f['id']: k for r in s.d['records'] for k, f in enumerate(r.get('fields') or [])}
        return sorted(fn['inits'], key=lambda i: (0, 0) if 'm' not in i else (1, order.get(i['m'], 10 ** 6)))
    # ---- access paths
    def path(s, e, fn, depth=0):
        """tuple path of an lvalue, None when unknown. ('v',id) ('g',name) ('f',id) ('m',base,field) ('e',container,how)"""
        e = strip(e)
        if not isinstance(e, dict) or depth > 12: return None
        k = e.get('k')
        if k == 'ref':
            if e.get('dk') in ('var', 'parm', 'bind'): return ('v', e.get('d'))
            if e.get('dk') == 'gvar': return ('g', e.get('n'))
            return None
        if k == 'mem':
            if e.get('dk') == 'gvar': return ('g', e.get('n'))
            b = strip(e.get('b')) if e.get('b') is not None else {'k': 'this'}
            if e.get('dk') not in ('field', 'dep', None): return None
            if b.get('k') == 'this': return ('f', e.get('d') if e.get('d') is not None else e.get('n'))
            if b.get('k') == 'call' and b.get('opc') == '->' and strip(b.get('o') if b.get('o') is not None else (b.get('a') or [None])[0] or {}).get('d') in s.itvar:
                return ('m', ('*', ('v', strip(b.get('o') if b.get('o') is not None else b['a'][0])['d'])), e.get('n'))
            if b.get('k') == 'ref' and b.get('d') in s.itvar: return ('m', ('*', ('v', b['d'])), e.get('n'))
            if e.get('ar'): return None          # through a pointer
            p = s.path(b, fn, depth + 1)
            return ('m', p, e.get('n')) if p else None
        if k == 'idx': 
            p = s.path(e['a'], fn, depth + 1)
            if p and s.inline(e['a']): return ('m', p, '[]')
            return ('e', p, ser(strip(e.get('b') if e.get('b') is not None else e.get('i')))) if p else None
        if k == 'un' and e['op'] == '*':
            # *it
            x = strip(e['e'])
            if x.get('k') == 'ref' and x.get('dk') == 'var': return ('*', ('v', x['d']))
            m = method(x)
            if m and m[1] in ITER: 
                p = s.path(m[0], fn, depth + 1)
                return ('e', p, m[1]) if p else None
            return None
        if k == 'call' and e.get('opc') == '*':
            x = strip(e.get('o') if e.get('o') is not None else (e.get('a') or [None])[0])
            return ('*', ('v', x['d'])) if isinstance(x, dict) and x.get('k') == 'ref' and x.get('d') in s.itvar else None
        if k == 'call':
            m = method(e)
            if m and m[1] in ELEM and (m[1] in ('[]', 'operator[]', 'at') or not m[2]):
                p = s.path(m[0], fn, depth + 1)
                if p and s.inline(m[0]): return ('m', p, '[]')
                return ('e', p, ser(strip(m[2][0])) if m[2] else m[1]) if p else None
            if m and m[1] == 'emplace_back' and s.kind(m[0]) in ('vec', 'deq'):
                p = s.path(m[0], fn, depth + 1)
                return ('e', p, 'back') if p else None
            if e.get('opc') == '[]' and len(e.get('a') or []) == 2:
                p = s.path(e['a'][0], fn, depth + 1)
                if p and s.inline(e['a'][0]): return ('m', p, '[]')
                return ('e', p, ser(strip(e['a'][1]))) if p else None
            n = e.get('n') or (strip(e.get('fe')) or {}).get('n')
            if n in ('move', 'forward', 'get') and len(e.get('a') or []) == 1: return s.path(e['a'][0], fn, depth + 1)
            # an accessor returning a reference into a member or pool
            ts = s.targets(fn, e)
            if len(ts) == 1 and (not m or strip(m[0]).get('k') == 'this'):
                t = ts[0]; b = t['body'].get('s') or []
                if t['id'] != fn.get('id') and 'ret' in t and s.T[t['ret']].get('ref') and len(b) == 1 and b[0].get('k') == 'ret':
                    p = s.path(b[0].get('e'), t, depth + 3)
                    return s.anon(p) if p and root(p)[0] in 'gf' else None
        if k == 'cast': return s.path(e['e'], fn, depth + 1)
        return None
    def anon(s, p):
        if p[0] == 'e': return ('e', s.anon(p[1]) if p[1][0] in ('e', 'm') else p[1], '?')
        if p[0] == 'm': return ('m', s.anon(p[1]) if p[1][0] in ('e', 'm') else p[1], p[2])
        return p
    def retptr(s, fn, depth=0):
        """path into a member or pool that the pointer (or iterator) returned by fn points into; ('p', i) when it is parameter i"""
        if fn['id'] in s.rmemo: return s.rmemo[fn['id']]
        if depth > 4 or 'ret' not in fn or s.T[fn['ret']].get('ref'): return None
        s.rmemo[fn['id']] = None
        w = W(s, fn, lambda *a: None); par = {p['id']: i for i, p in enumerate(fn['p'])}
        src = {}
        for x in walk(fn['body']):
            if x.get('k') == 'decl':
                for v in x['v']:
                    if v.get('e') is not None: src.setdefault(v['id'], []).append(v['e'])
            if x.get('k') == 'bin' and x['op'] == '=' and strip(x['a']).get('k') == 'ref': src.setdefault(strip(x['a']).get('d'), []).append(x['b'])
        def of(e, seen=()):
            e = strip(e)
            if not isinstance(e, dict): return None
            if e.get('k') == 'ref' and e.get('d') not in seen:
                for y in src.get(e.get('d'), []):
                    r = of(y, seen + (e['d'],))
                    if r is not None: return r
                return ('p', par[e['d']]) if e.get('d') in par else None
            if e.get('k') == 'cond': 
                a = of(e['a'], seen)
                return a if a is not None else of(e['b'], seen)
            p = w.ptrpath(e, depth + 1)
            return s.anon(p) if p is not None and root(p)[0] in 'gf' else None
        r = None
        for x in walk(fn['body']):
            if x.get('k') == 'ret' and x.get('e') is not None:
                q = of(x['e'])
                if q is not None and (r is None or r[0] == 'p'): r = q
        s.rmemo[fn['id']] = r
        return r
    # ---- what a function may grow: set of (kind, path) with parameters as ('p', i)
    def grows(s, fn):
        if fn['id'] in s.memo: return s.memo[fn['id']]
        if fn['id'] in s.busy: return set()
        s.busy.add(fn['id']); r = set()
        try:
            par = {p['id']: i for i, p in enumerate(fn['p']) if s.T[p['t']].get('ref')}
            loc = {v['id'] for x in walk(fn['body']) if x.get('k') == 'decl' for v in x['v']}
            def add(k, p):
                rt = root(p)
                if rt[0] in 'gf': r.add((k, s.anon(p)))
                elif rt[0] == 'v' and rt[1] in par: r.add((k, subst(s.anon(p), rt, ('p', par[rt[1]]))))
                elif rt[0] == 'v' and rt[1] not in loc and rt[1] not in {p['id'] for p in fn['p']}: r.add((k, s.anon(p)))    # captured
            for x in walk(fn['body']):
                for k, p, _ in s.events(x, fn): add(k, p)
        finally: s.busy.discard(fn['id'])
        if not s.busy: s.memo[fn['id']] = r
        return r
    def reserved(s, p, fn):
        """room was reserved for this container in the same function"""
        if fn['id'] not in s.res:
            s.res[fn['id']] = [s.path(m[0], fn) for x in walk(fn['body']) if x.get('k') == 'call' for m in [method(x)] if m and m[1] == 'reserve']
        return any(q is not None and same(s.anon(q), s.anon(p)) for q in s.res[fn['id']])
    def events(s, x, fn):
        """container changes made by this node itself: (kind, container path, node)"""
        if x.get('k') == 'bin' and x['op'] == '=' and s.kind(x['a']) in ('vec', 'deq', 'pq'):
            p = s.path(x['a'], fn)
            if p: yield 'all', p, x
            return
        if x.get('k') != 'call': return
        m = method(x)
        if m:
            kd = s.kind(m[0]); p = s.path(m[0], fn) if kd else None
            if p:
                if m[1] in ('push_back', 'emplace_back') and s.reserved(p, fn): return
                if m[1] in GROW or m[1] in ('=', 'operator='):
                    if kd == 'vec': yield 'all', p, x
                    elif kd == 'deq' and m[1] in ('insert', 'erase', 'clear', 'resize', 'assign', 'shrink_to_fit', '=', 'operator='): yield 'all', p, x
                if kd == 'pq' and m[1] in ('push', 'emplace', 'pop'): yield 'all', p, x
                if m[1] in ('pop_back', 'pop', 'pop_front'): yield 'last', p, x
                return
        elif x.get('opc') == '=' and len(x.get('a') or []) == 2 and s.kind(x['a'][0]) in ('vec', 'deq', 'pq'):
            p = s.path(x['a'][0], fn)
            if p: yield 'all', p, x
            return
        # local lambda
        fe = strip(x.get('fe')) or {}
        lam = None
        for c in (fe, strip(x.get('o')) if x.get('o') is not None else None):
            if isinstance(c, dict) and c.get('k') == 'ref' and c.get('d') in s.lamvar: lam = s.lamvar[c['d']]
            if isinstance(c, dict) and c.get('k') == 'lambda': lam = c
        ts = [s.fid[i] for i in (lam.get('ops') or []) if i in s.fid] if lam else s.targets(fn, x)
        if not ts and fn.get('lam') and fe.get('dk') == 'parm' and (x.get('a') or []) and strip(x['a'][0]).get('k') == 'ref' and strip(x['a'][0]).get('d') == fe.get('d'):
            ts = [fn]; lam = fn         # self(self, ...)
        sets = [s.grows(t) for t in ts]
        if not sets: return
        u = set()
        for y in sets: u |= y
        a = x.get('a') or []
        for k, p in sorted(u, key=repr):
            rt = root(p)
            if rt[0] == 'p':
                if rt[1] >= len(a): continue
                q = s.path(a[rt[1]], fn)
                if q is None: continue
                p = subst(p, rt, q)
            elif rt[0] == 'f' and not lam:
                o = m[0] if m else None
                if o is not None and strip(o).get('k') != 'this' and not (strip(o).get('k') == 'un' and strip(strip(o)['e']).get('k') == 'this'):
                    q = s.path(o, fn)
                    if q is None: continue
                    p = subst(p, rt, ('m', q, ('f', rt[1])))
                elif any(t.get('static') for t in ts): continue
            yield k, p, x


def root(p):
    while p[0] in ('e', 'm', '*'): p = p[1]
    return p
def subst(p, rt, q):
    if p == rt: return q
    return (p[0], subst(p[1], rt, q)) + p[2:]
def contains(p, c, deep=False):
    """an element of container c lies on path p (how it was taken is returned). Elements of a container held by an element stay where they are when the outer one grows, so only the innermost container counts unless elements are dropped."""
    while p[0] in ('e', 'm', '*'):
        if p[0] == 'e':
            if same(p[1], c): return p[2] or '?'
            if not deep: return None
        p = p[1]
    return None
def same(a, b):
    if a[0] != b[0]: return False
    if a[0] in ('e', 'm', '*'):
        if len(a) > 2 and a[2] != b[2]: return False
        return same(a[1], b[1])
    return a == b


class W(Flow):
    """state: {variable: (path, None | why stale)}, ('mv', var) -> line moved"""
    def __init__(s, h, fn, report): s.h = h; s.fn = fn; s.report = report; s.nb = 0; s.said = set(); s.owned = {p['id'] for p in fn['p']} | {v['id'] for x in walk(fn['body']) if x.get('k') == 'decl' for v in x['v'] if not v.get('static')}
    def copy(s, st): return dict(st)
    def join(s, a, b):
        r = dict(a)
        for k, v in b.items():
            if k not in r: r[k] = v
            elif v[1] is not None and r[k][1] is None: r[k] = v
        return r
    def say(s, key, line, msg):
        if key in s.said: return
        s.said.add(key); s.report(line, msg)
    def use(s, d, st, line, n):
        if d in st and st[d][1] is not None:
            w = st[d][1]
            s.say((d, w[0]), line, '%s still points into %s, whose elements may have moved or gone in line %s' % (n, w[1], w[0]))
        if ('mv', d) in st and st[('mv', d)][1] is not None: s.say(('mv', d), line, '%s is read after it was moved away in line %s' % (n, st[('mv', d)][1][0]))
    def bindpath(s, v, e):
        """path into a container that variable v (initialised with e) keeps"""
        t = s.h.T[v['t']]; e = strip(e)
        if t.get('ref') or t['s'].endswith('&'):
            p = s.h.path(e, s.fn)
            return p if p and s.through(p) else None
        return s.ptrpath(e)
    def through(s, p):
        while p[0] in ('e', 'm', '*'):
            if p[0] in ('e', '*'): return True
            p = p[1]
        return False
    def ptrpath(s, e, depth=0):
        e = strip(e)
        while isinstance(e, dict) and e.get('k') in ('ctor', 'init') and len(e.get('a') or []) == 1: e = strip(e['a'][0])
        if not isinstance(e, dict): return None
        if e.get('k') == 'ref' and e.get('dk') == 'var' and s.cur is not None and e.get('d') in s.cur and not isinstance(s.h.vty.get(e['d']), type(None)) and not s.h.T[s.h.vty[e['d']]].get('ref'):
            return s.cur[e['d']][0]
        if e.get('k') == 'un' and e['op'] == '&':
            p = s.h.path(e['e'], s.fn)
            return p if p and s.through(p) else None
        if e.get('k') == 'bin' and e['op'] in ('+', '-'): return s.ptrpath(e['a'], depth)
        if e.get('k') == 'call':
            if e.get('opc') in ('+', '-'): return s.ptrpath(e['o'] if e.get('o') else (e['a'][0] if e.get('a') else None), depth)
            m = method(e)
            if m and m[1] in ITER | {'find', 'lower_bound', 'upper_bound', 'insert', 'erase'} and s.h.kind(m[0]) == 'vec' and 'basic_string' not in s.h.ty(m[0]):
                p = s.h.path(m[0], s.fn)
                return ('e', p, '?') if p else None
            n = e.get('n') or (strip(e.get('fe')) or {}).get('n')
            if n in SEARCH and e.get('a') and not m: return s.ptrpath(e['a'][0], depth)
            ts = s.h.targets(s.fn, e)
            if len(ts) == 1 and (not m or strip(m[0]).get('k') == 'this') and ts[0]['id'] != s.fn.get('id'):
                p = s.h.retptr(ts[0], depth)
                if p is not None and p[0] == 'p': return s.ptrpath(e['a'][p[1]], depth) if p[1] < len(e.get('a') or []) else None
                return p
        return None
    def bind(s, v, st):
        e = v.get('e')
        if e is None: return
        s.cur = st; p = s.bindpath(v, e); s.cur = None
        ids = [b['id'] if isinstance(b, dict) else b for b in v.get('binds') or []] or [v['id']]
        for i in ids:
            st.pop(i, None); st.pop(('mv', i), None)
            if p is not None: st[i] = (s.resolve(p, st), None); s.nb += 1
    def resolve(s, p, st):
        """a reference bound through another reference points where that one points"""
        rt = root(p)
        if rt[0] == 'v' and rt[1] in st and st[rt[1]][0] is not None: return subst(p, rt, st[rt[1]][0])
        return p
    def invalidate(s, st, k, c, line):
        c = s.resolve(c, st)
        for d, (p, w) in list(st.items()):
            if isinstance(d, tuple) and d[0] == 'mv' or w is not None or p is None: continue
            how = contains(p, c, k == 'last')
            if how is None: continue
            if k == 'last' and how not in ('back', 'top', 'front'): continue
            st[d] = (p, (line, s.name(c)))
    def name(s, c):
        rt = root(c)
        n = None
        for x in walk(s.fn['body']):
            if rt[0] in ('v', 'f') and x.get('k') in ('ref', 'mem') and x.get('d') == rt[1]: n = x.get('n'); break
        return n or str(rt[1])
    def moved(s, d, st):
        """iterator d now points elsewhere: what was bound through it stays with the old element"""
        for q, (p, w) in list(st.items()):
            if p is not None and w is None and q != d and root(p) == ('v', d): st.pop(q)
    def erased(s, e, st):
        m = method(e)
        if m and m[1] == 'erase' and len(m[2]) == 1: a = strip(m[2][0])
        elif (strip(e.get('fe')) or {}).get('n') == 'erase' and len(e.get('a') or []) == 1: a = strip(e['a'][0])
        else: return
        while isinstance(a, dict) and a.get('k') == 'ctor' and len(a.get('a') or []) == 1: a = strip(a['a'][0])
        if not (isinstance(a, dict) and a.get('k') == 'ref' and a.get('d') in s.h.itvar): return
        for q, (p, w) in list(st.items()):
            if p is not None and w is None and root(p) == ('v', a['d']): st[q] = (p, (e.get('l'), a.get('n')))
        st[a['d']] = (st.get(a['d'], (('v', a['d']),))[0], (e.get('l'), 'the element erased'))
    def expr(s, e, st):
        e = strip(e)
        if not isinstance(e, dict): return
        k = e.get('k')
        if k == 'lambda':
            for c in e.get('inits') or []:
                if c.get('v') is not None: s.use(c['v'], st, e.get('l'), c.get('n'))
            return
        if k == 'cond':
            t, f = s.cond(e['c'], st)
            rs = []
            for br, b in ((t, e.get('a')), (f, e.get('b'))):
                if br is not None:
                    if is_assert_fail(strip(b)): continue
                    s.expr(b, br); rs.append(br)
            if rs:
                r = s.j(rs); st.clear(); st.update(r)
            return
        asg = k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>=')
        casg = k == 'call' and (e.get('opc') or '').endswith('=') and e['opc'] not in ('==', '!=', '<=', '>=')
        if asg or casg:
            l, r = (e['a'], e['b']) if asg else ((e['o'], (e.get('a') or [None])[0]) if e.get('o') is not None else (e['a'][0], e['a'][1] if len(e['a']) > 1 else None))
            s.expr(r, st)
            x = strip(l); op = e['op'] if asg else e['opc']
            if isinstance(x, dict) and x.get('k') == 'ref' and op == '=':
                d = x.get('d'); st.pop(('mv', d), None); s.pend = [q for q in s.pend or [] if q[0] != d]
                isref = d in s.h.vty and (s.h.T[s.h.vty[d]].get('ref'))
                for ev in s.h.events(e, s.fn): s.invalidate(st, ev[0], ev[1], e.get('l'))
                if not isref: s.moved(d, st)
                if not isref:
                    s.cur = dict(st); st.pop(d, None); p = s.ptrpath(r); s.cur = None
                    if p is not None: st[d] = (s.resolve(p, st), None)
                else: s.use(d, st, x.get('l'), x.get('n'))
                return
            s.expr(l, st)
            for ev in s.h.events(e, s.fn): s.invalidate(st, ev[0], ev[1], e.get('l'))
            return
        if k == 'ref':
            if e.get('dk') in ('var', 'parm', 'bind'): s.use(e.get('d'), st, e.get('l'), e.get('n'))
            return
        m = method(e) if k == 'call' else None
        if k == 'call':
            n = e.get('n') or (strip(e.get('fe')) or {}).get('n')
            if n == 'move' and len(e.get('a') or []) == 1 and not m:
                x = strip(e['a'][0])
                if isinstance(x, dict) and x.get('k') == 'ref' and x.get('dk') in ('var', 'parm') and x.get('d') in s.owned and not SCALAR.match(s.h.ty(x)):
                    s.use(x.get('d'), st, e.get('l'), x.get('n'))
                    s.pend.append((x['d'], e.get('l')))
                    return
            if m and isinstance(m[0], dict):
                o = strip(m[0])
                if o.get('k') == 'call' and (o.get('n') or (strip(o.get('fe')) or {}).get('n')) == 'move' and len(o.get('a') or []) == 1:
                    # an operation of the object itself: what it leaves behind is up to it
                    for c in [o['a'][0]] + list(e.get('a') or []): s.expr(c, st)
                    return
            if m and isinstance(m[0], dict) and m[0].get('k') == 'ref' and m[1] in REASSIGN:
                st.pop(('mv', m[0].get('d')), None)
            # swap and tie give new values
            if n in ('swap', 'exchange', 'tie'):
                for a in e.get('a') or []:
                    a = strip(a)
                    if isinstance(a, dict) and a.get('k') == 'ref': st.pop(('mv', a.get('d')), None)
        for c in kids(e): s.expr(c, st)
        if k == 'call':
            for kd, c, x in s.h.events(e, s.fn): s.invalidate(st, kd, c, e.get('l'))
            s.erased(e, st)
        x = strip(e['e']) if k == 'un' and e['op'] in ('++', '--') else strip(e.get('o') if e.get('o') is not None else (e.get('a') or [None])[0]) if k == 'call' and e.get('opc') in ('++', '--') else None
        if isinstance(x, dict) and x.get('k') == 'ref': s.moved(x.get('d'), st)
    pend = None; cur = None
    def full(s, e, st):
        s.pend = []
        s.expr(e, st)
        s.flush(st)
    def flush(s, st):
        for d, l in s.pend or []: st[('mv', d)] = (None, (l, ''))
        s.pend = []
    def cond(s, e, st):
        top = s.pend is None or s.pend == []
        if s.pend is None: s.pend = []
        return super().cond(e, st)
    def stmt(s, n, st, ex):
        if st is None or not isinstance(n, dict): return st
        s.flush(st)
        if n.get('k') == 'rfuse':
            i = n['id']
            if i in st and st[i][1] is not None:
                w = st[i][1]; s.say((str(i), w[0]), n['l'], 'the loop runs over %s, whose elements may have moved in line %s' % (w[1], w[0]))
                st[i] = (st[i][0], None)
            v = n.get('v')
            if isinstance(v, dict):
                ids = [b['id'] if isinstance(b, dict) else b for b in v.get('binds') or []] or [v['id']]
                for b in ids:
                    st.pop(b, None); st.pop(('mv', b), None)
                    if n['ref'] and i in st: st[b] = (st[i][0], None)
            return st
        if n.get('k') == 'rfor' and not n.get('_x'):
            p = None; r = strip(n.get('r'))
            if s.h.kind(r) in ('vec', 'deq'):
                p = s.h.path(r, s.fn)
            i = ('rf', id(n))
            if p is not None: st[i] = (s.resolve(('e', p, '?'), st), None); s.nb += 1
            t = s.h.T[n['v']['t']] if isinstance(n.get('v'), dict) else {}
            n2 = dict(n); n2['_x'] = 1
            n2['s'] = {'k': 'block', 's': [{'k': 'rfuse', 'id': i, 'l': n.get('l'), 'v': n.get('v'), 'ref': bool(t.get('ref') or t.get('s', '').endswith('&'))}, n.get('s')]}
            out = super().stmt(n2, st, ex)
            if out is not None: out.pop(i, None)
            return out
        out = super().stmt(n, st, ex)
        if out is not None: s.flush(out)
        return out
    def decl(s, v, st):
        if v.get('e') is not None:
            s.pend = s.pend or []
            s.expr(v['e'], st); s.flush(st)
        s.bind(v, st)
    def on_return(s, e, st, node):
        if e is not None:
            s.pend = []
            s.expr(e, st)


def given(h, fn, w, report, res):
    """references into a member or pool handed to a function that grows it: the callee is analysed with its parameter pointing there"""
    for x in walk(fn['body']):
        if x.get('k') != 'call': continue
        m = method(x); ts = h.targets(fn, x)
        if len(ts) != 1 or ts[0]['id'] == fn['id'] or m and strip(m[0]).get('k') != 'this': continue
        t = ts[0]; a = x.get('a') or []
        for i, pr in enumerate(t['p'][:len(a)]):
            pt = h.T[pr['t']]
            if not pt.get('ref') and not pt.get('ptr'): continue
            p = h.path(a[i], fn) if pt.get('ref') else w.ptrpath(a[i])
            if not p or root(p)[0] not in 'gf' or not w.through(p): continue
            res.count('references into containers handed to callees')
            p = h.anon(p)
            if not any(contains(p, c, k == 'last') for k, c in h.grows(t)): continue
            def rep(line, msg): report(x.get('l'), 'hands an element to %s, where %s' % (t['n'], msg))
            W(h, t, rep).stmt(t['body'], {pr['id']: (p, None)}, Exit())


def escapes(h, fn, report):
    """returned references and callables must not refer to locals of the function"""
    loc = {}; lam = {}
    for p in fn['p']:
        if not h.T[p['t']].get('ref'): loc[p['id']] = p.get('n')
    for x in walk(fn['body']):
        if x.get('k') == 'decl':
            for v in x['v']:
                if v.get('static') or v.get('binds'): continue
                e = strip(v.get('e'))
                if not h.T[v['t']].get('ref') and not h.T[v['t']].get('ptr'): loc[v['id']] = v.get('n')
                if isinstance(e, dict) and e.get('k') == 'lambda': lam[v['id']] = e
    isref = 'ret' in fn and h.T[fn['ret']].get('ref')
    n = 0
    mine = {p['id']: p.get('n') for p in fn['p']}
    mine.update(loc)
    for x in walk(fn['body']):
        if x.get('k') != 'ret' or x.get('e') is None: continue
        e = strip(x['e'])
        if isref:
            n += 1
            for y in branches(e):
                q = strip(y)
                while isinstance(q, dict):
                    if q.get('k') == 'mem' and not q.get('ar') and q.get('b') is not None:
                        b = strip(q['b'])
                        if isinstance(b, dict) and (b.get('opc') == '->' or h.handle(b)): break
                        q = b
                    elif q.get('k') == 'idx' and h.inline(q['a']): q = strip(q['a'])
                    else: break
                m = method(q) if isinstance(q, dict) else None
                if m and m[1] in ELEM and h.kind(m[0]): q = m[0]
                if isinstance(q, dict) and q.get('k') == 'ref' and q.get('d') in loc: report(x.get('l'), 'returns a reference to %s, which ends with the call' % q.get('n'))
        # callables: returned directly, or as a member of what is returned
        for y in direct(e):
            if isinstance(y, dict) and y.get('k') == 'ref' and y.get('d') in lam: y = lam[y['d']]
            if isinstance(y, dict) and y.get('k') == 'lambda':
                n += 1
                caps = [(c['v'], c.get('n')) for c in y.get('inits') or [] if c.get('v') is not None and c.get('ref')]
                named = {c['v'] for c in y.get('inits') or [] if c.get('v') is not None}
                if y.get('dflt') == '&':
                    for o in y.get('ops') or []:
                        if o in h.fid: caps += [(z['d'], z.get('n')) for z in walk(h.fid[o]['body']) if z.get('k') == 'ref' and z.get('d') in loc and z['d'] not in named]
                for cv, cn in caps:
                    if cv in loc: report(x.get('l'), 'returns a callable that refers to %s, which ends with the call' % cn)
    return n


def branches(e):
    e = strip(e)
    if isinstance(e, dict) and e.get('k') == 'cond': yield from branches(e['a']); yield from branches(e['b'])
    elif isinstance(e, dict) and e.get('k') == 'bin' and e['op'] == ',': yield from branches(e['b'])
    else: yield e


def direct(e):
    """values that become part of the returned object"""
    e = strip(e)
    if not isinstance(e, dict): return
    yield e
    if e.get('k') in ('ctor', 'init', 'pinit', 'x', 'cast', 'stdinit'):
        for c in kids(e): yield from direct(c)


def run(res, tier):
    seen = set()
    for h, j in sorted(X.run_headers().items()):
        d = X.load(j); H = None
        for fn in d['funcs']:
            if not isinstance(fn.get('body'), dict) or fn.get('inst'): continue
            f = X.rel(d['files'][fn['loc'][0]])
            if not f.startswith('library/'): continue
            key = (f, fn['loc'][1], fn['loc'][2])
            if key in seen: continue
            seen.add(key); res.count('functions analysed')
            H = H or Hdr(d)
            def report(line, msg): res.violation('%s:%s:%s' % (f, fn['q'], re.sub(r' in line \d+', '', msg)), '%s:%s' % (f, line), msg, fn['q'])
            w = W(H, fn, report); ex = Exit()
            st = {}
            for i in H.inits(fn): w.full(i.get('e'), st)
            w.stmt(fn['body'], st, ex)
            given(H, fn, w, report, res)
            res.count('references, iterators and loops into containers', w.nb)
            res.count('returned references and callables', escapes(H, fn, report))
            res.count('functions that may move the elements of a container they are given', 1 if H.grows(fn) else 0)
    res.floor('functions analysed', 2500)
    res.floor('references, iterators and loops into containers', 300)
