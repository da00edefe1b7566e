"""Orders. Every comparison operator of a library class and every comparator handed to an ordering algorithm or container is evaluated symbolically into a Boolean formula over the signs of key comparisons (k(a) against k(b), or t(a, b) against t(b, a)); operators of the same class are inlined. All sign assignments are enumerated: < is irreflexive, asymmetric and (over ranked keys) transitive with transitive incomparability, == is reflexive and symmetric, and within one class a != b is not (a == b), a > b is b < a, a <= b is not (b < a), a >= b is not (a < b), and a == b excludes a < b. Bodies with loops are followed along every path with both operands equal. The fields an == reads are compared with the reviewed set (witness/eq_fields.json)."""
import itertools, json, re
import extract as X
from flow import walk, strip, lit, assert_cond
from sym import Sym, Opaque, sub, show
TECHNIQUE = 'symbolic evaluation of comparison bodies to Boolean formulas over key signs, decided by enumeration of sign assignments; path walk with equal operands for looping bodies'
OUT = X.VERIF + '/witness/eq_fields.json'
A, B, C = ('P', 0), ('P', 1), ('P', 2)
SW = {A: B, B: A}
CMP = {'<', '>', '<=', '>=', '==', '!='}
ORDERING = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'max_element', 'min_element', 'minmax_element', 'is_sorted', 'inplace_merge', 'merge', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap', 'set_union', 'set_intersection', 'set_difference'}


def truth(op, s): return {'<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0, '==': s == 0, '!=': s != 0}[op]


class F:
    """a Boolean term with its atoms"""
    def __init__(s, term): s.t = term
    def atoms(s, out=None):
        out = {} if out is None else out
        collect(s.t, out); return out


def atom(t):
    """(kind, key, orientation) of a comparison or opaque Boolean"""
    if t[0] == 'op' and t[1] in CMP:
        x, y = t[2], t[3]
        if x == y: return ('const', 0, 1)
        if sub(x, SW) == y and x != y:
            return ('sign', (x, y), 1) if repr(x) < repr(y) else ('sign', (y, x), -1)
        for p, q, o in ((x, y, 1), (y, x, -1)):
            if q[0] == 'c' and q[1] == 0:
                if p[0] == 'op' and p[1] == '-':                    # x - y against 0
                    r = atom(('op', '<', p[2], p[3]))
                    if r[0] in ('sign', 'const'): return (r[0], r[1], r[2] * o)
                w = sub(p, SW)
                if w != p and A in flat(p) and B in flat(p):       # antisymmetric three-way function
                    return ('sign3', (p, w), o) if repr(p) < repr(w) else ('sign3', (w, p), -o)
        # a plain comparison of two terms: its sign, oriented
        return ('plain', (x, y), 1) if repr(x) <= repr(y) else ('plain', (y, x), -1)
    return ('bool', t, 1)


def flat(t):
    if isinstance(t, tuple):
        if t: yield t
        for x in t: yield from flat(x)


def collect(t, out):
    if t[0] == 'c': return
    if t[0] == 'un' and t[1] == '!': return collect(t[2], out)
    if t[0] == 'op' and t[1] in ('&&', '||', '^') : collect(t[2], out); collect(t[3], out); return
    if t[0] == 'op' and t[1] in ('==', '!=') and boolish(t[2]) and boolish(t[3]): collect(t[2], out); collect(t[3], out); return
    if t[0] == 'ite':
        for x in t[1:]: collect(x, out)
        return
    k, key, o = atom(t)
    if k == 'const': return
    out[(k if k != 'sign3' else 'sign', key)] = 2 if k == 'bool' else 3


def boolish(t):
    if t[0] == 'un' and t[1] == '!': return True
    if t[0] == 'op': return t[1] in CMP | {'&&', '||'}
    return False


def ev(t, a):
    if t[0] == 'c': return bool(t[1])
    if t[0] == 'un' and t[1] == '!': return not ev(t[2], a)
    if t[0] == 'op' and t[1] == '&&': return ev(t[2], a) and ev(t[3], a)
    if t[0] == 'op' and t[1] == '||': return ev(t[2], a) or ev(t[3], a)
    if t[0] == 'op' and t[1] == '^': return ev(t[2], a) != ev(t[3], a)
    if t[0] == 'op' and t[1] in ('==', '!=') and boolish(t[2]) and boolish(t[3]): return (ev(t[2], a) == ev(t[3], a)) == (t[1] == '==')
    if t[0] == 'ite': return ev(t[2], a) if ev(t[1], a) else ev(t[3], a)
    k, key, o = atom(t)
    if k == 'const': return truth(t[1], 0)
    if k == 'bool': return bool(a[('bool', key)])
    return truth(t[1], a[('sign' if k == 'sign3' else k, key)] * o)


def assignments(keys):
    keys = sorted(keys.items(), key=repr)
    for v in itertools.product(*[(range(2) if n == 2 else (-1, 0, 1)) for k, n in keys]):
        yield {k: x for (k, n), x in zip(keys, v)}


def allkeys(*ts):
    out = {}
    for t in ts: collect(t, out)
    return out


def forall(ts, pred):
    """first assignment (over the atoms of ts) violating pred(values); None when there is none or too many atoms"""
    k = allkeys(*ts); n = 1
    for v in k.values(): n *= v
    if n > 20000: return 'skip'
    for a in assignments(k):
        if not pred(*[ev(t, a) for t in ts]): return a
    return None


def diag(t):
    """t with b := a"""
    return norm(sub(t, {B: A}))


def norm(t):
    if not isinstance(t, tuple) or not t: return t
    t = tuple(norm(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'op' and len(t) == 4 and t[2] == t[3]:
        if t[1] in CMP and not any(x[0] == 's' and str(x[1]).startswith('lambda') for x in flat(t) if x): return ('c', int(truth(t[1], 0)))
        if t[1] in ('-', '^'): return ('c', 0)
    if t[0] == 'call' and t[1] in ('min', 'max') and t[2] and all(x == t[2][0] for x in t[2]): return t[2][0]
    if t[0] == 'un' and t[1] == '!' and t[2][0] == 'c': return ('c', int(not t[2][1]))
    if t[0] == 'op' and t[1] == '&&':
        if t[2][0] == 'c': return t[3] if t[2][1] else ('c', 0)
        if t[3] == ('c', 0): return ('c', 0)
        if t[3] == ('c', 1): return t[2]
    if t[0] == 'op' and t[1] == '||':
        if t[2][0] == 'c': return ('c', 1) if t[2][1] else t[3]
        if t[3] == ('c', 1): return ('c', 1)
        if t[3] == ('c', 0): return t[2]
    if t[0] == 'ite':
        if t[1][0] == 'c': return t[2] if t[1][1] else t[3]
        if t[2] == t[3]: return t[2]
    if t[0] == 'op' and t[1] in CMP and t[2][0] == 'c' and t[3][0] == 'c': return ('c', int(truth(t[1], (t[2][1] > t[3][1]) - (t[2][1] < t[3][1]))))
    return t


class Walk:
    """every return value of a looping body with both operands equal"""
    def __init__(s, S): s.S = S; s.n = 0
    def fresh(s): s.n += 1; return ('s', 'u%d' % s.n)
    def run(s, fn, equal=True):
        env = s.S.operands(fn); s.equal = equal; s.path = []; s.loops = 0
        if equal: env = {k: A if v == B else v for k, v in env.items()}
        s.out = []; s.steps = 0
        s.block(list(fn['body'].get('s') or []), env)
        return s.out
    def cond(s, e, env):
        s.c = c = norm(s.S.ev(e, env))
        if s.equal: c = norm(sub(c, {B: A}))
        return c[1] if c[0] == 'c' else None
    def havoc(s, body, env):
        for x in walk(body):
            t = None
            if x.get('k') == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='): t = strip(x['a'])
            elif x.get('k') == 'un' and x['op'].startswith(('++', '--')): t = strip(x['e'])
            elif x.get('k') == 'call' and (x.get('opc') or '') in ('++', '--', '+=', '-=', '='): t = strip(x.get('o') or (x.get('a') or [None])[0])
            if isinstance(t, dict) and t.get('k') == 'ref' and t.get('d') in env: env[t['d']] = s.fresh()
    def block(s, ss, env):
        """True when control can fall through"""
        s.steps += 1
        if s.steps > 3000: raise Opaque()
        for i, st in enumerate(ss):
            k = st.get('k'); rest = ss[i + 1:]
            if k == 'block': return s.block(list(st['s']) + rest, env)
            if k == 'ret':
                if s.equal: s.out.append((norm(sub(s.S.ev(st['e'], env), {B: A})), st.get('l')))
                else: s.out.append((list(s.path), norm(s.S.ev(st['e'], env)), st.get('l'), s.loops))
                return
            if k == 'if':
                v = s.cond(st['c'], env); c = s.c
                L = lambda x: [] if x is None else list(x['s']) if x.get('k') == 'block' else [x]
                p = s.path
                if v is None or v: s.path = p + [c]; s.block(L(st.get('a')) + rest, dict(env))
                if v is None or not v: s.path = p + [('un', '!', c)]; s.block(L(st.get('b')) + rest, dict(env))
                s.path = p
                return
            if k in ('for', 'while', 'rfor', 'do'):
                if k == 'for' and st.get('init') is not None and st['init'].get('k') == 'decl': s.S.block([st['init']], env, False)
                if k == 'rfor': raise Opaque()
                if k != 'do' and st.get('c') is not None and s.cond(st['c'], env) == 0: continue
                body = st.get('s'); s.havoc(st, env)
                v = s.cond(st['c'], env) if st.get('c') is not None else 1
                if v is None or v:
                    b = list(body['s']) if body.get('k') == 'block' else [body]; s.loops += 1
                    # one arbitrary iteration; returns inside it are collected, then the loop is left
                    s.block([x for x in b], dict(env)); s.loops -= 1
                e2 = dict(env); s.havoc(st, e2)
                if st.get('c') is None: return
                s.loops += 1; s.block(rest, e2); s.loops -= 1; return
            if k in ('break', 'cont'): return
            s.S.block([st], env, False)


def same(d, fn, S):
    """the two operands have the same class type"""
    if fn.get('cls') in S.lam or fn.get('cls') is None or fn.get('friend') or fn.get('static'):
        if len(fn['p']) != 2: return None
        t = [tn(d, p['t']) for p in fn['p']]
        return t[0] if t[0] == t[1] else None
    if len(fn['p']) != 1: return None
    r = next((r for r in d['records'] if r['id'] == fn['cls']), None)
    t = tn(d, fn['p'][0]['t'])
    if r is None: return None
    return t if re.sub(r'<.*', '', t).split('::')[-1] == r['n'] or t == tname(r.get('full', '')) else None


def tname(s): return re.sub(r'\b(const|struct|class|typename)\b|[&\s]', '', s)
def tn(d, t): return tname(d['types'][t]['s'])


def families():
    """{(header, class): {op: (fn, term or None)}}; comparators [(where, fn, term)]"""
    fam = {}; cmps = []
    for h, j in sorted(X.run_headers().items()):
        d = X.load(j); S = Sym(d)
        fs = [f for f in d['funcs'] if not f.get('inst') and X.rel(d['files'][f['loc'][0]]) == h and isinstance(f.get('body'), dict)]
        for f in fs:
            op = f.get('op')
            if op not in CMP: continue
            c = same(d, f, S)
            if c is None: continue
            fam.setdefault((h, c), {})[op] = (f, S, d)
        lamop = {f['cls']: f for f in fs if f.get('cls') in S.lam and f['n'] == 'operator()'}
        held = {}
        for f in fs:
            for x in walk(f['body']):
                if x.get('k') == 'decl':
                    for v in x['v']:
                        e = strip(v['e']) if v.get('e') is not None else None
                        if isinstance(e, dict) and e.get('k') == 'lambda' and e.get('rec') in lamop: held[v['id']] = lamop[e['rec']]
        byq = {}
        for f in fs:
            if f['n'] == 'operator()' and f.get('cls') is not None: byq[f['cls']] = f
            if not f.get('cls') and len(f['p']) == 2: byq[f['id']] = f
        for f in fs:
            for x in walk(f['body']):
                if x.get('k') not in ('call', 'ctor'): continue
                n = x.get('n') or (strip(x.get('fe')) or {}).get('n')
                t = d['types'][x['t']]['s'] if x.get('k') == 'ctor' and 't' in x else ''
                if n not in ORDERING and not re.match(r'^(std::)?(priority_queue|set|map|multiset|multimap)<', t): continue
                for a in x.get('a') or []:
                    a = strip(a)
                    if not isinstance(a, dict): continue
                    if a.get('k') in ('ctor', 'cast') and a.get('a'): a = strip(a['a'][0])
                    g = lamop.get(a.get('rec')) if a.get('k') == 'lambda' else held.get(a.get('d')) if a.get('k') == 'ref' else None
                    if g is None and a.get('k') == 'ref' and a.get('d') in byq: g = byq[a['d']]
                    if g is not None and len(g['p']) == 2: cmps.append((h, n or t, g, S, d))
        # comparator classes named in container types
        used = ' '.join(t['s'] for t in d['types'] if re.search(r'(priority_queue|set|map|multiset|multimap)<', t['s']))
        rn = {r['id']: r for r in d['records']}
        for f in fs:
            if f['n'] == 'operator()' and f.get('cls') in rn and f['cls'] not in S.lam and len(f['p']) == 2 and not f.get('static'):
                if tn(d, f['p'][0]['t']) == tn(d, f['p'][1]['t']) and re.search(r'\b%s\b' % re.escape(rn[f['cls']]['n']), used): cmps.append((h, 'container of ' + rn[f['cls']]['n'], f, S, d))
    return fam, cmps


def inliner(S, ops):
    """replace a OP b on the bare operands by the class's own definition"""
    def go(t, depth):
        if not isinstance(t, tuple) or not t: return t
        if t[0] == 'm' and str(t[1]).startswith('operator') and t[1][8:].strip() in CMP and len(t[3]) == 1: t = ('op', t[1][8:].strip(), t[2], t[3][0])
        if t[0] == 'op' and t[1] in CMP and {t[2], t[3]} == {A, B} and t[1] in ops and depth > 0:
            f = ops[t[1]]
            try: r = S.call(f)
            except Opaque: return ('call', 'operator' + t[1], (t[2], t[3]))
            if r is None: return t
            r = sub(r, {A: t[2], B: t[3]}) if t[2] == B else r
            return go(r, depth - 1)
        return tuple(go(x, depth) if isinstance(x, tuple) else x for x in t)
    return go


def fields(t, out):
    if isinstance(t, tuple):
        if t and t[0] == 'f' and t[1] in (A, B): out.add((0 if t[1] == A else 1, t[2]))
        if t and t[0] == 'call' or t and t[0] == 'm': out.add((2, 'call'))
        for x in t: fields(x, out)


def eqfields(fam):
    """fields that == (or !=) compares, per class"""
    r = {}
    for (h, c), ops in fam.items():
        op = '==' if '==' in ops else '!=' if '!=' in ops else None
        if op is None: continue
        f, S, d = ops[op]
        try: t = S.call(f)
        except Opaque: continue
        if t is None: continue
        t = inliner(S, {o: v[0] for o, v in ops.items()})(t, 4); o = set(); fields(t, o)
        names = {n for s, n in o if s == 0} & {n for s, n in o if s == 1}
        rec = [x for x in d['records'] if tname(x.get('full', '')) == c or re.sub(r'<.*', '', c).split('::')[-1] == x['n'] and x.get('lib')]
        allf = [x['n'] for x in (rec[0].get('fields') or [])] if rec else []
        if any(z[0] in ('m', 'call') and (A in z[2:] or A in z[-1]) for z in flat(t)): continue
        r['%s:%s' % (h, re.sub(r'<.*', '', c))] = (sorted(names), allf, f)
    return r


def comparator(res, name, where, term, fn, S, strict=True):
    """irreflexive, asymmetric, transitive"""
    key = '%s:%s' % (where.split(':')[0], name)
    t = norm(term)
    dg = diag(t)
    k = allkeys(dg)
    if dg[0] == 'c' and dg[1]: res.violation('irr:' + key, where, 'comparing an element with itself says "less": %s' % show(t)[:160], fn['q']); return
    if dg[0] != 'c' and len(k) <= 8:
        if all(ev(dg, a) for a in assignments(k)): res.violation('irr:' + key, where, 'comparing an element with itself says "less"', fn['q']); return
    sw = sub(t, SW)
    bad = forall([t, sw], lambda x, y: not (x and y))
    if bad == 'skip': res.count('orders with too many keys to enumerate'); return
    ks = allkeys(t)
    if bad is not None and ranked(ks):
        res.violation('asym:' + key, where, 'two different elements can each be less than the other: %s' % show(t)[:160], fn['q']); return
    # ranked keys: k(a) against k(b)
    sg = [k for k in ks if k[0] == 'sign']
    if ks and len(sg) == len(ks) and len(sg) <= 3 and all(one(k[1]) for k in sg):
        n = len(sg); el = list(itertools.product(range(3), repeat=n))
        def lt(x, y): return ev(t, {k: (0, 1, -1)[(x[i] > y[i]) - (x[i] < y[i])] * orient(k) for i, k in enumerate(sg)})
        L = {(x, y): lt(x, y) for x in el for y in el}
        for x in el:
            for y in el:
                for z in el:
                    if L[x, y] and L[y, z] and not L[x, z]: res.violation('trans:' + key, where, 'the order is not transitive: %s' % show(t)[:160], fn['q']); return
                    if not L[x, y] and not L[y, x] and not L[y, z] and not L[z, y] and (L[x, z] or L[z, x]): res.violation('equiv:' + key, where, 'elements that are equivalent to the same element are ordered between themselves: %s' % show(t)[:160], fn['q']); return
        res.count('orders proved strict weak over all key ranks')
    else: res.count('orders proved irreflexive and asymmetric' if bad is None else 'orders proved irreflexive')


def ranked(ks):
    """every atom compares a key of a with the same key of b, or is a Boolean key of one of them"""
    if any(k[0] == 'plain' for k in ks): return False
    bs = {k[1] for k in ks if k[0] == 'bool'}
    for k in ks:
        if k[0] == 'sign' and (k[1][0] in bs or k[1][1] in bs): return False
        if k[0] == 'bool' and (not isinstance(k[1], tuple) or k[1][0] not in ('f', 'm', 'idx') or (A in set(flat(k[1]))) == (B in set(flat(k[1])))): return False
    return True


def one(key):
    """key is k(a) against k(b): each side mentions one operand"""
    x = set(flat(key[0])); return (A in x) != (B in x)


def orient(k): return 1 if A in set(flat(k[1][0])) else -1


def run(res, tier):
    fam, cmps = families()
    for (h, c), ops in sorted(fam.items(), key=lambda x: x[0]):
        T = {}; raw = {o: v[0] for o, v in ops.items()}
        for o, (f, S, d) in ops.items():
            where = '%s:%d' % (h, f['loc'][1])
            res.count('comparison operators analysed')
            try: t = S.call(f)
            except Opaque: t = None
            if t is not None:
                inl = inliner(S, raw); t = inl(t, 5)
                T[o] = norm(t)
            else:
                try: rets = Walk(S).run(f)
                except Opaque: res.count('comparison bodies not followed'); rets = []
                want = o in ('==', '<=', '>=')
                for r, l in rets:
                    r = norm(inliner(S, raw)(r, 4)); r = norm(sub(r, {B: A}))
                    res.count('returns with equal operands followed')
                    if r[0] == 'm' and str(r[1]).startswith('operator'): continue
                    ks = allkeys(r)
                    if r[0] != 'c' and ks and all(z[0] in ('f', 'c', 'P', 'op', 'un') for k in ks for z in flat(k[1]) if isinstance(z[0], str)) and any(ev(r, a) != want for a in assignments(ks)): r = ('c', int(not want))
                    if r[0] == 'c' and bool(r[1]) != want: res.violation('diag:%s:%s:%s' % (h, c, o), '%s:%d' % (h, l or f['loc'][1]), 'x %s x can answer %s' % (o, bool(r[1])), f['q'])
                if o in ('<', '>', '=='):
                    try: rets = Walk(S).run(f, False)
                    except Opaque: rets = []
                    rets = [([norm(inliner(S, raw)(x, 4)) for x in path], norm(inliner(S, raw)(r, 4)), l, lp) for path, r, l, lp in rets]
                    for path, r, l, lp in rets:
                        for p2, r2, l2, lp2 in rets if o == '==' and not lp and r == ('c', 0) else []:
                            ts = path + p2; sw = [sub(x, SW) for x in p2]; n = len(path); q = sub(r2, SW)
                            if not ranked(allkeys(*(path + sw + [q]))) or not path: continue
                            bad = forall(path + sw + [q], lambda *v: not (all(v[:-1]) and v[-1] != bool(r[1])))
                            if bad is not None and bad != 'skip': res.violation('loopasym:%s:%s:%s' % (h, c, o), '%s:%d' % (h, l or f['loc'][1]), 'a == b answers %s here where b == a can answer %s' % (bool(r[1]), not r[1]), f['q']); break
                        ts = path + [r]; ks = allkeys(*ts)
                        if not ranked(ks): continue
                        n = len(path); sw = [sub(x, SW) for x in ts]
                        if o == '==': bad = forall(ts + sw, lambda *v: not (all(v[:n]) and all(v[n + 1:-1]) and v[n] != v[-1]))
                        else: bad = forall(ts + sw, lambda *v: not all(v))
                        res.count('returns of looping comparisons checked against the swapped call')
                        if bad is not None and bad != 'skip': res.violation('loopasym:%s:%s:%s' % (h, c, o), '%s:%d' % (h, l or f['loc'][1]), ('a == b and b == a can differ: %s' if o == '==' else 'two different elements can each be less than the other: %s') % show(r)[:160], f['q'])
                T[o] = ('call', 'operator' + o, (A, B))
        def chk(a, b, rel, msg):
            if a not in T or b not in T: return
            if a == b and T[a][0] == 'call': return
            f, S, d = ops[a]; where = '%s:%d' % (h, f['loc'][1])
            x, y = T[a], T[b]; ys = sub(y, SW)
            # opaque definitions on both sides cannot be related
            if x[0] == 'call' and x[1] == 'operator' + a and a != b and not mentions(y, 'operator' + a): return
            if y[0] == 'call' and y[1] == 'operator' + b and a != b and not mentions(x, 'operator' + b): return
            r = forall([x, y, ys], rel); res.count('operator pairs decided')
            if r == 'skip' or r is None: return
            # an unknown two-place function may be symmetric, and may agree with equality
            if a == '==' and any(q[0] != 'sign' or any(z[0] in ('call', 'm') for z in flat(q[1])) or not one(q[1]) or A in q[1] for q in allkeys(x, y)): res.count('operator pairs left to an opaque function'); return
            res.violation('pair:%s:%s:%s:%s' % (h, c, a, b), where, '%s: a %s b is %s while a %s b is %s' % (msg, a, show(x)[:100], b, show(y)[:100]), f['q'])
        chk('!=', '==', lambda x, y, ys: x == (not y), 'a != b must be the negation of a == b')
        chk('>', '<', lambda x, y, ys: x == ys, 'a > b must be b < a')
        chk('<=', '<', lambda x, y, ys: x == (not ys), 'a <= b must be the negation of b < a')
        chk('>=', '<', lambda x, y, ys: x == (not y), 'a >= b must be the negation of a < b')
        chk('>=', '<=', lambda x, y, ys: x == ys, 'a >= b must be b <= a')
        chk('>', '<=', lambda x, y, ys: x == (not y), 'a > b must be the negation of a <= b')
        chk('==', '==', lambda x, y, ys: y == ys, 'a == b must be b == a')
        chk('==', '<', lambda x, y, ys: not (x and (y or ys)), 'equal elements must not be ordered')
        for o in ('<', '>'):
            if o in T and T[o][0] != 'call':
                f, S, d = ops[o]; comparator(res, 'operator' + o + ' of ' + c, '%s:%d' % (h, f['loc'][1]), T[o], f, S)
        for o in ('==', '<=', '>=', '!='):
            if o in T and T[o][0] != 'call':
                f, S, d = ops[o]; dg = diag(T[o]); want = o != '!='
                ks = allkeys(T[o]); sg = sorted(ks, key=repr)
                if o == '==' and ks and ranked(ks) and len(sg) <= 4 and all(k[0] == 'sign' and one(k[1]) for k in sg):
                    el = list(itertools.product(range(3 if len(sg) < 3 else 2), repeat=len(sg)))
                    E = {(x, y): ev(T[o], {k: (0, 1, -1)[(x[i] > y[i]) - (x[i] < y[i])] * orient(k) for i, k in enumerate(sg)}) for x in el for y in el}
                    res.count('equalities proved equivalence relations over all key ranks')
                    if any(E[x, y] and E[y, z] and not E[x, z] for x in el for y in el for z in el): res.violation('eqtrans:%s:%s' % (h, c), '%s:%d' % (h, f['loc'][1]), 'a == b and b == c do not give a == c: %s' % show(T[o])[:160], f['q'])
                if dg[0] == 'c' and bool(dg[1]) != want: res.violation('refl:%s:%s:%s' % (h, c, o), '%s:%d' % (h, f['loc'][1]), 'x %s x is %s' % (o, bool(dg[1])), f['q'])
    for h, n, g, S, d in cmps:
        where = '%s:%d' % (h, g['loc'][1])
        res.count('comparators handed to ordering algorithms')
        try: t = S.call(g)
        except Opaque:
            try:
                for r, l in Walk(S).run(g):
                    if r[0] == 'c' and r[1]: res.violation('irr:%s:%s' % (h, n), '%s:%d' % (h, l or g['loc'][1]), 'comparing an element with itself says "less"', g['q'])
            except Opaque: res.count('comparison bodies not followed')
            continue
        if t is None: continue
        comparator(res, '%s comparator' % n, where, t, g, S)
    fz = json.load(open(OUT)); cur = eqfields(fam)
    for k, (names, allf) in sorted(fz.items()):
        if k not in cur: continue
        n2, a2, f = cur[k]; res.count('equality field sets compared')
        for x in names:
            if x not in n2 and x in a2: res.violation('eqf:%s:%s' % (k, x), '%s:%d' % (k.split(':')[0], f['loc'][1]), 'the equality test no longer compares %s' % x, f['q'])
    res.floor('comparison operators analysed', 100); res.floor('operator pairs decided', 60); res.floor('comparators handed to ordering algorithms', 10)


def mentions(t, n): return any(isinstance(x, tuple) and len(x) > 1 and x[0] == 'call' and x[1] == n for x in flat(t))
