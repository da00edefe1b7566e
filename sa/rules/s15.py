"""Operator families. Every arithmetic, bitwise, shift and increment operator of a library type is evaluated symbolically. A binary operator that goes through its compound partner (or the other way round) must use the same symbol and operand order (a - b through + only with the negated operand, a / b through * only with the inverse), and not both through each other. Operators written out as formulas are compared field by field as polynomials: a op b with a op= b, a - b with a + (-b), a + (-a) with zero, c * a with a * c, ++a with a += 1. Post-increment returns the value from before, compound operators return their left operand, unary plus returns its operand, and a op= a is what a op= b gives for equal operands. Loops that work element by element must combine the elements with the operator's own symbol at one index."""
import re
import extract as X
from flow import walk, strip, lit
from sym import Sym, Opaque, sub, show, field
TECHNIQUE = 'symbolic evaluation of operator bodies; delegation shape and polynomial normal forms compared within each operator family; element-wise loop pattern analysis'
A, B = ('P', 0), ('P', 1)
BIN = {'+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'}
NONCOMM = re.compile(r'[Mm]atrix|Permutation|[Aa]ffine|quaternion|geometry3d|array<|vector')


def tname(s): return re.sub(r'\b(const|struct|class|typename)\b|[&\s]', '', s)


def kind(s):
    s = tname(s)
    return re.sub(r'<.*', '', s).split('::')[-1] if s.startswith('suisen::') else s


def wrapless(t):
    """value-preserving wrappers off"""
    while t[0] == 'new1' or t[0] == 'new' and len(t[1]) == 1: t = t[1] if t[0] == 'new1' else t[1][0]
    if t[0] == 'new' and len(t[1]) == 2 and t[1][1] == ('c', 0) and t[1][0] in (A, B): return t[1][0]     # a scalar as a pair with zero
    return t


def deep(t):
    if not isinstance(t, tuple) or not t: return t
    if isinstance(t[0], str):
        u = wrapless(t)
        if u != t: return deep(u)
    return tuple(deep(x) if isinstance(x, tuple) else x for x in t)


def linear(t):
    """coefficients of (A, B) when t is a sum of bare operands"""
    t = wrapless(t)
    if t == A: return (1, 0)
    if t == B: return (0, 1)
    if t == ('c', 0): return (0, 0)
    if t[0] == 'un' and t[1] == '-':
        x = linear(t[2]); return None if x is None else (-x[0], -x[1])
    if t[0] == 'op' and t[1] in '+-':
        x, y = linear(t[2]), linear(t[3])
        if x is None or y is None: return None
        g = 1 if t[1] == '+' else -1
        return (x[0] + g * y[0], x[1] + g * y[1])
    return None


def inverse(t):
    """x when t is x^-1"""
    t = wrapless(t)
    if t[0] == 'deref': t = t[1]
    if t[0] == 'm' and re.search('inv', str(t[1])) and not t[3]: return wrapless(t[2])
    if t[0] == 'call' and re.search('inv', str(t[1])) and len(t[2]) == 1: return wrapless(t[2][0])
    if t[0] == 'op' and t[1] == '/' and wrapless(t[2]) in (('c', 1), ('s', '1'), ('s', '1.0')): return wrapless(t[3])
    return None


def factors(t):
    """ordered list of (operand, exponent) when t is a product of bare operands and inverses"""
    t = wrapless(t)
    if t in (A, B): return [(t, 1)]
    i = inverse(t)
    if i in (A, B): return [(i, -1)]
    if t[0] == 'op' and t[1] in ('*', '/'):
        x, y = factors(t[2]), factors(t[3])
        if x is None or y is None: return None
        return x + (y if t[1] == '*' else [(a, -e) for a, e in reversed(y)])
    return None


def poly(t):
    t = wrapless(t)
    if t[0] == 'c': return {(): t[1]} if t[1] else {}
    if t[0] == 'un' and t[1] == '-': return {m: -c for m, c in poly(t[2]).items()}
    if t[0] == 'un' and t[1] == '+': return poly(t[2])
    if t[0] == 'op' and t[1] in ('+', '-'):
        p = dict(poly(t[2])); g = 1 if t[1] == '+' else -1
        for m, c in poly(t[3]).items():
            p[m] = p.get(m, 0) + g * c
            if not p[m]: del p[m]
        return p
    if t[0] == 'op' and t[1] == '*':
        p = {}
        for m, c in poly(t[2]).items():
            for n, e in poly(t[3]).items():
                k = tuple(sorted(m + n)); p[k] = p.get(k, 0) + c * e
                if not p[k]: del p[k]
        return p
    return {(repr(canon(t)),): 1}


def canon(t):
    if not isinstance(t, tuple) or not t: return t
    if isinstance(t[0], str):
        t = wrapless(t)
        if t[0] == 'op' and t[1] in ('+', '-', '*'): return ('poly', tuple(sorted(poly(t).items())))
        if t[0] == 'call' and t[1] in ('gcd', 'min', 'max', 'lcm'): return (t[0], t[1], tuple(sorted((canon(x) for x in t[2]), key=repr)))
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def pure(t):
    """a polynomial in fields of the operands (no opaque part)"""
    t = wrapless(t)
    if t[0] == 'c' or t in (A, B): return True
    if t[0] == 'f': return pure(t[1]) or t[1] in (A, B)
    if t[0] == 'un' and t[1] in '+-': return pure(t[2])
    if t[0] == 'op' and t[1] in ('+', '-', '*'): return pure(t[2]) and pure(t[3])
    return False


class Op:
    pass


def collect():
    """operators per header"""
    out = []
    for h, j in sorted(X.run_headers().items()):
        d = X.load(j); S = Sym(d); rec = {r['id']: r for r in d['records']}
        for f in d['funcs']:
            op = f.get('op')
            if f.get('inst') or not op or not isinstance(f.get('body'), dict) or X.rel(d['files'][f['loc'][0]]) != h: continue
            if not (op in BIN or op[:-1] in BIN and op.endswith('=') or op in ('++', '--', '~')): continue
            if f.get('cls') in S.lam: continue
            o = Op(); o.h = h; o.f = f; o.S = S; o.d = d; o.op = op; o.where = '%s:%d' % (h, f['loc'][1])
            mem = f.get('cls') is not None and not f.get('friend') and not f.get('static')
            ts = [tname(d['types'][p['t']]['s']) for p in f['p']]
            if any('stream' in t or t.startswith('type-parameter') and op in ('<<', '>>') for t in ts): continue
            if mem: ts = [rec[f['cls']].get('full') or rec[f['cls']]['n']] + ts
            if not mem and op in ('++', '--') and len(ts) == 2: pass
            o.kinds = tuple(kind(t) for t in ts); o.n = len(ts); o.rec = rec.get(f.get('cls')) if mem else next((r for r in d['records'] if r.get('lib') and r['n'] in o.kinds), None)
            o.ret = d['types'][f['ret']]['s'] if 'ret' in f and f['ret'] >= 0 else ''
            o.post = op in ('++', '--') and o.n == 2
            o.comp = op in ('++', '--') or op.endswith('=')
            o.term = o.state = None
            try: r = S.call(f, effects=True)
            except Opaque: r = None
            if r is not None and r[0] == 'pair': o.state, o.term = r[1], r[2]
            out.append(o)
    return out


def ctorfields(o, args):
    """fields of an object built from args"""
    r = o.rec
    if pairtype(o): return dict(zip(('first', 'second'), args)) if len(args) == 2 else None
    if r is None: return None
    names = [x['n'] for x in r.get('fields') or []]
    cts = [f for f in o.d['funcs'] if f.get('ctor') and f.get('cls') == r['id'] and len(f['p']) == len(args) and not f.get('inst')]
    if not cts: return dict(zip(names, args)) if len(names) == len(args) and not any(f.get('ctor') and f.get('cls') == r['id'] for f in o.d['funcs']) else None
    if len(cts) != 1 or (cts[0].get('body') or {}).get('s'): return None
    f = cts[0]; ids = {p['id']: i for i, p in enumerate(f['p'])}; out = {}
    for i in f.get('inits') or []:
        x = i.get('e'); n = 0
        while isinstance(x, dict) and x.get('k') != 'ref' and n < 5:
            a = x.get('a') if isinstance(x.get('a'), list) else [x['e']] if isinstance(x.get('e'), dict) else []
            x = strip(a[0]) if len(a) == 1 else None; n += 1
        if not isinstance(x, dict) or x.get('d') not in ids: return None
        out[i['n']] = args[ids[x['d']]]
    return out if set(out) == set(names) else None


def bare(t):
    """mentions the whole right operand"""
    if t == B: return True
    return isinstance(t, tuple) and bool(t) and t[0] != 'f' and any(bare(x) for x in t)


def pairtype(o): return o.rec is None and any(k.startswith('std::pair<') for k in o.kinds)


OPS = []


def fieldmap(o, t, depth=0):
    if o.rec is None and not pairtype(o): return None
    names = ['first', 'second'] if pairtype(o) else [x['n'] for x in o.rec.get('fields') or []]
    if not names: return None
    if t[0] == 'new1' and t[1][0] in ('new', 'P', 'upd'): t = t[1]
    if t[0] == 'new1': return ctorfields(o, [t[1]])
    if t[0] == 'new' and len(t[1]) == 1 and t[1][0][0] == 'new': t = t[1][0]
    if t in (A, B): return {n: ('f', t, n) for n in names}
    if t[0] == 'upd':
        b = fieldmap(o, t[1], depth + 1)
        return None if b is None else {**b, t[2]: t[3]}
    if t[0] == 'new': return ctorfields(o, list(t[1]))
    if t[0] == 'op' and t[1] in BIN and depth < 3:
        # through the compound operator of the class
        x = fieldmap(o, t[2], depth + 1)
        ps = [p for p in OPS if p.h == o.h and p.rec is o.rec and p.op == t[1] + '=' and p.n == 2 and p.state is not None and p.state != A and p.state[0] in ('upd', 'new')]
        y = wrapless(t[3])
        if y != B and o.kinds[0] == o.kinds[-1] and o.n == 2 and bare(y): return None
        ps = [p for p in ps if (p.kinds[0] == p.kinds[1]) == (y == B and o.n == 2 and o.kinds[1] == o.kinds[0])]
        if x and len(ps) == 1:
            g = fieldmap(ps[0], ps[0].state, 3)
            if g and all(pure(v) for v in g.values()):
                m = {('f', A, n): v for n, v in x.items()}; m[B] = y
                return {n: both(v, m, {}) for n, v in g.items()}
    return None


def run(res, tier):
    ops = collect(); fam = {}; OPS[:] = ops
    for o in ops: fam.setdefault((o.h, o.op, o.n if o.op in ('+', '-', '*', '++', '--') else 0), []).append(o)
    def find(h, op, kinds, n=None): return [o for o in ops if o.h == h and o.op == op and o.kinds == kinds]
    for o in ops:
        res.count('operators analysed'); key = '%s:%s(%s)' % (o.h, o.op, ','.join(o.kinds)); t = o.term
        if o.post:
            if t is None: continue
            res.count('post-increments decided')
            if o.state is not None and wrapless(t) != A and wrapless(t) == wrapless(o.state): res.violation('post:' + key, o.where, 'post%s returns the new value' % o.op, o.f['q'])
            elif o.state == A and o.term == A and any(x.get('k') in ('un', 'call') for x in walk(o.f['body'])) is False: res.violation('post:' + key, o.where, 'post%s does not change the object' % o.op, o.f['q'])
            elif o.state is not None and o.state[0] == 'op' and o.state[1] in '+-' and o.state[2] == A and o.state[3] == ('c', 1) and o.state[1] != o.op[0]: res.violation('post:' + key, o.where, 'post%s steps in the wrong direction' % o.op, o.f['q'])
            continue
        if o.n == 1 and o.op == '+' and t is not None:
            res.count('unary operators decided')
            if wrapless(t) != A and linear(t) not in (None, (1, 0)): res.violation('uplus:' + key, o.where, 'unary + returns %s' % show(t)[:100], o.f['q'])
            continue
        if o.n == 1 and o.op == '-' and t is not None:
            l = linear(t); res.count('unary operators decided')
            if l is not None and l != (-1, 0) and not chartwo(ops, o): res.violation('uminus:' + key, o.where, 'unary - returns %s' % show(t)[:100], o.f['q'])
            fm = fieldmap(o, t)
            if fm:
                for n, v in fm.items():
                    p = poly(('op', '+', v, ('f', A, n)))
                    if pure(v) and p and not chartwo(ops, o) and v != ('f', A, n): res.violation('uminus:%s:%s' % (key, n), o.where, 'field %s of -a is %s' % (n, show(v)[:80]), o.f['q'])
                if all(pure(v) and v == ('f', A, n) for n, v in fm.items()) and not chartwo(ops, o): res.violation('uminus:' + key, o.where, '-a returns a unchanged', o.f['q'])
            continue
        if o.n == 1 and o.op in ('++', '--'):
            if o.state is None or o.state == A: continue
            want = o.op[0]; res.count('increments decided'); s = o.state
            if s[0] == 'op' and s[2] == A and s[3] == ('c', 1) and s[1] in '+-' and s[1] != want: res.violation('inc:' + key, o.where, '%s goes in the other direction' % o.op, o.f['q'])
            fm = fieldmap(o, s)
            if fm:
                for p in ops:
                    if p.h == o.h and p.op == want + '=' and p.n == 2 and p.kinds[0] == o.kinds[0] and p.kinds[1] != o.kinds[0] and p.state is not None:
                        g = fieldmap(p, p.state)
                        if g and all(pure(v) for v in g.values()) and all(pure(v) for v in fm.values()):
                            for n in fm:
                                if poly(fm[n]) != poly(sub(g[n], {B: ('c', 1)})): res.violation('inc1:%s:%s' % (key, n), o.where, '%sa and a %s 1 differ in %s' % (o.op, want + '=', n), o.f['q'])
            continue
        if o.n != 2: continue
        sym = o.op[:-1] if o.comp else o.op; same = o.kinds[0] == o.kinds[1]
        val = o.state if o.comp else t
        elementwise(res, o, sym, key)
        if val is None: res.count('operator bodies with loops'); continue
        if o.comp:
            if t is not None and t != ('s', 'void') and o.state != A and wrapless(t) != wrapless(o.state) and t[0] != 'm' and '&' in o.ret: res.violation('ret:' + key, o.where, '%s returns %s instead of its left operand' % (o.op, show(t)[:80]), o.f['q'])
            alias(res, o, key)
            if val == A: continue
        fl = [x['n'] for x in (o.rec or {}).get('fields') or []]
        if len(fl) == 1: val = sub(val, {('new1', ('f', P, fl[0])): P for P in (A, B)})
        u = wrapless(deep(val))
        ok = decide(u, sym, same, o)
        if ok is not None:
            res.count('delegations decided')
            if not ok and not (sym in '+-' and chartwo(ops, o)): res.violation('deleg:' + key, o.where, 'a %s b computes %s' % (o.op, show(u)[:100]), o.f['q'])
        if not o.comp:
            # both through each other
            for p in find(o.h, o.op + '=', o.kinds):
                if uses(o, sym, True) and uses(p, sym, False) and p.state is not None and wrapless(p.state)[:2] == ('op', sym) and u[:2] == ('op', sym): res.violation('cycle:' + key, o.where, 'a %s b and a %s= b are defined through each other' % (sym, sym), o.f['q'])
                x, y = fieldmap(o, t), fieldmap(p, p.state) if p.state is not None else None
                if x and y:
                    res.count('formula pairs decided')
                    for n in x:
                        if pure(x[n]) and pure(y[n]) and poly(x[n]) != poly(y[n]): res.violation('pair:%s:%s' % (key, n), o.where, 'a %s b and a %s= b differ in %s: %s against %s' % (sym, sym, n, show(x[n])[:60], show(y[n])[:60]), o.f['q'])
            if sym in ('+', '*') and not same:
                for p in find(o.h, o.op, o.kinds[::-1]):
                    if p is o or o.f['id'] > p.f['id']: continue
                    x, y = fieldmap(o, t), fieldmap(p, sub(p.term, {A: B, B: A})) if p.term is not None else None
                    if x and y:
                        res.count('formula pairs decided')
                        for n in x:
                            if pure(x[n]) and pure(y[n]) and poly(x[n]) != poly(y[n]): res.violation('comm:%s:%s' % (key, n), o.where, 'a %s c and c %s a differ in %s: %s against %s' % (sym, sym, n, show(x[n])[:60], show(y[n])[:60]), o.f['q'])
        if sym == '-' and not o.comp and same and o.rec is not None and kind(o.ret) != o.kinds[0]: distance(res, o, ops, t, key)
        # a - b against a + (-b)
        if sym == '-':
            plus = find(o.h, '+=' if o.comp else '+', o.kinds)
            neg = find(o.h, '-', o.kinds[:1])
            for p in plus:
                v = p.state if o.comp else p.term
                if v is None: continue
                x, y = fieldmap(o, val), fieldmap(p, v)
                if not x or not y:
                    # one-component results
                    if not o.comp and pure(val) and pure(v) and not chartwo(ops, o) and same and val[0] != 'P' and v[0] != 'P' and linear(val) is None and poly(val) == poly(v): res.violation('minus:' + key, o.where, 'a - b and a + b compute the same', o.f['q'])
                    continue
                if not same: nb = {('f', B, n): ('un', '-', ('f', B, n)) for n in y}; nb[B] = ('un', '-', B); z = {n: sub(t2, nb) for n, t2 in y.items()}
                else:
                    ng = fieldmap(neg[0], neg[0].term) if neg and neg[0].term is not None else None
                    if ng is None:
                        if not all(lin(v2) for v2 in y.values()): continue
                        ng = {n: ('un', '-', ('f', A, n)) for n in y}
                    m = {('f', B, n): sub(ng[n], {A: B}) for n in ng}; z = {n: sub(t2, m) for n, t2 in y.items()}
                if chartwo(ops, o): continue
                res.count('formula pairs decided')
                for n in x:
                    if n in z and pure(x[n]) and pure(z[n]) and poly(x[n]) != poly(z[n]): res.violation('minus:%s:%s' % (key, n), o.where, 'a - b and a + (-b) differ in %s: %s against %s' % (n, show(x[n])[:60], show(z[n])[:60]), o.f['q'])
    shapes(res, ops)
    res.floor('operators analysed', 400); res.floor('delegations decided', 150); res.floor('formula pairs decided', 15)


def distance(res, o, ops, t, key):
    """a difference of positions: (a + n) - a is n"""
    num, den = (t[2], t[3]) if t[0] == 'op' and t[1] == '/' else (t, ('c', 1))
    if not pure(num) or not pure(den): return
    for p in ops:
        if p.h == o.h and p.op == '+=' and p.n == 2 and p.kinds[0] == o.kinds[0] and p.kinds[1] != o.kinds[0] and p.state is not None and p.rec is o.rec:
            g = fieldmap(p, p.state)
            if not g or g == fieldmap(p, A) or not all(pure(v) for v in g.values()): continue
            m = {('f', A, n): v for n, v in g.items()}; m2 = {('f', B, n): ('f', A, n) for n in g}
            N = both(num, m, m2); D = both(den, m, m2); res.count('position differences decided')
            if poly(N) != poly(('op', '*', B, D)): res.violation('dist:' + key, o.where, '(a + n) - a computes %s' % show(N)[:80], o.f['q'])
            return
    q = poly(num)
    if len(q) == 2 and den == ('c', 1) and all(len(k) == 1 for k in q):
        res.count('position differences decided')
        for k, c in q.items():
            if repr(A) in k[0] and c < 0: res.violation('dist:' + key, o.where, 'the distance from b to a is %s' % show(t)[:80], o.f['q'])


def both(t, m, m2):
    """simultaneous substitution"""
    if t in m: return m[t]
    if t in m2: return m2[t]
    if isinstance(t, tuple): return tuple(both(x, m, m2) if isinstance(x, tuple) else x for x in t)
    return t


def lin(t): return pure(t) and all(len(m) <= 1 for m in poly(t))


def decide(u, sym, same, o):
    """True right, False wrong, None not a combination of the bare operands"""
    if u[0] == 'op' and u[1] in BIN and {wrapless(u[2]), wrapless(u[3])} == {A, B} and (u[1] == sym or u[1] not in '+-*/' or sym not in '+-*/'):
        if u[1] != sym: return False
        if wrapless(u[2]) == A: return True
        if sym in ('+', '&', '|', '^'): return not same or not any('vector' in k or 'string' in k for k in o.kinds)
        if sym == '*': return not same or not NONCOMM.search(' '.join(o.kinds) + o.h)
        return False
    if sym in '+-':
        l = linear(u)
        if l is not None and u not in (A, B): return l == ((1, 1) if sym == '+' else (1, -1))
        if u[0] == 'op' and factors(u) is not None: return False
    if sym in '*/':
        f = factors(u)
        if f is not None and len(f) == 2:
            want = [(A, 1), (B, 1 if sym == '*' else -1)]
            if f == want: return True
            if sorted(f) == sorted(want): return not same or not NONCOMM.search(' '.join(o.kinds) + o.h)
            return False
        if u[0] == 'op' and linear(u) is not None and u not in (A, B): return False
    return None


def chartwo(ops, o):
    """+ and - coincide in this type (characteristic two)"""
    return bool(re.search(r'nimber|f2|F2|bitset|bool', ' '.join(o.kinds) + o.h))


def uses(o, sym, comp):
    """the body applies sym= (comp) or sym to class operands"""
    w = sym + '=' if comp else sym
    return any((x.get('k') == 'bin' and x['op'] == w) or (x.get('k') == 'call' and x.get('opc') == w) for x in walk(o.f['body']))


def alias(res, o, key):
    """a op= a: the right operand is the object being changed"""
    if o.kinds[0] != o.kinds[1] or o.n != 2: return
    p = o.f['p'][-1]
    ty = o.d['types'][p['t']]['s']
    if '&' not in ty: return
    S = Alias(o.d, p['id'], 'this' if len(o.f['p']) == 1 else o.f['p'][0]['id'])
    try: r = S.call(o.f, effects=True)
    except Opaque: return
    if r is None or r[0] != 'pair' or r[1] is None or o.state is None: return
    want = deep(sub(o.state, {B: A})); got = deep(sub(r[1], {B: A}))
    res.count('self operands decided')
    x, y = fieldmap(o, want), fieldmap(o, got)
    if x and y:
        for n in x:
            if pure(x[n]) and pure(y[n]) and poly(x[n]) != poly(y[n]): res.violation('alias:%s:%s' % (key, n), o.where, 'a %s a computes %s for %s where equal operands give %s' % (o.op, show(y[n])[:60], n, show(x[n])[:60]), o.f['q'])


class Alias(Sym):
    def __init__(s, d, pid, key): super().__init__(d); s.pid = pid; s.key = key
    def ev(s, e, env):
        e2 = strip(e)
        if isinstance(e2, dict) and e2.get('k') == 'ref' and e2.get('d') == s.pid and s.key in env: return env[s.key]
        return super().ev(e, env)


def root(e, binds):
    """('A'|'B', [index texts]) of an element expression"""
    e = strip(e); idx = []
    while isinstance(e, dict):
        k = e.get('k')
        if k == 'idx': idx.append(text(e['i'] if 'i' in e else e['b'])); e = strip(e['a'] if 'a' in e else e['b']); continue
        if k == 'call' and e.get('opc') == '[]':
            a = ([e['o']] if e.get('o') is not None else []) + list(e.get('a') or []); idx.append(text(a[1])); e = strip(a[0]); continue
        if k == 'call' and not e.get('opc') and len(e.get('a') or []) == 1 and (e.get('o') is not None or (strip(e.get('fe')) or {}).get('k') == 'mem' or (e.get('n') or '').endswith('get')):
            fe = strip(e.get('fe')) or {}; idx.append(text(e['a'][0])); b = e.get('o') if e.get('o') is not None else fe.get('b')
            e = strip(b) if b is not None else {'k': 'this'}; continue
        if k == 'un' and e['op'] == '*': e = strip(e['e']); continue
        if k == 'mem': e = strip(e['b']) if e.get('b') is not None else {'k': 'this'}; continue
        if k == 'this': return binds.get('this'), idx[::-1]
        if k == 'ref': return binds.get(e.get('d')), idx[::-1]
        return None, []
    return None, []


def text(e):
    e = strip(e)
    if not isinstance(e, dict): return '?'
    if e.get('k') == 'ref': return 'v%s' % e.get('d', e.get('n'))
    if lit(e) is not None: return str(lit(e))
    if e.get('k') == 'bin': return '(%s%s%s)' % (text(e['a']), e['op'], text(e['b']))
    return '?%s' % e.get('k')


def elementwise(res, o, sym, key):
    if sym not in ('+', '-', '&', '|', '^') and not (sym in ('*', '/') and o.kinds[0] != o.kinds[1]): return
    if sym in '+-' and chartwo(None, o): return
    body = o.f['body']; binds = {}
    if len(o.f['p']) == 1: binds['this'] = 'A'; binds[o.f['p'][0]['id']] = 'B'
    else: binds[o.f['p'][0]['id']] = 'A'; binds[o.f['p'][1]['id']] = 'B'
    for st in walk(body):
        if st.get('k') == 'decl':
            for v in st['v']:
                e = strip(v['e']) if v.get('e') is not None else None
                while isinstance(e, dict) and e.get('k') in ('ctor', 'x', 'init', 'pinit') and isinstance(e.get('a'), list) and len(e['a']) == 1: e = strip(e['a'][0])
                if isinstance(e, dict):
                    r, i = root(e, binds)
                    if r and not i and e.get('k') in ('ref', 'un', 'this') : binds[v['id']] = r
                    n = (e.get('n') or (strip(e.get('fe')) or {}).get('n') or '') if e.get('k') == 'call' else ''
                    if 'inv' in n:
                        w = (e.get('a') or [None])[0] if e.get('a') else e.get('o') if e.get('o') is not None else (strip(e.get('fe')) or {}).get('b')
                        if w is not None and root(w, binds) == ('B', []): binds[v['id']] = 'I'
        if st.get('k') == 'rfor':
            v = st.get('v') or st.get('var')
            v = v[0] if isinstance(v, list) and v else v
            e = st.get('r') if st.get('r') is not None else st.get('e')
            if isinstance(v, dict) and 'id' in v and e is not None:
                r, i = root(e, binds)
                if r: binds[v['id']] = r
    ne = 0
    for x in walk(body):
        op = x['op'] if x.get('k') == 'bin' else x.get('opc') if x.get('k') == 'call' else None
        if not op: continue
        a = [x['a'], x['b']] if x.get('k') == 'bin' else ([x['o']] if x.get('o') is not None else []) + list(x.get('a') or [])
        if len(a) != 2: continue
        if op.endswith('=') and op[:-1] in BIN: s2 = op[:-1]; l, r = a
        elif op == '=':
            q = strip(a[1]); c = called(q)
            if c is not None:
                s2, l, r = c
                if s2 is None: continue
                q = None
            else: qo = q.get('op') if isinstance(q, dict) and q.get('k') == 'bin' else q.get('opc') if isinstance(q, dict) and q.get('k') == 'call' else None
            if q is not None:
                if qo not in BIN: continue
                b = [q['a'], q['b']] if q.get('k') == 'bin' else ([q['o']] if q.get('o') is not None else []) + list(q.get('a') or [])
                if len(b) != 2: continue
                s2 = qo; l, r = b
        else: continue
        (ra, ia), (rb, ib) = root(l, binds), root(r, binds)
        if rb == 'I' and s2 in ('*', '/'): s2 = '/' if s2 == '*' else '*'; rb = 'B'
        if ra != 'A' or rb != 'B' or (not ia and strip(l).get('k') != 'ref') or isbare(l, o): continue
        if o.kinds[0] == o.kinds[1] and not ib and not isref_elem(r, o): continue
        ne += 1; res.count('element-wise combinations decided')
        if s2 != sym: res.violation('elem:' + key, '%s:%d' % (o.h, x.get('l') or o.f['loc'][1]), 'a %s b combines elements with %s' % (o.op, s2), o.f['q'])
        elif o.kinds[0] == o.kinds[1] and ia and ib and len(ia) == len(ib) and not any(q.startswith('?') or '?' in q for q in ia + ib) and ia != ib: res.violation('elemidx:' + key, '%s:%d' % (o.h, x.get('l') or o.f['loc'][1]), 'a %s b combines elements at different positions' % o.op, o.f['q'])


def shape(o):
    """(bounds of the loops, whether the left operand is made long enough) of an element-wise body"""
    env = o.S.operands(o.f); out = []
    def bound(e):
        try: return o.S.ev(e, dict(env))
        except Opaque: return None
    for st in walk(o.f['body']):
        if st.get('k') == 'decl':
            for v in st['v']:
                if v.get('e') is not None and not v.get('binds'):
                    try: env[v['id']] = o.S.ev(v['e'], dict(env))
                    except Opaque: pass
        if st.get('k') == 'for':
            i, c = st.get('init'), strip(st.get('c')) if st.get('c') is not None else None
            if not isinstance(i, dict) or i.get('k') != 'decl' or not isinstance(c, dict) or c.get('k') != 'bin' or c['op'] not in ('<', '<=', '!='): return None
            v = i['v'][0]; x = strip(c['a'])
            if not isinstance(x, dict) or x.get('d') != v['id'] or v.get('e') is None: return None
            lo, hi = bound(v['e']), bound(c['b'])
            if lo is None or hi is None: return None
            out.append((poly(lo), poly(('op', '+', hi, ('c', 1)) if c['op'] == '<=' else hi)))
        if st.get('k') in ('while', 'do', 'rfor'): return None
    grow = any(x.get('k') == 'call' and re.search(r'resize|ensure|reserve_to|extend', x.get('n') or (strip(x.get('fe')) or {}).get('n') or '') for x in walk(o.f['body']))
    return out, grow


def constdiff(p, q):
    d = dict(p)
    for m, c in q.items():
        d[m] = d.get(m, 0) - c
        if not d[m]: del d[m]
    return set(d) <= {()} and bool(d)


def shapes(res, ops):
    for o in ops:
        if o.op not in ('+', '+=') or o.n != 2: continue
        for p in ops:
            if p.h != o.h or p.op != o.op.replace('+', '-') or p.kinds != o.kinds or p.rec is not o.rec: continue
            x, y = shape(o), shape(p)
            if not x or not y or not x[0] or len(x[0]) != len(y[0]): continue
            res.count('loop ranges compared')
            for (a, b), (c, e) in zip(x[0], y[0]):
                if constdiff(a, c) or constdiff(b, e): res.violation('range:%s:%s' % (o.h, ','.join(o.kinds)), p.where, 'a %s b and a %s b run over different ranges of elements' % (o.op, p.op), p.f['q'])
            if x[1] != y[1]: res.violation('grow:%s:%s' % (o.h, ','.join(o.kinds)), (p if x[1] else o).where, '%s makes room for the longer operand, %s does not' % ((o.op, p.op) if x[1] else (p.op, o.op)), (p if x[1] else o).f['q'])


def called(q):
    """(symbol, x, y) of add(x, y), add(x, neg(y)), mul(x, y)"""
    if not isinstance(q, dict) or q.get('k') != 'call' or q.get('opc') or len(q.get('a') or []) != 2: return None
    n = q.get('n') or (strip(q.get('fe')) or {}).get('n') or ''
    x, y = q['a']
    if re.fullmatch(r'_?add', n):
        z = strip(y); zn = (z.get('n') or (strip(z.get('fe')) or {}).get('n') or '') if isinstance(z, dict) and z.get('k') == 'call' else ''
        if re.fullmatch(r'_?neg', zn) and len(z.get('a') or []) == 1: return '-', x, z['a'][0]
        return '+', x, y
    if re.fullmatch(r'_?mul', n): return '*', x, y
    return None


def isbare(l, o):
    """the whole operand, not an element"""
    e = strip(l); ids = {p['id'] for p in o.f['p']}
    if isinstance(e, dict) and e.get('k') == 'un' and e['op'] == '*': e = strip(e['e'])
    return isinstance(e, dict) and (e.get('k') == 'this' or e.get('k') == 'ref' and e.get('d') in ids)


def isref_elem(r, o):
    e = strip(r); ids = {p['id'] for p in o.f['p']}
    return isinstance(e, dict) and e.get('k') == 'ref' and e.get('d') not in ids
