"""Fold order. Every call of a user-supplied product (a template parameter of type X(X, X)) and every concatenation of sequence trees is read as a word; each operand is traced to its place in the sequence: left subtree / own element / right subtree of the same node, cell 2k / 2k+1 of the same array (more generally cells whose indices differ by a constant or a power of two), the parts of one split in order, a range end l before a range end r, the front or back stack of a queue. A word in which a later place stands before an earlier one is a violation. An accumulator that is extended on its right must be extended by ascending places, one extended on its left by descending places, and a left part is completed by op(right-extended, left-extended). A tree that reverses a subtree by exchanging children also turns its stored product around."""
import re
import extract as X
import crtp
from flow import walk, strip, lit, kids
TECHNIQUE = 'order analysis of every product and concatenation: operands traced to sequence places (child side, index form, split part, accumulator direction), words checked for inversions'
SKIPF = {'rotate'}
CAT = {'merge', 'concat'}
# classes whose product is documented or required to be commutative
COMM = re.compile(r'Fenwick|Contour|ReRooting|Rerooting|RMQpm1|WeightedUnionFind|FunctionalGraph.*fold_cycle|CentroidDecomposition|Commutative|CumulativeSum')
WRAPN = {'move', 'forward', 'as_const', 'clone', 'push', 'update', 'get', 'exchange', 'ref', 'splay', 'operator*'}
SIDE = {'left': 0, 'right': 2, 'lch': 0, 'rch': 2, 'child0': 0, 'child1': 2, 'get_child0': 0, 'get_child1': 2, 'left_child': 0, 'right_child': 2, 'lc': 0, 'rc': 2}
NEUTRAL = ('neutral',)


def name(x):
    if not isinstance(x, dict): return None
    n = x.get('n')
    if n is None and isinstance(x.get('fe'), dict): n = strip(x['fe']).get('n')
    return n


def args(x): return [a for a in (x.get('a') or []) if isinstance(a, dict)]


def is_product_type(s):
    m = re.match(r'^(.+?) \(\*?(?:const)?\)\((.*)\)$', s or '')
    if not m: return None
    ps = [p.strip() for p in m.group(2).split(',')]
    cl = lambda t: re.sub(r'\bconst\b|&', '', t).strip()
    if len(ps) == 2 and cl(ps[0]) == cl(ps[1]) == cl(m.group(1)) and cl(m.group(1)).startswith('type-parameter'): return cl(m.group(1))
    return None


class Fn:
    def __init__(s, d, f, acted, byname, orient=None):
        s.d = d; s.T = d['types']; s.f = f; s.acted = acted; s.byname = byname; s.orient = orient or {}
        s.par = {p['id']: i for i, p in enumerate(f['p'])}
        s.defs = {}; s.asc = {}; s.busy = set(); s.cats = {"concat"} if "concat" in byname and "merge" in byname else CAT
        s.pos = {}; s.path = {}; s.loops = {}
        s.ends = set(); s.index(f.get('body'), (), ())
        for x in walk(f.get('body')):
            k = x.get('k'); at = s.pos[id(x)]
            if k == 'decl' or k in ('if', 'while', 'for') and isinstance(x.get('cv'), dict):
                for v in (x['v'] if k == 'decl' else [x['cv']]):
                    if v.get('binds'):
                        for n, b in enumerate(v['binds']): s.define(b['id'] if isinstance(b, dict) else b, x, ('bind', id(v), n, v.get('e')))
                    elif v.get('e') is not None: s.define(v['id'], x, ('expr', v['e']))
            if k == 'bin' and x['op'] == '=' or k == 'call' and x.get('opc') == '=':
                a, b = (x['a'], x['b']) if k == 'bin' else ((x['o'], x['a'][0]) if x.get('o') is not None else x['a'][:2])
                l = strip(a)
                if l.get('k') == 'ref': s.define(l.get('d'), x, ('expr', b))
                if name(l) == 'tie' and l.get('k') == 'call':
                    for n, y in enumerate(args(l)):
                        y = strip(y)
                        if y.get('k') == 'ref': s.define(y.get('d'), x, ('bind', id(x), n, b))
            for v, dr in steps(x): s.asc.setdefault(v, []).append((s.loops[id(x)], dr, id(x)))

    def index(s, n, path, loops):
        if not isinstance(n, dict): return
        s.pos[id(n)] = len(s.pos); s.path[id(n)] = path; s.loops[id(n)] = loops
        k = n.get('k')
        if k in ('for', 'while', 'do', 'rfor'): loops = loops + (id(n),)
        if k == 'block' and n.get('s') and isinstance(n['s'][-1], dict) and n['s'][-1].get('k') == 'ret': s.ends.add((id(n), 's'))
        for key, v in n.items():
            p2 = path
            if k in ('block', 'if', 'for', 'while', 'do', 'rfor', 'lambda', 'cond') and key in ('s', 'a', 'b'): p2 = path + ((id(n), key),)
            for y in v if isinstance(v, list) else [v]:
                if isinstance(y, dict): s.index(y, p2, loops)

    def define(s, i, x, d): s.defs.setdefault(i, []).append((max(s.pos[id(y)] for y in walk(x)) + .5, s.path[id(x)], s.loops[id(x)], d))

    def reaching(s, i, at, path, loops):
        """definitions of variable i that may hold at a place"""
        r = []; ds = s.defs.get(i, [])
        last = -1
        for p, pa, lo, d in ds:
            if p < at and path[:len(pa)] == pa and p > last: last = p
        for p, pa, lo, d in ds:
            if p == last or last < p < at and not exclusive(pa, path) and not any(x in s.ends and x not in path for x in pa): r.append((p, pa, lo, d))
            elif p > at and lo and loops[:1] == lo[:1]: r.append((p, pa, lo, d))
        return r, last >= 0

    # ---- product calls
    def op(s, x):
        """operands of a product call, or None"""
        if x.get('k') != 'call': return None
        fe = strip(x.get('fe')) if x.get('fe') is not None else None
        a = args(x)
        if isinstance(fe, dict) and fe.get('k') == 'ref' and len(a) == 2:
            t = is_product_type(s.T[fe['t']]['s']) if 't' in fe else None
            if t and t not in s.acted: return a
            if fe.get('dk') == 'parm' and fe.get('n') in ('bin_op', 'op', 'prod_op'): return a
        return None

    def cat(s, x):
        if x.get('k') != 'call': return None
        a = args(x)
        if name(x) in s.cats and x.get('o') is None and len(a) in (2, 3): 
            fe = strip(x.get('fe')) if x.get('fe') is not None else {}
            if isinstance(fe, dict) and fe.get('k') == 'mem' and fe.get('b') is not None and strip(fe['b']).get('k') != 'this': return None
            return a
        return None

    # ---- places
    def key(s, e, dep=0):
        e = strip(e)
        if not isinstance(e, dict): return '?'
        k = e.get('k')
        if k == 'ref':
            return 'v%s' % e.get('d') if e.get('d') is not None else 'n' + str(e.get('n'))
        if k == 'this': return 'this'
        if k == 'mem': return '%s.%s' % (s.key(e['b'], dep + 1) if e.get('b') is not None else 'this', e.get('n'))
        if k == 'idx': return '%s[%s]' % (s.key(e['a']), s.key(e['i']))
        if k == 'un' and e['op'] in ('*', '&'): return s.key(e['e'], dep)
        if k == 'call':
            a = args(e)
            if e.get('opc') in ('*', '->') and (e.get('o') is not None or a): return s.key(e.get('o') if e.get('o') is not None else a[0])
            return '%s(%s)' % (name(e), ','.join(s.key(y) for y in ([e['o']] if isinstance(e.get('o'), dict) else []) + a))
        if lit(e) is not None: return str(int(lit(e)))
        if k == 'bin': return '(%s%s%s)' % (s.key(e['a']), e['op'], s.key(e['b']))
        return '%s@%s' % (k, e.get('l'))

    def child(s, e):
        """(node key, side) when e denotes a child link"""
        e = strip(e)
        if not isinstance(e, dict): return None
        k = e.get('k')
        if k == 'idx' or k == 'call' and e.get('opc') == '[]':
            a, i = (e['a'], e['i']) if k == 'idx' else ((e['o'], e['a'][0]) if e.get('o') is not None else e['a'][:2])
            v = lit(i); a = strip(a)
            if v in (0, 1) and isinstance(a, dict) and a.get('k') in ('mem', 'ref') and re.search(r'^_?ch(ild(ren)?)?(_id)?_?$', str(a.get('n'))):
                b = a.get('b') if a.get('k') == 'mem' else None
                return (s.base(b) if b is not None else 'this', 0 if v == 0 else 2)
        if k == 'mem' and e.get('n') in SIDE: return (s.base(e['b']) if e.get('b') is not None else 'this', SIDE[e['n']])
        if k == 'call':
            n = name(e); a = args(e); o = e.get('o')
            fe = strip(e['fe']) if isinstance(e.get('fe'), dict) else None
            if o is None and fe and fe.get('k') == 'mem' and fe.get('b') is not None: o = fe['b']
            if n in SIDE: 
                b = a[0] if a else o
                return (s.base(b) if b is not None else 'this', SIDE[n])
            if n in ('child', 'get_child', '_child') and a and lit(a[-1]) in (0, 1):
                b = a[0] if len(a) > 1 else o
                return (s.base(b) if b is not None else 'this', 2 * lit(a[-1]))
        return None

    def base(s, e): return s.key(e)

    def lin(s, e):
        e = strip(e)
        if not isinstance(e, dict): return {('?',): 1}
        v = lit(e)
        if v is not None: return {(): int(v)}
        k = e.get('k')
        if k == 'bin' and e['op'] in ('+', '-', '|'):
            a, b = s.lin(e['a']), s.lin(e['b'])
            if e['op'] == '|':
                if not (set(b) == {()} and all(c % (2 * b[()]) == 0 for c in a.values())): return {(s.key(e),): 1}
            r = dict(a); g = -1 if e['op'] == '-' else 1
            for t, c in b.items(): r[t] = r.get(t, 0) + g * c
            return {t: c for t, c in r.items() if c}
        if k == 'bin' and e['op'] in ('*', '<<'):
            a, b = s.lin(e['a']), s.lin(e['b'])
            if e['op'] == '<<':
                if set(b) <= {()}: b = {(): 1 << min(b.get((), 0), 60)}
                elif set(a) == {()}: return {('2^' + s.key(e['b']),): a[()]}
                else: return {(s.key(e),): 1}
            for p, q in ((a, b), (b, a)):
                if set(p) <= {()}: return {t: c * p.get((), 0) for t, c in q.items() if c * p.get((), 0)}
            return {(s.key(e),): 1}
        if k == 'un' and e['op'].startswith(('++', '--')): return s.lin(e['e'])
        if k == 'ref':
            ds = s.defs.get(e.get('d'))
            if ds and len(ds) == 1 and ds[0][3][0] == 'expr' and e.get('d') not in s.asc and e.get('d') not in s.busy:
                s.busy.add(e['d'])
                try: r = s.lin(ds[0][3][1])
                finally: s.busy.discard(e['d'])
                return r
        return {(s.key(e),): 1}

    def word(s, e, env=None, depth=8):
        """sequence of places of e"""
        e = strip(e)
        if not isinstance(e, dict) or depth == 0: return [('?',)]
        k = e.get('k'); env = env or {}
        o = s.op(e) or s.cat(e)
        if o: return [p for a in o for p in s.word(a, env, depth)]
        c = s.child(e)
        if c: return [('side',) + c]
        if k == 'null' or k == 'nullptr': return [NEUTRAL]
        if k == 'ref':
            i = e.get('d')
            if i in env: return env[i]
            if id(e) not in s.pos: return [('?',)]
            ds, sure = s.reaching(i, s.pos[id(e)], s.path[id(e)], s.loops[id(e)])
            if any(d[0] == 'expr' and s.inop(d[1], i) and (p > s.pos[id(e)] or lo) for p, _, lo, d in ds): return [('acc', i)]
            if any(d[0] == 'bind' for _, _, _, d in ds) and any(d[0] == 'expr' and s.inop(d[1], i) for _, _, _, d in s.defs[i]): return [('acc', i)]
            if i in s.par and not sure:
                ds = [x for x in ds if not (x[3][0] == 'expr' and refers(x[3][1], i))]
                if not ds: return [('parm', i)]
            if not ds: return [('acc', i)] if i is not None else [('?',)]
            ws = []
            for p, pa, lo, d in ds:
                if (i, p) in s.busy: ws.append([('acc', i)]); continue
                s.busy.add((i, p))
                try:
                    if d[0] == 'expr': ws.append(s.word(d[1], env, depth - 1))
                    else:
                        w = s.word(split_arg(d[3]), env, depth - 1) if d[3] is not None else [('?',)]
                        ws.append([('bind', d[1], d[2], w[0] if len(w) == 1 else ('?',))])
                finally: s.busy.discard((i, p))
            if i in s.par and not sure: ws.append([('parm', i)])
            ws = [w for w in ws if w != [NEUTRAL]]
            if not ws or any(('acc', i) in w for w in ws): return [('acc', i)]
            if all(w == ws[0] for w in ws) and ws[0] != [('?',)]: return ws[0]
            return [('acc', i)] if any(p[0] == 'acc' for w in ws for p in w) else [('?',)]
        if k == 'cond':
            a, b = s.word(e['a'], env, depth - 1), s.word(e['b'], env, depth - 1)
            if a == [NEUTRAL]: return b
            if b == [NEUTRAL] or a == b: return a
            return [('?',)]
        if k == 'un' and e['op'] == '*':
            w = s.word(e['e'], env, depth - 1)
            return w if w[0][0] in ('side', 'bind', 'idx') else [('at', s.key(e['e']))]
        if k == 'mem' and e.get('b') is not None:
            w = s.word(e['b'], env, depth - 1)
            if len(w) == 1 and w[0][0] in ('side', 'bind', 'idx'): return w
            if e.get('n') in SIDE: return [('side', s.base(e['b']), SIDE[e['n']])]
            return [('at', s.key(e['b']), str(e.get('n')))]
        if k == 'idx' or k == 'call' and e.get('opc') == '[]':
            a, i = (e['a'], e['i']) if k == 'idx' else ((e['o'], e['a'][0]) if e.get('o') is not None else e['a'][:2])
            w = s.word(i, env, depth - 1) if strip(i).get('k') == 'ref' else [('side',) + s.child(i)] if s.child(i) else [('?',)]
            if w[0][0] == 'side': return w
            ch = []; cur = e
            while True:
                cur = strip(cur)
                if cur.get('k') == 'idx': ch.append(cur['i']); cur = cur['a']
                elif cur.get('k') == 'call' and cur.get('opc') == '[]':
                    b, i2 = (cur['o'], cur['a'][0]) if cur.get('o') is not None else cur['a'][:2]; ch.append(i2); cur = b
                else: break
            return [('idx', s.key(cur), tuple(tuple(sorted(s.lin(y).items())) for y in reversed(ch)), tuple(s.moves(ch[0])))]
        if k == 'call' and e.get('opc') == '*' and e.get('o') is None and len(args(e)) == 1: return s.word({'k': 'un', 'op': '*', 'e': args(e)[0]}, env, depth)
        if k == 'call':
            n = name(e); a = args(e); fe = strip(e['fe']) if isinstance(e.get('fe'), dict) else {}
            rc = e['o'] if isinstance(e.get('o'), dict) else fe.get('b') if fe.get('k') == 'mem' and isinstance(fe.get('b'), dict) else None
            st = s.stack(e)
            if st: return [st]
            if not a and n in ('e', 'id', 'identity', 'op_id') or n == 'e' and not a: return [NEUTRAL]
            if not a and e.get('o') is None and n and not isinstance((e.get('fe') or {}).get('b') if isinstance(e.get('fe'), dict) else None, dict): return [NEUTRAL]
            h = s.byname.get(n)
            if h is not None and h is not s.f and len(h['p']) == len(a) and depth > 3:
                hs = summary(s, h)
                if hs is not None: return [p for i in hs for p in s.word(a[i], env, depth - 1)]
            if len(a) >= 2 and fe.get('dk') == 'other' and 't' in fe and re.match(r'^(type-parameter-\d+-\d+) \(\*\)\(type-parameter-\d+-\d+, \1(, .*)?\)$', s.T[fe['t']]['s']): return s.word(a[1], env, depth - 1)
            for y in ([rc] if rc is not None else []) + a:
                w = s.word(y, env, depth - 1)
                if len(w) == 1 and (w[0][0] in ('side', 'bind') or w[0][0] == 'idx' and (y is rc or w[0][3])): return w
                if len(w) > 1 and n in WRAPN: return w
                if len(w) == 1 and w[0][0] == 'at' and strip(y).get('k') == 'call' and len(args(strip(y))) == 1 and not isinstance(strip(y).get('o'), dict) and not (isinstance(strip(y).get('fe'), dict) and strip(strip(y)['fe']).get('k') == 'mem' and strip(strip(y)['fe']).get('b') is not None): return w
                if len(a) == 1 and rc is None and len(w) == 1 and w[0][0] in ('at', 'idx', 'rng', 'stack'): return w
            if n in WRAPN and a: return s.word(a[0], env, depth - 1)
            if len(a) > 1 and n: return [('rng', n, tuple(tuple(sorted(s.lin(y).items())) for y in a), tuple(mv for y in a for mv in s.moves(y)))]
            if a and strip(a[0]).get('k') == 'ref' and n: return [('at', s.key(a[0]), n)]
            mv = tuple(mv for y in a for mv in s.moves(y))
            if a and (mv or fe.get('dk') == 'parm'): return [('idx', n or s.key(fe), tuple(tuple(sorted(s.lin(y).items())) for y in a[:1]), mv)]
            return [('?',)]
        if k in ('ctor', 'x', 'pinit', 'init') :
            a = args(e)
            if not a: return [NEUTRAL]
            if len(a) == 1: return s.word(a[0], env, depth - 1)
        return [('?',)]

    def groups(s):
        """accumulators that take over one another's value"""
        par = {}
        def find(i):
            while par.get(i, i) != i: i = par[i]
            return i
        for i, ds in s.defs.items():
            for _, _, _, d in ds:
                if d[0] != 'expr': continue
                e = strip(d[1]); st = [e]; got = []
                while st:
                    x = strip(st.pop())
                    if not isinstance(x, dict): continue
                    o = s.op(x)
                    if o: st += o
                    elif x.get('k') == 'call' and name(x) in WRAPN: st += args(x)[:1]
                    elif x.get('k') == 'ref' and x.get('d') is not None and (o or x is not e or x.get('d') in s.defs): got.append(x['d'])
                if len(set(got) - {i}) == 1 and not (set(got) - {i}) & set(s.par) or len(got) == 1:
                    for g in got: par[find(i)] = find(g)
        return find

    def inop(s, e, i):
        for x in walk(e):
            o = s.op(x)
            if o and any(strip(a).get('k') == 'ref' and strip(a).get('d') == i or refers(a, i) for a in o): return True
        return False

    def moves(s, e):
        """(variable, direction) of the variables of an index expression: by the step taken in it, else by the steps of the nearest loop around it"""
        r = []; own = {}; outer = []; st = [e]
        while st:                                   # not below nested subscripts
            x = st.pop(); outer.append(x)
            if x is e or not (x.get('k') == 'idx' or x.get('opc') == '[]'): st += list(kids(x))
        for x in outer:
            for v, dr in steps(x): own[v] = dr
        for x in outer:
            if x.get('k') != 'ref' or x.get('d') not in s.asc: continue
            v = x['d']
            if v in own: r.append((v, own[v])); continue
            lo = s.loops.get(id(x), ())
            for n in range(len(lo), -1, -1):
                ds = {dr for l2, dr, _ in s.asc[v] if l2[:n] == lo[:n]}
                if ds: r.append((v, next(iter(ds)) if len(ds) == 1 else 0)); break
        return r

    def stack(s, e):
        """the front or back stack of a queue whose fold is read"""
        for y in args(e):
            y = strip(y)
            if y.get('k') == 'mem' and (y.get('b') is None or strip(y['b']).get('k') == 'this') and y.get('n') in s.orient: return ('stack', y['n'], s.orient[y['n']])
        return None


def exclusive(a, b):
    """the two paths lie in different branches of one if"""
    for x, y in zip(a, b):
        if x != y: return x[0] == y[0] and x[1] != y[1]
    return False


def steps(x):
    k = x.get('k')
    if k == 'un' and x['op'].startswith(('++', '--')) or k == 'un' and x['op'].endswith(('++', '--')):
        t = strip(x['e'])
        if t.get('k') == 'ref': yield t.get('d'), 1 if '+' in x['op'] else -1
    elif k == 'bin' and x['op'] in ('+=', '-='):
        t = strip(x['a'])
        if t.get('k') == 'ref': yield t.get('d'), 1 if x['op'] == '+=' else -1
    elif k == 'bin' and x['op'] == '=' or k == 'call' and name(x) == 'exchange' and len(args(x)) == 2:
        a, b = (x['a'], x['b']) if k == 'bin' else args(x)
        t = strip(a); b = strip(b)
        if t.get('k') == 'ref' and (b.get('k') == 'idx' or b.get('opc') == '[]') and refers(b, t.get('d')) and any(re.search(r'ne?xt', str(y.get('n'))) for y in walk(b)): yield t.get('d'), 1
    elif k == 'call' and x.get('opc') in ('++', '--', '+=', '-='):
        t = strip(x.get('o') or (x.get('a') or [None])[0])
        if isinstance(t, dict) and t.get('k') == 'ref': yield t.get('d'), 1 if '+' in x['opc'] else -1


def refers(e, i): return any(x.get('k') == 'ref' and x.get('d') == i for x in walk(e))


def split_arg(e):
    e = strip(e)
    if isinstance(e, dict) and e.get('k') == 'call' and args(e): return args(e)[0]
    return e


def descent(fn, key):
    """1 when the function visits the left child of its node parameter before the right one, -1 the other way round"""
    if key not in {'v%s' % i for i in fn.par}: return None
    sides = []
    for x in walk(fn.f['body']):
        if x.get('k') != 'call' or fn.child(x): continue
        for y in args(x):
            c = fn.child(y)
            if c and c[0] == key: sides.append(c[1])
    if len(sides) == 2 and set(sides) == {0, 2}: return 1 if sides[0] == 0 else -1
    return None


def summary(s, h):
    """positions of the parameters in the product a helper returns, or None"""
    b = h.get('body')
    if not isinstance(b, dict): return None
    ss = [x for x in b.get('s') or [] if x.get('k') not in ('null',)]
    if len(ss) != 1 or ss[0].get('k') != 'ret' or ss[0].get('e') is None: return None
    ids = {p['id']: i for i, p in enumerate(h['p'])}
    t = Fn(s.d, h, s.acted, {})
    w = t.word(ss[0]['e'])
    r = []
    for p in w:
        if p[0] != 'parm' or p[1] not in ids: return None
        r.append(ids[p[1]])
    return r if len(r) > 1 else None


def lift(fn, p):
    """a place inside a part of a split is in that part"""
    if p[0] in ('side', 'at') and re.match(r'^v\d+$', p[1]):
        ds = [d for _, _, _, d in fn.defs.get(int(p[1][1:]), []) if d[0] == 'bind']
        if len(ds) == 1: return ('bind', ds[0][1], ds[0][2], ('?',))
    return p


def order(fn, p, q, parms=False):
    """-1 p before q, 1 p after q, 0 same, None unknown"""
    if p[0] == 'bind' and q[0] in ('side', 'at'): 
        q2 = lift(fn, q)
        if q2[0] == 'bind' and q2[1] == p[1] and q2[2] != p[2]: q = q2
    elif q[0] == 'bind' and p[0] in ('side', 'at'):
        p2 = lift(fn, p)
        if p2[0] == 'bind' and p2[1] == q[1] and p2[2] != q[2]: p = p2
    if p[0] == q[0] == 'rng':
        def adj(x, y):          # some bound of x is where y begins
            for j in range(min(len(x) - 1, len(y))):
                v = y[j]
                if len(v) == 1 and v[0][1] == 1 and v[0][0] != () and x[j] != v and dict(x[j + 1]).get(v[0][0]) == 1: return True
            return False
        a, b = adj(p[2], q[2]), adj(q[2], p[2])
        return -1 if a and not b else 1 if b and not a else None
    if p[0] == 'bind' and q[0] == 'bind':
        if p[1] == q[1]: return (p[2] > q[2]) - (p[2] < q[2])
        return order(fn, p[3], q[3], parms) if p[3][0] == 'side' or q[3][0] == 'side' else None
    if p[0] == 'bind': return order(fn, p[3], q, parms) if p[3][0] == 'side' else None
    if q[0] == 'bind': return order(fn, p, q[3], parms) if q[3][0] == 'side' else None
    def nd(x): return (x[1], x[2]) if x[0] == 'side' else (x[1], 1) if x[0] == 'at' else None
    a, b = nd(p), nd(q)
    if a and b and a[0] == b[0]:
        return (a[1] > b[1]) - (a[1] < b[1])
    if parms and (a or p[0] == 'parm') and (b or q[0] == 'parm'):
        x = a[0] if a else 'v%s' % p[1]; y = b[0] if b else 'v%s' % q[1]
        ix = {('v%s' % i): n for i, n in fn.par.items()}
        ix['this'] = -1
        if x in ix and y in ix and x != y: return -1 if ix[x] < ix[y] else 1
    if p[0] == q[0] == 'stack': return -1 if p[2] < q[2] else 1 if p[2] > q[2] else 0
    if p[0] == 'stack' and q[0] == 'parm': return -1 if p[2] == 1 else 1
    if q[0] == 'stack' and p[0] == 'parm': return -1 if q[2] == 0 else 1
    if p[0] == q[0] == 'idx' and p[1] == q[1] and p[1].startswith('this.') and fn.orient.get(p[1][5:]) == 0 and len(p[2]) == 1:
        p, q = q, p
    if p[0] == q[0] == 'idx' and p[1] == q[1] and len(p[2]) == len(q[2]):
        for x, y in zip(p[2], q[2]):
            if x == y: continue
            x, y = dict(x), dict(y); d = {t: y.get(t, 0) - x.get(t, 0) for t in set(x) | set(y)}
            d = {t: c for t, c in d.items() if c}
            if all(t == () or t[0].startswith('2^') for t in d):
                if all(c > 0 for c in d.values()): return -1
                if all(c < 0 for c in d.values()): return 1
                return None
            ix = {('v%s' % i,): n for i, n in fn.par.items()}
            if len(x) == len(y) == 1 and list(x.values()) == list(y.values()) == [1]:
                kx, ky = next(iter(x))[0], next(iter(y))[0]
                if ky.endswith('[%s]' % kx) : return -1                 # x and its successor
                if kx.endswith('[%s]' % ky): return 1
            vs = sorted(((ix[t], c) for t, c in d.items() if t in ix))
            if len(vs) == 2 and vs[0][1] == -1 and vs[1][1] == 1: return -1
            if len(vs) == 2 and vs[0][1] == 1 and vs[1][1] == -1: return 1
            return None
        return 0
    return None


def show(p):
    if p[0] == 'side': return {0: 'the left child', 2: 'the right child'}.get(p[2], '?')
    if p[0] == 'at': return 'the node\'s own value'
    if p[0] == 'stack': return 'the %s stack' % ('front' if p[2] == 0 else 'back')
    if p[0] == 'bind': return 'part %d of the split' % (p[2] + 1)
    if p[0] == 'idx': return 'cell ' + ', '.join('+'.join('%s%s' % (c if t == () or c != 1 else '', '' if t == () else ('*' if c != 1 else '') + re.sub(r'v\d+', 'i', t[0])) for t, c in x) or '0' for x in p[2])
    return p[0]


def collect(res=None):
    seen = set()
    for h, j in sorted(X.run_headers().items()):
        if h.split('/')[1] in ('linear_algebra', 'util') or h.endswith('kruscal.hpp'): continue
        d = X.load(j); T = d['types']
        recn = {r['id']: (r.get('q') or r.get('full') or r['n']) for r in d['records']}
        fs = [f for f in d['funcs'] if not f.get('inst') and isinstance(f.get('body'), dict) and X.rel(d['files'][f['loc'][0]]) == h]
        # functions that act on another type: their first parameter type is an operator type, not a value type
        byn = {}
        for f in fs: byn.setdefault((f.get('cls'), f['n']), []).append(f)
        # element types that act on others, from the shape (T (*)(F, T)) of mapping parameters
        acted = set()
        for f in fs:
            for x in walk(f['body']):
                if x.get('k') == 'ref' and 't' in x and x.get('dk') == 'other':
                    m = re.match(r'^(type-parameter-\d+-\d+) \(\*\)\((type-parameter-\d+-\d+), (type-parameter-\d+-\d+)(?:, .*)?\)$', T[x['t']]['s'])
                    if m and m.group(1) == m.group(3) != m.group(2): acted.add((f.get('cls'), m.group(2)))
        for f in fs:
            cn = recn.get(f.get('cls'), '')
            if COMM.search(cn) or COMM.search(f['q']): continue
            bn = {n: v[0] for (c, n), v in byn.items() if c == f.get('cls') and len(v) == 1}
            yield h, d, f, {t for c, t in acted if c == f.get('cls')}, bn, orientation(fs, f.get('cls'))


def touched(f, names):
    """own member containers on which one of the named operations is called"""
    r = []
    for x in walk(f['body']):
        if x.get('k') == 'call' and name(x) in names:
            fe = strip(x['fe']) if isinstance(x.get('fe'), dict) else {}
            o = x.get('o') if isinstance(x.get('o'), dict) else fe.get('b')
            o = strip(o) if isinstance(o, dict) else {}
            if o.get('k') == 'mem' and (o.get('b') is None or strip(o['b']).get('k') == 'this'): r.append(o.get('n'))
    return r


def orientation(fs, cls):
    """member stacks of a queue: 0 the one elements leave in front, 1 the one elements enter at the back"""
    if cls is None: return {}
    own = [f for f in fs if f.get('cls') == cls]
    fr = [n for f in own if f['n'] == 'pop_front' for n in touched(f, ('pop_back',))]
    bk = [n for f in own if f['n'] == 'push_back' for n in touched(f, ('emplace_back', 'push_back'))]
    if len(set(fr)) != 1 or len(set(bk)) != 1 or fr[0] == bk[0]: return {}
    return {fr[0]: 0, bk[0]: 1}


def turned(f, T):
    """calls of a user-supplied map X(X) in a function"""
    for x in walk(f['body']):
        if x.get('k') != 'call' or len(args(x)) != 1: continue
        fe = strip(x['fe']) if isinstance(x.get('fe'), dict) else {}
        m = re.match(r'^(type-parameter-\d+-\d+) \(\*\)\((?:const )?(type-parameter-\d+-\d+)(?: &)?\)$', T[fe['t']]['s']) if 't' in fe and fe.get('dk') == 'other' else None
        if m and m.group(1) == m.group(2): yield x


def reversals(res):
    """a class that is given a reversal of products applies it wherever it turns a subtree around"""
    for h, j in sorted(X.run_headers().items()):
        if h.split('/')[1] not in ('datastructure', 'tree', 'range_query'): continue
        d = X.load(j); T = d['types']
        fs = [f for f in d['funcs'] if not f.get('inst') and isinstance(f.get('body'), dict) and X.rel(d['files'][f['loc'][0]]) == h]
        for c in {f.get('cls') for f in fs if f.get('cls') is not None}:
            own = [f for f in fs if f.get('cls') == c]
            with_t = [f for f in own if any(True for _ in turned(f, T))]
            names = {f['n'] for f in with_t}
            for f in with_t:
                tu = {id(x) for x in turned(f, T)}
                for x in walk(f['body']):
                    if x.get('k') not in ('cond', 'if') or not isinstance(x.get('c'), dict): continue
                    c2 = strip(x['c']); neg = False
                    while c2.get('k') == 'un' and c2['op'] in ('!', 'not'): c2 = strip(c2['e']); neg = not neg
                    if c2.get('k') not in ('ref', 'mem', 'call') or not re.search(r'rev', str(name(c2))): continue
                    a = any(id(y) in tu for y in walk(x.get('a'))); b = any(id(y) in tu for y in walk(x.get('b')))
                    if a == b: continue
                    res.count('conditional turns of a product decided')
                    if a == neg: res.violation('pol:%s:%s' % (f['q'], x.get('l')), '%s:%d' % (h, x.get('l') or f['loc'][1]), 'the stored product is turned around exactly when the part is not reversed', f['q'])
            for f in own:
                fn = Fn(d, f, set(), {})
                sw = [x for x in walk(f['body']) if x.get('k') == 'call' and name(x) == 'swap' and len(args(x)) == 2 and {(fn.child(a) or (0, 0))[1] for a in args(x)} == {0, 2}]
                fl = [x for x in walk(f['body']) if (x.get('k') == 'bin' and x['op'] == '^=' or x.get('opc') == '^=') and re.search(r'rev', str([y.get('n') for y in walk(x)]))]
                rv = [x for x in walk(f['body']) if x.get('k') == 'call' and name(x) == 'reverse_all' and (strip(x['fe']).get('qn') if isinstance(x.get('fe'), dict) else None) and f['n'] == 'reverse_all']
                if not (sw or fl or rv) : continue
                res.count('reversals of subtrees analysed')
                if not given(T, d, c, fs, h): continue
                res.count('reversals that must turn a product')
                if f not in with_t and not any(x.get('k') == 'call' and name(x) in names and name(x) != f['n'] for x in walk(f['body'])):
                    res.violation('rev:%s' % f['q'], '%s:%d' % (h, (sw + fl + rv)[0].get('l') or f['loc'][1]), 'a subtree is reversed but its stored product is not turned around', f['q'])


def given(T, d, c, fs, h):
    """the class is parameterised by a reversal of products"""
    r = next((r for r in d['records'] if r['id'] == c), None)
    if r is None: return False
    src = SRC.setdefault(h, open(X.REPO + '/' + h).read())
    q = (r.get('q') or r['n']).split('::')
    return any(re.search(r'template\s*<[^{};]*\b(\w+)\s*\(\*\w*\)\(\1\)[^{};]*>\s*(?:struct|class)\s+%s\b' % re.escape(n), src) for n in q if n)


SRC = {}


def outward(res, h, f, fn):
    """weights collected along paths that leave a root: the edge just crossed comes after everything collected before it"""
    edge = set()
    for x in walk(f['body']):
        if x.get('k') == 'rfor' and any(y.get('k') == 'this' for y in walk(x.get('r') or {})):
            b = x['v'].get('binds') or []
            if len(b) == 2: edge.add(b[1]['id'] if isinstance(b[1], dict) else b[1])
    if not edge: return
    def is_edge(e):
        e = strip(e)
        return isinstance(e, dict) and e.get('k') == 'ref' and e.get('d') in edge
    for x in walk(f['body']):
        o = fn.op(x)
        if not o: continue
        res.count('weights collected along a path')
        if is_edge(o[0]) and not is_edge(o[1]): res.violation('path:%s:%s' % (f['q'], x.get('l')), '%s:%d' % (h, x.get('l') or f['loc'][1]), 'the weight of the edge just crossed is combined to the left of what was collected before it', f['q'])


def run(res, tier):
    reversals(res)
    h = 'library/tree/centroid_decomposition.hpp'; j = X.run_headers().get(h)
    if j:
        d = X.load(j)
        for f in d['funcs']:
            if not f.get('inst') and isinstance(f.get('body'), dict) and X.rel(d['files'][f['loc'][0]]) == h: outward(res, h, f, Fn(d, f, set(), {}, orientation([], f.get('cls'))))
    res.count('functions replaced by derived node types', crtp.hooks())
    for h, f, x, n, dq, _ in crtp.bypassed():
        if 'reverse' in n: res.violation('hook:%s:%s' % (f['q'], n), '%s:%d' % (h, x.get('l') or f['loc'][1]), 'calls its own %s although %s replaces it, so the products kept by the derived nodes are not turned around' % (n, dq.split('::')[-1]), f['q'])
    res.floor('products analysed', 80); res.floor('concatenations analysed', 60); res.floor('order decided', 120)
    for h, d, f, acted, bn, ori in collect(res):
        fn = Fn(d, f, acted, bn, ori)
        accs = {}; find = fn.groups()
        inner = set(); sites = []
        for x in walk(f['body']):
            o = fn.op(x); c = None if o else fn.cat(x)
            if not (o or c): continue
            sites.append((x, o or c, bool(o)))
            for a in o or c:
                for y in [strip(a)]:
                    if fn.op(y) or fn.cat(y): inner.add(id(y))
        for x, o, prod in sites:
            if id(x) in inner: continue
            w = [p for a in o for p in fn.word(a)]
            w = [p for p in w if p != NEUTRAL]
            line = x.get('l') or f['loc'][1]; where = '%s:%d' % (h, line)
            res.count('products analysed' if prod else 'concatenations analysed')
            dec = False; rot = not prod and f['n'] in SKIPF and len(w) == 2 and all(p[0] == 'bind' for p in w) and w[0][1] == w[1][1]
            for i in range(len(w)):
                for k in range(i + 1, len(w)):
                    r = order(fn, w[i], w[k], parms=f['n'].startswith(tuple(CAT)) or f.get('op') == '+=')
                    if r is not None: dec = True
                    if rot and r == -1: res.violation('rot:%s' % f['q'], where, 'a rotation joins the parts in their old order', f['q'])
                    if r == 1 and not rot: res.violation('inv:%s:%s' % (f['q'], line), where, '%s is combined to the left of %s, which comes first in the sequence' % (show(w[i]), show(w[k])), f['q'])
            if not prod:
                # whatever is joined with the outer parts of a split lies between them
                sp = {}
                for i, p in enumerate(w):
                    if p[0] == 'bind': sp.setdefault(p[1], []).append(i)
                for g, ix in sp.items():
                    if len({w[i][2] for i in ix}) < 2: continue
                    dec = True
                    for i, p in enumerate(w):
                        if i not in ix and not ix[0] < i < ix[-1]: res.violation('btw:%s:%s' % (f['q'], line), where, 'what is joined with the parts of a split is not placed between them', f['q'])
            if prod:
                ac = [(i, p) for i, p in enumerate(w) if p[0] == 'acc' or p[0] == 'parm']
                for i, p in ac:
                    for k, q in enumerate(w):
                        if k == i: continue
                        if q[0] in ('acc', 'parm'):
                            accs.setdefault('pairs', []).append((p, q, where) if i < k else (q, p, where)); continue
                        side = 1 if k > i else -1
                        accs.setdefault(('acc', find(p[1])), {}).setdefault(side, []).append(where)
                        mot = None
                        if q[0] in ('idx', 'rng'):
                            ds = {m[1] for m in q[3]}
                            if len(ds) == 1 and 0 not in ds: mot = ds.pop()
                        elif q[0] in ('at',):
                            ds = {dr for _, dr, _ in fn.asc.get(int(q[1][1:]), [])} if re.match(r'^v\d+$', q[1]) else None
                            if ds and len(ds) == 1: mot = next(iter(ds))
                            if mot is None and len(q) > 2: mot = descent(fn, q[1])
                        elif q[0] == 'side' and q[2] != 1: mot = 1 if q[2] == 0 else -1
                        if mot is None: continue
                        dec = True
                        if mot != side: res.violation('acc:%s:%s' % (f['q'], line), where, 'the accumulated product is extended on its %s by %s' % ('right' if side == 1 else 'left', ('elements visited in descending order' if mot == -1 else 'elements visited in ascending order') if q[0] != 'side' else show(q)), f['q'])
            res.count('order decided' if dec else 'order not decided')
            if not dec and tier == 'dbg': print('UND', where, f['q'], [show(p) if p[0] not in ('?', 'acc', 'parm') else p for p in w])
        # parts handed back by a split
        if f['n'].startswith('split'):
            for x in walk(f['body']):
                if x.get('k') != 'ret' or not isinstance(x.get('e'), dict): continue
                e = strip(x['e']); ps = args(e) if e.get('k') in ('init', 'ctor', 'x', 'ilist', 'pinit') or name(e) in ('make_pair', 'make_tuple') else []
                if len(ps) < 2: continue
                w = [p for a in ps for p in fn.word(a)]; res.count('split results analysed')
                for i in range(len(w)):
                    for k in range(i + 1, len(w)):
                        if order(fn, w[i], w[k]) == 1: res.violation('spl:%s:%s' % (f['q'], x.get('l')), '%s:%d' % (h, x.get('l') or f['loc'][1]), 'a split hands back %s before %s' % (show(w[i]), show(w[k])), f['q'])
        for p, v in accs.items():
            if p == 'pairs': continue
            if len(v) == 2: res.violation('both:%s' % f['q'], v[-1][0], 'one accumulated product is extended on its right and on its left (also at %s)' % v[1][0], f['q'])
        for p, q, where in accs.get('pairs', []):
            a, b = accs.get(('acc', find(p[1])), {}), accs.get(('acc', find(q[1])), {})
            if set(a) == {-1} and set(b) == {1} : res.violation('fin:%s' % f['q'], where, 'the product of the left end is placed after the product of the right end', f['q'])
            elif set(a) == {1} and set(b) == {-1}: res.count('left and right products joined in order')
