"""Modular analysis of trees with pending operations and stored products. Every function is analysed once with symbolic nodes for its
parameters; a summary says what it needs of them (nothing pending), what it leaves pending, which stored products it leaves out of date,
which operations it applies and what it returns. Summaries are solved to a fixpoint, then a last pass reports."""
import re
import extract as X
from flow import Flow, Exit, walk, strip, lit, kids, assert_cond

OPS = re.compile(r'^(op|opb|opl)$'); MAP = re.compile(r'^mapping'); COMP = re.compile(r'^composition$')
Z = ('Z',); I = ('I',); E = frozenset()
FT = ('wit::F', 'wit::g::F')
PAR = re.compile(r'^_?p(ar|arent)?$')


def elem(T, t):
    x = T[t]
    while x.get('ref') and x.get('of') is not None: x = T[x['of']]
    return x


def base(sym):
    while sym[0] == 'ch': sym = sym[1]
    return sym


def depth(sym):
    n = 0
    while sym[0] == 'ch': n += 1; sym = sym[1]
    return n


def real(fs): return frozenset(f for f in fs if f[0] != '?')


def inside(sym, ids):
    """sym is, or hangs below, one of ids"""
    while True:
        if sym in ids: return True
        if sym[0] in ('ch', 'up', 'cp'): sym = sym[1]
        else: return False


class Dead(Exception):
    'a call whose summary is not known yet'


class Cls:
    """what the fields of a node class mean"""
    def __init__(s, d):
        s.d = d; s.T = d['types']; s.R = d['_rec']; s.c = {}
    def mro(s, rid):
        q = []
        for b in (s.R.get(rid) or {}).get('bases') or []:
            br = s.T[b].get('rec')
            if br is not None: q += [br] + s.mro(br)
        return q
    def info(s, rid):
        if rid in s.c: return s.c[rid]
        out = {k: set() for k in ('T', 'F', 'rev', 'ch', 'siz')}; s.c[rid] = out
        r = s.R.get(rid)
        for br in s.mro(rid):
            for k, v in s.info(br).items():
                if k in out: out[k] |= v
        for f in (r or {}).get('fields') or []:
            if 't' not in f: continue
            t = s.T[f['t']]['s'].replace('const ', '')
            if t == 'wit::S': out['T'].add(f['n'])
            elif t in FT: out['F'].add(f['n'])
            elif t == 'bool' and 'rev' in f['n']: out['rev'].add(f['n'])
            elif t.endswith('[2]') and (t[:-3].strip().endswith('*') or 'ptr32<' in t or 'int' in t) or 'std::array<' in t and t.rstrip('> ').endswith(', 2') and ('*' in t or 'int' in t): out['ch'].add(f['n'])
            elif re.search(r'^_?si(z|ze)$', f['n']): out['siz'].add(f['n'])
        pr = s.d['_prod']
        out['prod'] = {n for n in out['T'] if any(n in pr.get(b, ()) for b in [rid] + s.mro(rid))}
        return out
    def ncls(s, t):
        x = elem(s.T, t)
        if x.get('ptr') and x.get('of') is not None: r = s.R.get(s.T[x['of']].get('rec'))
        else:
            r = s.R.get(x.get('rec'))
            if r and r['n'] == 'ptr32': r = s.d['_byfull'].get(r['targs'][0])
            else: return None
        return r['id'] if r and s.info(r['id'])['ch'] else None
    def direct(s, t):
        """class of an expression that denotes a node itself"""
        r = s.R.get(elem(s.T, t).get('rec'))
        return r['id'] if r and s.info(r['id'])['ch'] else None


class Summ:
    __slots__ = ('needs', 'touch', 'uses', 'unc', 'dirty', 'chg', 'app', 'rev', 'ret', 'relink', 'kill')
    def __init__(s):
        s.needs = E; s.touch = E; s.uses = E      # param syms that must be clean / are used / whose product is read
        s.unc = {}; s.dirty = {}; s.chg = E; s.app = {}; s.rev = E; s.ret = ('bot',); s.relink = E; s.kill = E
    def key(s): return (s.needs, s.touch, s.uses, tuple(sorted(s.unc.items(), key=repr)), tuple(sorted(s.dirty.items(), key=repr)), s.chg, tuple(sorted(s.app.items(), key=repr)), s.rev, repr(s.ret), s.relink, s.kill)


class Fn(Flow):
    MAXIT = 10
    def __init__(s, A, fn):
        s.A = A; s.d = A.d; s.T = A.T; s.C = A.C; s.fn = fn; s.out = Summ(); s.clsof = {}; s.ep = 0; s.inl = 0; s.quiet = 0

    # ---- states
    unr = 0                                    # iteration of an unrolled loop
    def new(s): return {'v': {}, 'l': {}, 'u': {}, 'z': E, 's': {}, 'd': {}, 'k': E, 'o': {}, 'c': {}, 'a': {}, 'i': {}, 'h': {}, 'q': {}}
    def copy(s, a): return {k: (v if isinstance(v, frozenset) else dict(v)) for k, v in a.items()}

    def jval(s, x, y, key, pairs):
        if x == y: return x
        if x is None or y is None: return None
        if x[0] == 'N' and y[0] == 'N':
            j = ('phi', key); pairs.append((j, x[1], y[1])); return ('N', j)
        if x[0] == 'N' and y[0] == 'Z': pairs.append((('phi', key), x[1], None)); return ('N', ('phi', key))
        if x[0] == 'Z' and y[0] == 'N': pairs.append((('phi', key), None, y[1])); return ('N', ('phi', key))
        if x[0] == y[0] == 'T' and len(x[1]) == len(y[1]): return ('T', tuple(s.jval(p, q, (key, i), pairs) for i, (p, q) in enumerate(zip(x[1], y[1]))))
        if x[0] in ('F', 'A', 'K', 'I') and y[0] in ('F', 'A', 'K', 'I'): return x if x[0] == 'K' else y if y[0] == 'K' else ('K', None, None) if {x[0], y[0]} != {'A', 'I'} else ('K', None, None)
        if x[0] in 'DM' and y[0] in 'DMX' and x[0] != 'X': return x
        if y[0] in 'DM': return y
        return None

    def join(s, a, b):
        r = {}; pairs = []
        r['v'] = {}
        for k in set(a['v']) | set(b['v']):
            if k in a['v'] and k in b['v']: r['v'][k] = s.jval(a['v'][k], b['v'][k], k, pairs)
            else: r['v'][k] = a['v'].get(k, b['v'].get(k))
        def vac(sym, st): return sym in st['z']
        r['z'] = a['z'] & b['z']
        r['u'] = {}
        for k in set(a['u']) | set(b['u']):
            if vac(k[1], a): z = s.u(b, *k)
            elif vac(k[1], b): z = s.u(a, *k)
            else: z = s.u(a, *k) | s.u(b, *k)
            r['u'][k] = z
        def may(f):
            o = {}
            for k in set(a[f]) | set(b[f]): o[k] = a[f].get(k, E) | b[f].get(k, E)
            return o
        r['s'] = may('s'); r['o'] = may('o'); r['h'] = may('h'); r['q'] = may('q')
        r['d'] = {k: s.dd(a, k) | s.dd(b, k) if not (vac(k, a) or vac(k, b)) else s.dd(b, k) if vac(k, a) else s.dd(a, k) for k in set(a['d']) | set(b['d'])}
        r['k'] = frozenset(m for m in a['k'] | b['k'] if (m in a['k'] or vac(m[1], a) or s.giver_clean(m, a)) and (m in b['k'] or vac(m[1], b) or s.giver_clean(m, b)))
        r['l'] = {}
        for k in set(a['l']) | set(b['l']):
            x, y = a['l'].get(k), b['l'].get(k)
            if x == y: r['l'][k] = x
            elif x is not None and y is not None: r['l'][k] = s.jval(x, y, ('lnk', k), pairs)
            else:
                w = x if x is not None else y; dflt = ('N', ('ch', k[0], k[1], 0))
                if w != dflt: r['l'][k] = s.jval(w, dflt, ('lnk', k), pairs) if w and w[0] in 'NZ' else None
        r['c'] = {}
        for k in set(a['c']) | set(b['c']):
            x, y = a['c'].get(k, (0, 0)), b['c'].get(k, (0, 0)); r['c'][k] = (max(x[0], y[0]), max(x[1], y[1]))
        r['i'] = {**a['i'], **b['i']}
        r['a'] = {}
        for k in set(a['a']) | set(b['a']): r['a'][k] = a['a'].get(k, E) | b['a'].get(k, E)
        if pairs:
            js = {}
            for j, x, y in pairs:
                if j in js: continue
                js[j] = (x, y)
            s.purge(r, set(js), {j: None for j in js})
            for j, (x, y) in js.items():
                cx = s.clsof.get(x) if x else None; cy = s.clsof.get(y) if y else None
                s.clsof[j] = cx if cx is not None else cy
                for kd in 'lr':
                    o = E
                    for st, q in ((a, x), (b, y)):
                        if q is not None and q not in st['z']: o |= frozenset(s.orig(w) for w in s.u(st, kd, q))
                    r['u'][(kd, j)] = o
                for f in 'sd':
                    o = E
                    for st, q in ((a, x), (b, y)):
                        if q is not None: o |= st[f].get(q, E) if f == 'd' else frozenset(s.orig(w) for w in st[f].get(q, E))
                    if o: r[f][j] = o
                ins = {st['i'].get(q) for st, q in ((a, x), (b, y)) if q is not None}
                if len(ins) == 1 and None not in ins: r['i'][j] = ins.pop()
                for st, q in ((a, x), (b, y)):
                    if q is None: continue
                    for (n, f), fs in st['a'].items():
                        if n == q: r['a'][(j, f)] = r['a'].get((j, f), E) | fs
                    oo = st['o'].get(q)
                    if oo: r['o'][j] = r['o'].get(j, E) | oo
                ms = [{(m[0], j) + m[2:] for m in st['k'] if m[1] == q} for st, q in ((a, x), (b, y)) if q is not None and q not in st['z']]
                if ms:
                    m = set.intersection(*ms)
                    r['k'] |= frozenset(m)
        return r

    def giver_clean(s, m, st):
        return not s.u(st, 'r' if m[0] == 'r' else 'l', m[2])

    def orig(s, sym):
        """origins outside the parameters cannot be repaired by the caller"""
        return sym

    def purge(s, r, ids, keep=()):
        def gone(v):
            if v is None: return v
            if v[0] == 'N': return v if v[1] in keep or not inside(v[1], ids) else None
            if v[0] == 'T': return ('T', tuple(gone(x) for x in v[1]))
            if v[0] in 'FD' and inside(v[1], ids) and v[1] not in keep: return None if v[0] == 'D' else ('K', None, None)
            if v[0] == 'R' and v[1] and v[1][0] in 'cf' and inside(v[1][1], ids): return None
            if v[0] == 'P' and v[1] and v[1][0] in 'cf' and inside(v[1][1], ids): return ('P', ('c?',))
            return v
        for k, v in list(r['v'].items()): r['v'][k] = gone(v)
        r['l'] = {k: w for k, w in ((k, gone(w)) for k, w in r['l'].items() if not inside(k[0], ids)) if w is not None}
        r['u'] = {k: v for k, v in r['u'].items() if not inside(k[1], ids)}
        for f in ('s', 'd', 'o', 'i', 'h', 'q'): r[f] = {k: v for k, v in r[f].items() if not inside(k, ids)}
        r['z'] = frozenset(x for x in r['z'] if not inside(x, ids))
        r['k'] = frozenset(m for m in r['k'] if not inside(m[1], ids) and not inside(m[2], ids))
        r['a'] = {k: v for k, v in r['a'].items() if not inside(k[0], ids)}

    # ---- facts
    def info(s, sym):
        c = s.clsof.get(sym)
        return s.C.info(c) if c is not None else None

    def setcls(s, sym, c):
        if c is None: return
        o = s.clsof.get(sym)
        if o is None or o in s.C.mro(c): s.clsof[sym] = c

    def has(s, sym, kd):
        i = s.info(sym)
        return bool(i and i['F' if kd == 'l' else 'rev'])

    def u(s, st, kd, sym):
        """origins of what may be pending on sym; empty: nothing is"""
        if sym[0] in ('el', 'u', 'new', 'r', 'phi', 'cp') and (kd, sym) not in st['u']:
            return frozenset((sym,)) if sym[0] in ('r', 'cp') and s.has(sym, kd) else E
        if not s.has(sym, kd) or sym in st['z']: return E
        return st['u'].get((kd, sym), frozenset((sym,)))

    def child(s, st, n, key, t=None):
        if n[0] in ('u', 'el'): return None
        if (n, key) in st['l']: return st['l'][(n, key)]
        if not isinstance(key, int):
            ks = [v for (m, k), v in st['l'].items() if m == n]
            if ks: return None
        if n[0] == 'new' : return Z
        if n[0] == 'cp':
            v = s.child(st, n[1], key, t)
            return v
        if depth(n) > 3: return None
        c = ('ch', n, key, 0)
        # a value moved away earlier keeps this symbol; links that were never written still denote it
        o = s.clsof.get(n)
        s.clsof.setdefault(c, s.C.ncls(t) if t is not None and s.C.ncls(t) is not None else o)
        w = s.u(st, 'l', n) | s.u(st, 'r', n) | st['s'].get(n, E)
        if w: st['s'][c] = st['s'].get(c, E) | w
        return ('N', c)

    def dd(s, st, n):
        if n in st['d']: return st['d'][n]
        if n[0] in ('p', 'this'):
            i = s.info(n)
            if i: return frozenset('?' + f for f in i['prod'] | i['siz'])
        return E

    def setd(s, st, n, fs):
        if n in st['z']: return
        if n in st['i'] and n[0] not in ('el',): st['c'][st['i'][n]] = (1, 1); return
        st['d'][n] = s.dd(st, n) | frozenset(fs)

    def bad(s, e, what):
        if s.A.report and not s.quiet and not s.A.skip(s.fn, what):
            f = X.rel(s.d['files'][s.fn['loc'][0]])
            s.A.res.violation('%s:%s' % (s.fn['q'], what), '%s:%s' % (f, (e or {}).get('l') or s.fn['loc'][1]), what, s.fn['q'])

    def need(s, origins, e, what):
        for o in origins:
            b = base(o)
            if b[0] in ('p', 'this'):
                if depth(o) < 2: s.out.needs |= {o}
            elif b[0] in ('u', 'el') or b[0] in ('root', 'own') and '(lambda)' in s.fn['q']: pass
            else: s.bad(e, what)

    def use(s, v, st, e, what):
        if v is None: return
        if v[0] == 'T':
            for x in v[1]: s.use(x, st, e, what)
        elif v[0] == 'D':
            n = v[1]; b = base(n)
            if n in st['s']: s.need(st['s'][n], e, 'the stored %s of a node is used (%s) before what is pending on its parent was applied to it' % (v[2], what))
            if b[0] in ('p', 'this'): s.out.touch |= {base(n)}
            if v[2] in st['d'].get(n, E): s.bad(e, 'the stored %s of a node is used (%s) after its children or value changed and before it was recomputed' % (v[2], what))
            elif b[0] in ('p', 'this') and s.info(n) and v[2] in s.info(n)['prod']: s.out.uses |= ({n} if depth(n) < 2 else E)
        elif v[0] == 'M' and v[1] is not None and v[1][0] == 'I': s.use(v[2], st, e, what)
        elif v[0] == 'M' and v[2] is not None and v[2][0] == 'D' and v[1] is not None and v[1][0] in 'A': pass
        elif v[0] == 'N':
            if v[1] in st['s']: s.need(st['s'][v[1]], e, 'a child is %s before what is pending on its parent was applied to it' % what)
            if base(v[1])[0] in ('p', 'this'): s.out.touch |= {base(v[1])}

    def hasnode(s, r):
        return bool(r) and (r[0] == 'N' or r[0] == 'T' and any(s.hasnode(x) for x in r[1]))

    def changed(s, st, n, e, export=True, up=True):
        """the contents below n changed: what is stored above is out of date"""
        if n is None or n[0] == 'new': return
        s.A.mods += 1
        if export and base(n)[0] in ('p', 'this'): s.out.chg |= {n if depth(n) < 1 else base(n)}
        m = n
        while up and m is not None and m[0] == 'ch':
            p = m[1]
            cur = st['l'].get((p, m[2]), ('N', m))
            if cur != ('N', m): break
            i = s.info(p)
            if i: s.setd(st, p, i['prod'])
            m = p
        for k, (ne, di) in list(st['c'].items()):
            if ne: st['c'][k] = (ne, 1)

    # ---- locations
    def key(s, e, st):
        v = lit(e)
        if v is not None: return int(v)
        x = s.ev(e, st)
        if x and x[0] == 'i': return x[1]
        if x and x[0] == 'B': return x
        return '?'

    def loc(s, e, st):
        e = strip(e)
        if not isinstance(e, dict): return None
        k = e.get('k')
        if k == 'ref':
            x = st['v'].get(e.get('d'))
            if x and x[0] == 'R': return x[1]
            return ('v', e.get('d'))
        if k == 'mem':
            if e.get('dk') == 'gvar': return ('v', e.get('d'))
            b = strip(e['b']) if e.get('b') is not None else {'k': 'this'}
            v = s.obj(b, st, bool(e.get('ar')))
            if v and v[0] == 'N': return ('f', v[1], e['n'])
            if v and v[0] == 'O': return ('o', e['n'])
            if e.get('ar') or b.get('k') == 'this': return ('x', e['n'])
            l = s.loc(b, st)
            return ('m', l, e['n']) if l else ('x', e['n'])
        if k == 'idx' or k == 'call' and e.get('opc') == '[]' and not s.A.lib(e):
            b = e['a'] if k == 'idx' else e['o'] if e.get('o') is not None else e['a'][0]
            i = e['i'] if k == 'idx' else e['a'][-1]
            if 't' in e and s.C.direct(e['t']) is not None:
                v = s.obj(e, st, False)
                if v and v[0] == 'N': return ('f', v[1], '*')
            l = s.loc(b, st)
            if l and l[0] == 'f':
                inf = s.info(l[1])
                if inf is None or l[2] in inf['ch']: return ('c', l[1], s.key(i, st))
            if l and l[0] == 'v' and l[1] in st['c']: return ('e', l[1])
            s.ev(i, st)
            return ('m', l, '[]') if l else ('x', '[]')
        if k == 'un' and e['op'] == '*':
            x = strip(e['e'])
            v = s.ev(x, st)
            if v and v[0] in 'RP': return v[1]
            if v and v[0] == 'N': return ('f', v[1], '*')
            if isinstance(x, dict) and x.get('k') == 'this': return ('f', st['v']['this'][1], '*') if (st['v'].get('this') or Z)[0] == 'N' else None
            return None
        if k == 'un' and e['op'].startswith(('++', '--')): s.ev(e, st); return s.loc(e['e'], st)
        if k == 'bin' and e['op'] == ',': s.ev(e['a'], st); return s.loc(e['b'], st)
        if k == 'bin' and e['op'] in ('=', '^='): s.ev(e, st); return s.loc(e['a'], st)
        if k == 'cast': return s.loc(e['e'], st)
        if k == 'call':
            if e.get('n') in ('move', 'forward', 'as_const') and e.get('a'): return s.loc(e['a'][0], st)
            if e.get('n') in ('back', 'top', 'front') and e.get('o') is not None:
                l = s.loc(e['o'], st)
                if l and l[0] == 'v' and l[1] in st['c']: return ('e', l[1])
            v = s.call(e, st)
            if v and v[0] in 'R': return v[1]
            if v and v[0] == 'N' and e.get('opc') == '*': return ('f', v[1], '*')
            return ('t', v)
        if k in ('ctor', 'init', 'stdinit', 'cond'): return ('t', s.ev(e, st))
        return None

    def obj(s, b, st, arrow):
        if not isinstance(b, dict): return None
        if b.get('k') == 'this': return st['v'].get('this') or ('O', 0)
        if b.get('k') == 'call' and b.get('opc') in ('->', '*') and b.get('o') is not None: return s.obj(strip(b['o']), st, True)
        if b.get('k') == 'un' and b['op'] == '*': return s.obj(strip(b['e']), st, True)
        if b.get('k') == 'un' and b['op'] == '&': return s.obj(strip(b['e']), st, False)
        c = s.C.direct(b['t']) if 't' in b and not arrow else None
        if b.get('k') == 'call' and b.get('opc') == '[]' and c is not None and not s.A.lib(b):
            # pool[index] denotes the node itself
            v = s.ev(b['a'][-1], st)
            if v is None or v[0] != 'N': v = s.index(b['a'][-1], st)
            if v and v[0] == 'N': s.setcls(v[1], c)
            return v
        if b.get('k') == 'idx' and c is not None:
            v = s.ev(b['i'], st)
            if v is None or v[0] != 'N': v = s.index(b['i'], st)
            if v and v[0] == 'N': s.setcls(v[1], c)
            return v
        v = s.ev(b, st)
        if v and v[0] == 'P': v = s.load(v[1], st, None)
        if v and v[0] == 'N' and 't' in b:
            c = s.C.ncls(b['t']) if arrow else s.C.direct(b['t'])
            s.setcls(v[1], c)
        return v if v and v[0] in 'NZO' else None

    def index(s, e, st, cls=None):
        """an integer used as a node: a parameter or a member holding an index"""
        x = strip(e)
        if not isinstance(x, dict): return None
        if x.get('k') == 'ref' and x.get('d') in s.pidx and st['v'].get(x['d']) is None and x['d'] not in s.assigned:
            v = ('N', ('p', s.pidx[x['d']])); st['v'][x['d']] = v; return v
        if x.get('k') == 'mem' and e.get('dk') != 'gvar':
            l = s.loc(x, st)
            if l and l[0] == 'o':
                st['v'][l] = ('N', ('root', l[1]))
                if cls is not None: s.setcls(('root', l[1]), cls)
                return st['v'][l]
        return None

    def load(s, l, st, t):
        if l is None: return None
        k = l[0]
        if k == 't': return l[1]
        if k == 'v':
            x = st['v'].get(l[1])
            if x and x[0] == 'R': return s.load(x[1], st, t)
            if x is None and t is not None and s.C.ncls(t) is not None and l[1] in s.pidx:
                x = ('N', ('p', s.pidx[l[1]])); s.setcls(x[1], s.C.ncls(t))
            return x
        if k == 'o':
            x = st['v'].get(l)
            if x is None and t is not None and s.C.ncls(t) is not None:
                x = ('N', ('root', l[1])); s.setcls(x[1], s.C.ncls(t)); st['v'][l] = x
            return x
        if k == 'c': return s.child(st, l[1], l[2], t)
        if k == 'e':
            return ('N', ('el', l[1])) if t is None or s.C.ncls(t) is not None or s.elnode(l[1]) else None
        if k == 'f':
            n = l[1]
            if l[2] == '*': return ('N', n)
            i = s.info(n)
            if i is None: return None
            if l[2] in i['F']: return I if n in st['q'] else ('F', n)
            if l[2] in i['T']: return ('D', n, l[2])
            if l[2] in i['rev']: return ('W', n)
            if t is not None and s.C.ncls(t) is not None and PAR.match(l[2]):
                up = ('up', n); s.setcls(up, s.C.ncls(t)); st['l'][(up, '?')] = ('N', n); return ('N', up)
            return None
        if k == 'm':
            x = s.load(l[1], st, None)
            if x and x[0] == 'T' and l[2] in ('first', 'second') and len(x[1]) == 2: return x[1][0 if l[2] == 'first' else 1]
            return None
        return None

    def elnode(s, var): return True

    def store(s, l, v, st, e):
        if l is None: return
        k = l[0]
        if k in 'vo':
            if k == 'v' and st['v'].get(l[1]) and st['v'][l[1]][0] == 'R': return s.store(st['v'][l[1]][1], v, st, e)
            if k == 'o':
                if v and v[0] in 'ND': s.use(v, st, e, 'kept')
                if v and v[0] == 'N' and real(st['d'].get(v[1], E)): s.bad(e, 'a node whose stored %s is out of date becomes the root' % ', '.join(sorted(st['d'][v[1]]))); st['d'].pop(v[1], None)
                st['v'][l] = v
            else: st['v'][l[1]] = v
            return
        if k == 'm':
            if v and v[0] in 'DM': s.use(v, st, e, 'result')
            x = s.load(l[1], st, None)
            if x and x[0] == 'T' and l[1][0] == 'v' and l[2] in ('first', 'second') and len(x[1]) == 2:
                t = list(x[1]); t[0 if l[2] == 'first' else 1] = v; st['v'][l[1][1]] = ('T', tuple(t))
            return
        if k == 'c?':
            s.changed(st, ('u',), e)
            if v and v[0] == 'N': s.use(v, st, e, 'moved')
            return
        if k == 'c': return s.link(st, l[1], l[2], v, e)
        if k == 'f':
            n, f = l[1], l[2]
            if f == '*':
                if v and v[0] == 'N' and v[1] != n: s.assign(st, n, v[1])
                return
            i = s.info(n)
            if i is None: return
            if f in i['F']: s.store_lazy(n, v, st, e)
            elif f in i['rev']: s.store_rev(n, v, st, e)
            elif f in i['siz']:
                st['d'][n] = s.dd(st, n) - {f, '?' + f}
            elif f in i['T']: s.store_val(n, f, i, v, st, e)

    def assign(s, st, dst, src):
        """*dst = *src"""
        s.setcls(dst, s.clsof.get(src))
        for kd in 'lr': st['u'][(kd, dst)] = s.u(st, kd, src)
        st['d'][dst] = st['d'].get(src, E)
        for (n, k), v in list(st['l'].items()):
            if n == src: st['l'][(dst, k)] = v
        if src[0] == 'new' and not any(v and v[0] == 'N' and v[1] == src for v in st['v'].values()): st['d'].pop(src, None)   # a temporary
        else: st['v'][('copy', dst)] = ('N', src)

    def link(s, st, n, key, v, e):
        s.A.count('child links written')
        old = st['l'].get((n, key)) or (('N', ('ch', n, key, 0)) if n[0] not in ('new', 'u', 'el') else None)
        src = st['v'].get(('copy', v[1])) if v and v[0] == 'N' else None
        same = src is not None and src[0] == 'N' and (src == old or src[1][0] == 'ch' and src[1][1] == n)     # a copy of the child it replaces
        if v and v[0] == 'N' and v != old and not same and not (v[1][0] == 'ch' and v[1][1] == n): s.use(v, st, e, 'moved')
        if v and v[0] == 'N' and st['d'].get(v[1]) and v != old and v[1][0] != 'new' and (s.info(v[1]) or {}).get('prod'):
            pass
        if n[0] == 'up': return
        if not isinstance(key, int):
            st['l'] = {k: w for k, w in st['l'].items() if k[0] != n or not isinstance(k[1], int)}
        st['l'][(n, key)] = v
        if v == old: return
        if same and not any(k[0] == v[1] for k in st['a']) and not real(st['d'].get(v[1], E)): return
        i = s.info(n)
        if n[0] == 'el': st['d'][n] = frozenset(('links',)); s.changed(st, n, e); return
        if n[0] == 'u': s.changed(st, n, e); return
        if i: s.setd(st, n, i['prod'] | i['siz'])
        s.changed(st, n, e)
        if base(n)[0] in ('p', 'this') and depth(n) < 2: s.out.relink |= {n}

    def apply_mark(s, st, n, f, field, e):
        """operation value f was applied to field (or 'laz') of n"""
        if f is None: return
        if f[0] == 'F':
            st['k'] |= {(field, n, f[1])}; st['h'][f[1]] = st['h'].get(f[1], E) | {'l'}
        else:
            tag = f[1] if f[0] == 'A' else 'acc'
            st['a'][(n, tag)] = st['a'].get((n, tag), E) | {field}
            if f[0] == 'A':
                if n in st['s']: s.need(st['s'][n], e, 'an operation is applied to a child before what is pending on its parent was')
                s.changed(st, n, e, n[0] not in ('p', 'this'))

    def kids_of(s, st, n):
        r = []
        for key in (0, 1):
            v = s.child(st, n, key)
            r.append((key, v))
        return r

    def given(s, n, st, e):
        """both children received what was pending on n"""
        dyn = {m for m in st['k'] if m[1][0] == 'ch' and m[1][1] == n and not isinstance(m[1][2], int) and m[2] == n}
        for key, c in s.kids_of(st, n):
            if c is None or c[0] != 'N' or c[1] in st['z']: continue
            i = s.info(c[1])
            want = ['laz'] + sorted(i['T']) if i else ['laz']
            miss = [f for f in want if (f, c[1], n) not in st['k'] and not any(m[0] == f for m in dyn)]
            if miss: s.bad(e, 'what is pending on a node is dropped without being applied to child %d (%s)' % (key, ', '.join(x if x != 'laz' else 'its pending operation' for x in miss)))

    def store_lazy(s, n, v, st, e):
        s.A.count('pending operations written')
        if v == I:
            if s.u(st, 'l', n) and n[0] != 'new':
                s.A.count('pending operations cleared')
                if ('F', n) in st['v'].values() or isinstance(e, dict) and e.get('k') == 'call' and e.get('n') == 'exchange':
                    # the operation was saved: the children may receive it later
                    st['q'][n] = frozenset((1,)); st['u'][('l', n)] = E; st['h'][n] = st['h'].get(n, E) - {'l'}; s.settle(st, n); return
                s.given(n, st, e)
            st['u'][('l', n)] = E; st['h'][n] = st['h'].get(n, E) - {'l'}
            s.settle(st, n)
            return
        st['q'].pop(n, None)
        if v and v[0] == 'K':
            a, b = v[1], v[2]
            if b is not None and b == ('F', n): s.apply_mark(st, n, a, 'laz', e)
            elif a is not None and a == ('F', n): s.bad(e, 'a new operation is put below the one already pending')
            elif s.u(st, 'l', n) and n[0] != 'new' and b is not None: s.bad(e, 'the operation already pending is overwritten')
        elif s.u(st, 'l', n) and n[0] not in ('new', 'u', 'el') and not (v == ('F', n)): s.bad(e, 'the operation already pending is overwritten')
        if n[0] != 'new' or v: st['u'][('l', n)] = frozenset((('own', n),))
        for c in [x for x in st['v'].values() if x and x[0] == 'N' and x[1][0] == 'ch' and x[1][1] == n]: pass

    def settle(s, st, n):
        """n handed down what was pending: its children are up to date, and may have something pending"""
        for c in [c for c in st['s'] if c[0] == 'ch' and c[1] == n]:
            if not (s.u(st, 'l', n) or s.u(st, 'r', n)): st['s'].pop(c)
        for (kd, c) in [x for x in st['u'] if x[1][0] == 'ch' and x[1][1] == n]: st['u'].pop((kd, c))
        if n[0] == 'up':
            # handed to the node it was reached from
            for kd in 'lr':
                if s.has(n[1], kd): st['u'][(kd, n[1])] = s.u(st, kd, n[1]) | {('own', n[1])}

    def store_rev(s, n, v, st, e):
        if v and v[0] == 'i' and v[1] == 0:
            if s.u(st, 'r', n) and n[0] != 'new': s.clear_rev(n, st)
            return
        st['u'][('r', n)] = frozenset((('own', n),))
        p = n[1] if n[0] == 'ch' else None
        ps = [m for (m, k), w in st['l'].items() if w == ('N', n)] + ([p] if p is not None else [])
        for p in ps:
            if st['o'].get(p):
                st['o'][p] = st['o'][p] - ({n[2]} if n[0] == 'ch' and isinstance(n[2], int) else {0, 1} if n[0] == 'ch' else {k for (m, k), w in st['l'].items() if w == ('N', n)})
                return
            if s.u(st, 'r', p): st['k'] |= {('r', n, p)}; st['h'][p] = st['h'].get(p, E) | {'r'}; return
        if base(n)[0] in ('p', 'this') and depth(n) < 2: s.out.rev |= {n}
        else:
            if ('copy', n) in st['v']: st['a'][(n, 'rev')] = frozenset(('rev',))
            s.changed(st, n, e)

    def rev_copy(s, st, n, src):
        """n is a reversed copy of src"""
        ps = [(m, k) for (m, k), w in st['l'].items() if w == ('N', src)] + ([(src[1], src[2])] if src[0] == 'ch' else [])
        for p, k in ps:
            if st['o'].get(p): st['o'][p] = st['o'][p] - {k}; return
            if s.u(st, 'r', p): st['k'] |= {('r', n, p)}; st['h'][p] = st['h'].get(p, E) | {'r'}; return
        st['a'][(n, 'rev')] = frozenset(('rev',))

    def clear_rev(s, n, st):
        s.A.count('pending reversals cleared')
        o = set()
        for key, c in s.kids_of(st, n):
            if c is None or c[0] != 'N' or c[1] in st['z']: continue
            if ('r', c[1], n) not in st['k']: o.add(key)
        st['o'][n] = frozenset(o)
        st['u'][('r', n)] = E; st['h'][n] = st['h'].get(n, E) - {'r'}; s.settle(st, n)

    def store_val(s, n, f, i, v, st, e):
        if v and v[0] == 'M' and v[2] == ('D', n, f):
            s.apply_mark(st, n, v[1], f, e)
            if v[1] is not None and v[1][0] == 'A' and f not in i['prod'] and i['prod'] and not i['F']: st['d'][n] = s.dd(st, n) | frozenset(i['prod'])
            return
        if v and v[0] == 'X' and f in i['prod']:
            s.A.count('products recomputed')
            st['d'][n] = s.dd(st, n) - {f, '?' + f}
            return
        if v and v[0] in 'DM': s.use(v, st, e, 'stored')
        if n[0] == 'new':
            return
        if n in st['s']: s.need(st['s'][n], e, 'the stored %s of a node is replaced before what is pending on its parent was applied to it' % f)
        if f not in i['prod'] and i['prod']: s.setd(st, n, i['prod'])
        s.changed(st, n, e)

    # ---- expressions
    def expr(s, e, st): return s.ev(e, st)

    def ev(s, e, st):
        e = strip(e)
        if not isinstance(e, dict): return None
        k = e.get('k'); v = lit(e)
        if v is not None and k in ('int', 'bool', 'char'): return ('i', int(v))
        if k == 'null': return Z
        if k == 'this': return st['v'].get('this') or ('O', 0)
        if k in ('ref', 'mem', 'idx'):
            if k == 'ref' and e.get('dk') in ('enum', 'fn', 'func'): return None
            r = s.load(s.loc(e, st), st, e.get('t'))
            if r is None and k == 'ref' and 't' in e and elem(s.T, e['t'])['s'].replace('const ', '') in ('bool', 'int'): return ('B', ('p', s.pidx[e['d']]) if e.get('d') in s.pidx and e['d'] not in s.assigned else e.get('d'), 0)
            return r
        if k == 'lambda': return ('L', tuple(e.get('ops') or ()), e.get('f'))
        if k == 'un':
            if e['op'] == '&':
                l = s.loc(e['e'], st)
                if l and l[0] == 'f' and l[2] == '*': return ('N', l[1])
                return ('P', l) if l and l[0] in 'cfv' else None
            if e['op'] == '*': return s.load(s.loc(e, st), st, e.get('t'))
            if e['op'].startswith(('++', '--')) or e['op'].endswith(('++', '--')):
                l = s.loc(e['e'], st)
                if l and l[0] == 'v': st['v'][l[1]] = None
                return None
            v = s.ev(e['e'], st)
            if e['op'] in ('!', 'not') and v and v[0] == 'B': return ('B', v[1], v[2] ^ 1)
            if e['op'] in ('!', 'not') and v and v[0] == 'i': return ('i', int(not v[1]))
            return None
        if k == 'bin': return s.binop(e, e['op'], e['a'], e['b'], st)
        if k == 'cond':
            t, f = s.cond(e['c'], st)
            a = s.ev(e['a'], t) if t is not None else None; b = s.ev(e['b'], f) if f is not None else None
            if t is not None and f is not None:
                key = ('cond', e.get('l'), e.get('c0', 0), id(e) % 9973)
                t['v'][key] = a; f['v'][key] = b
                r = s.join(t, f); x = r['v'].pop(key, None)
                if x is None: x = a if a and a[0] in 'DM' else b if b and b[0] in 'DM' else None
            else: r = t if t is not None else f; x = a if t is not None else b
            if r is not None:
                for q in r: st[q] = r[q]
            return x
        if k == 'cast': return Z if e.get('ck') == 'NullToPointer' else s.ev(e['e'], st)
        if k in ('init', 'ctor', 'stdinit', 'pinit', 'x'): return s.ctor(e, st)
        if k == 'call':
            r = s.call(e, st)
            return s.load(r[1], st, e.get('t')) if r and r[0] == 'R' else r
        if k == 'delete':
            v = s.ev(e['e'], st)
            if v and v[0] == 'N': s.drop(st, v[1])
            return None
        if k == 'new':
            x = e.get('e'); v = s.ev(x, st) if isinstance(x, dict) else None
            if v and v[0] == 'N': return v
            c = s.C.ncls(e['t']) if 't' in e else None
            return s.fresh(st, e, c) if c is not None else None
        for c in kids(e): s.ev(c, st)
        return None

    def drop(s, st, n):
        st['z'] |= {n}
        if base(n)[0] in ('p', 'this'): s.out.kill |= {n}
        st['d'].pop(n, None); st['o'].pop(n, None); st['q'].pop(n, None); st['a'] = {k: v for k, v in st['a'].items() if k[0] != n}

    def fresh(s, st, e, c):
        n = ('new', (s.fn['id'], e.get('l'), id(e) % 99991 + s.unr * 100003)); s.purge(st, {n}); s.clsof[n] = c
        st['u'][('l', n)] = E; st['u'][('r', n)] = E
        return ('N', n)

    def ctor(s, e, st):
        a = e.get('a') if isinstance(e.get('a'), list) else ([e['e']] if isinstance(e.get('e'), dict) else [])
        tn = s.T[e['t']]['s'] if 't' in e else ''
        r = s.C.R.get(elem(s.T, e['t']).get('rec')) if 't' in e else None
        if e.get('cp') and len(a) == 1: return s.ev(a[0], st)
        if r is not None and r['n'] == 'ptr32': return s.ev(a[0], st) if a else Z
        if r is not None and r['n'] == 'UpdateProxyObject' and len(a) == 2: return s.proxy(a, st, e)
        if r is not None and s.C.info(r['id'])['ch'] and r.get('lib'):
            n = s.fresh(st, e, r['id']); vs = [s.ev(x, st) for x in a]; k = 0
            for x, v in zip(a, vs):
                if v and v[0] == 'N' and 't' in strip(x) and s.C.ncls(strip(x)['t']) is not None:
                    s.use(v, st, e, 'moved')
                    st['l'][(n[1], k)] = v; k += 1
                    i = s.info(n[1]); st['d'][n[1]] = st['d'].get(n[1], E) | frozenset(i['prod'])
            return n
        vs = tuple(s.ev(x, st) for x in a)
        if re.match(r'(const )?std::(pair|tuple)<', tn):
            if len(vs) == 1 and vs[0] and vs[0][0] == 'T': return vs[0]
            return ('T', vs)
        if tn.replace('const ', '') in ('wit::S',) + FT and len(vs) == 1: return vs[0]
        if len(vs) == 1 and vs[0] and vs[0][0] in 'NZT' and (r is None or not r.get('lib')): return vs[0]
        if len(vs) == 1 and 'optional' in tn: return vs[0]
        for v in vs:
            if v and v[0] == 'N' and r is not None and r.get('lib'):
                s.use(v, st, e, 'handed out')
                if real(st['d'].get(v[1], E)): s.bad(e, 'a node whose stored %s is out of date becomes the root' % ', '.join(sorted(st['d'][v[1]]))); st['d'].pop(v[1], None)
        return None

    def proxy(s, a, st, e):
        s.A.count('update proxies')
        l = s.loc(a[0], st); f = s.ev(a[1], st); st2 = s.copy(st); before = dict(st2['d'])
        if l and l[0] == 'f': s.store(l, None, st2, e)
        g = s.lam(f)
        if g is not None: s.inline(g, st2)
        for n, x in st2['d'].items():
            if x - before.get(n, E): s.bad(e, 'assigning through the returned proxy leaves the stored %s out of date' % ', '.join(sorted(x))); break
        if l: s.use(s.load(l, st, None), st, e, 'result')
        return None

    def inline(s, g, st):
        if s.inl > 3: return
        s.inl += 1; ex = Exit()
        th = st['v'].get('this')
        out = s.stmt(g['body'], st, ex); r = s.j([out] + ex.ret); s.inl -= 1
        if r is not None and r is not st:
            for q in r: st[q] = r[q]
        st['v']['this'] = th

    def lam(s, f):
        if f and f[0] == 'L':
            for o in f[1]:
                if s.A.F.get(o) is not None and isinstance(s.A.F[o].get('body'), dict): return s.A.F[o]
        return None

    def binop(s, e, op, a, b, st):
        if op == '=':
            v = s.ev(b, st); s.store(s.loc(a, st), v, st, e); return v
        if op == '^=':
            v = s.ev(b, st); l = s.loc(a, st); x = s.load(l, st, None)
            if x and x[0] == 'W':
                if not (v and v[0] == 'i' and v[1] == 0): s.store(l, ('flip',), st, e)
            elif l and l[0] == 'v': st['v'][l[1]] = None
            return None
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            s.ev(b, st); l = s.loc(a, st)
            if l and l[0] == 'v': st['v'][l[1]] = None
            return None
        if op in ('&&', '||', 'and', 'or'):
            t, f = s.cond(e, s.copy(st)); r = s.j([t, f])
            if r is not None:
                for q in r: st[q] = r[q]
            return None
        x = s.ev(a, st); y = s.ev(b, st)
        if op == ',': return y
        if op == '^':
            for p, q in ((x, y), (y, x)):
                if p and q and p[0] == 'B' and q[0] == 'i': return ('B', p[1], p[2] ^ (q[1] & 1))
            if x and y and x[0] == y[0] == 'i': return ('i', x[1] ^ y[1])
        return None

    def refine(s, e, st, truth):
        e = strip(e)
        while isinstance(e, dict) and e.get('k') == 'cast': e = strip(e['e'])
        if not isinstance(e, dict): return st
        k = e.get('k')
        if k == 'call' and e.get('n') == 'operator bool' and e.get('o') is not None: e = strip(e['o']); k = e.get('k')
        if k == 'call' and e.get('opc') in ('==', '!='):
            a = ([e['o']] if e.get('o') is not None else []) + list(e.get('a') or [])
            return s.ref2(e['opc'], a[0], a[1], st, truth)
        if k == 'bin' and e['op'] in ('==', '!='): return s.ref2(e['op'], e['a'], e['b'], st, truth)
        if k == 'call' and e.get('n') == 'exchange':
            x = getattr(s, 'lastx', None)
            if x and x[0] == id(e) and not truth: st['o'][x[1]] = E
            return st
        if k == 'call' and e.get('n') in ('size', 'empty') and e.get('o') is not None:
            l = s.loc(e['o'], st)
            if l and l[0] == 'v' and l[1] in st['c'] and truth == (e['n'] == 'empty'): s.drained(st, l[1])
            return st
        if k == 'call' and s.A.F.get(e.get('f')) is not None and len(e.get('a') or []) == 1 and e.get('n') in ('empty', 'is_null', 'is_not_null', 'is_leaf'):
            s.quiet += 1; v = s.ev(e['a'][0], s.copy(st)); s.quiet -= 1
            return s.setnull(v, st, truth if e['n'] == 'empty' or e['n'] == 'is_null' else not truth) if e['n'] != 'is_leaf' else st
        if k == 'call' and e.get('n') == 'is_leaf' and truth:
            s.quiet += 1; v = s.obj(strip(e['o']), st, True) if e.get('o') is not None else None; s.quiet -= 1
            if v and v[0] == 'N': st['l'][(v[1], 0)] = Z; st['l'][(v[1], 1)] = Z
            return st
        if k in ('ref', 'mem', 'idx') or k == 'bin' and e['op'] == '=' or k == 'call':
            s.quiet += 1; o = s.out; s.out = Summ()
            st2 = s.copy(st) if k == 'call' else st
            v = s.ev(e if k != 'bin' else e['a'], st2)
            s.quiet -= 1; s.out = o
            if v and v[0] in 'NZ': return s.setnull(v, st, not truth)
            if v and v[0] == 'W' and not truth: st['u'][('r', v[1])] = E; s.settle(st, v[1])
        return st

    def setnull(s, v, st, isnull):
        if v is None: return st
        if v[0] == 'Z': return st if isnull else None
        if v[0] != 'N': return st
        n = v[1]
        if n[0] == 'el' or n[0] == 'u': return st
        if isnull:
            if n[0] == 'new': return None
            st['z'] |= {n}; st['d'].pop(n, None); st['o'].pop(n, None)
            if n[0] == 'ch' and st['o'].get(n[1]): st['o'][n[1]] = st['o'][n[1]] - {n[2]}
        elif n in st['z']: return None
        return st

    def ref2(s, op, a, b, st, truth):
        s.quiet += 1; o = s.out; s.out = Summ()
        st2 = st
        x = s.ev(a, st2); y = s.ev(b, st2)
        s.quiet -= 1; s.out = o
        eq = (op == '==') == truth
        for p, q in ((x, y), (y, x)):
            if q == Z and p and p[0] in 'NZ': return s.setnull(p, st, eq)
            if q == I and p and p[0] == 'F' and eq: st['u'][('l', p[1])] = E; s.settle(st, p[1])
            if q and q[0] == 'i' and q[1] == 0:
                if p and p[0] == 'W' and eq: st['u'][('r', p[1])] = E; s.settle(st, p[1])
                if p and p[0] == 'N': return s.setnull(p, st, eq)
        return st

    def drained(s, st, k):
        st['c'][k] = (0, 0); n = ('el', k); st['d'].pop(n, None)

    # ---- calls
    def call(s, e, st):
        n = e.get('n') or e.get('opc') or ''; args = e.get('a') or []; fn = s.A.F.get(e.get('f')); opc = e.get('opc')
        dq = fn or s.d['_decl'].get(e.get('f')) or {}; q = dq.get('q', '')
        full = ([e['o']] if e.get('o') is not None else []) + list(args)
        ptr = 't' in e and s.C.ncls(e['t']) is not None
        if q.startswith('suisen::ptr32') or opc in ('->', '*') and e.get('o') is not None and 'ptr32' in s.T[strip(e['o']).get('t', 0)]['s']:
            if n == 'alloc':
                for a in args: s.ev(a, st)
                return s.fresh(st, e, s.C.ncls(e['t']))
            if n == 'dealloc':
                v = s.ev(args[0], st)
                if v and v[0] == 'N': s.drop(st, v[1])
                return None
            if opc in ('->', '*'): return s.ev(e['o'], st)
            if opc == '=':
                v = s.ev(args[-1], st); l = s.loc(e['o'], st); s.store(l, v, st, e); return ('R', l) if l else v
            for a in full: s.ev(a, st)
            return None
        if q.startswith('suisen::ObjectPool'):
            vs = [s.ev(a, st) for a in args]
            if n == 'alloc': return s.fresh(st, e, s.C.ncls(e['t']))
            if n == 'free' and vs and vs[0] and vs[0][0] == 'N': s.drop(st, vs[0][1])
            return None
        if q.startswith('wit::') and opc is None and not n.startswith('operator'): return s.user(e, n, args, st)
        if n == 'exchange' and len(args) == 2 and fn is None or n == 'exchange' and q.startswith('std::'):
            l = s.loc(args[0], st); old = s.load(l, st, e.get('t')); v = s.ev(args[1], st)
            if old and old[0] == 'W' and v and v[0] == 'i' and v[1] == 0:
                if s.u(st, 'r', old[1]): s.clear_rev(old[1], st)
                s.lastx = (id(e), old[1]); return None
            s.store(l, v, st, e); return old
        if n == 'swap' and len(args) == 2 and (q.startswith('std::') or not fn or not s.A.lib(e)):
            la = s.loc(args[0], st); lb = s.loc(args[1], st)
            va = s.load(la, st, strip(args[0]).get('t')); vb = s.load(lb, st, strip(args[1]).get('t'))
            if la and lb and la[0] == lb[0] == 'c' and la[1] == lb[1]:
                st['l'][(la[1], la[2])] = vb; st['l'][(lb[1], lb[2])] = va; return None
            s.store(la, vb, st, e); s.store(lb, va, st, e); return None
        if opc == '=' and not s.A.lib(e) or n == 'operator=' and not s.A.lib(e):
            o = strip(e.get('o')) if e.get('o') is not None else strip(args[0])
            if isinstance(o, dict) and o.get('k') == 'call' and o.get('n') == 'tie':
                v = s.ev(args[-1], st)
                for i, a in enumerate(o.get('a') or []): s.store(s.loc(a, st), v[1][i] if v and v[0] == 'T' and i < len(v[1]) else None, st, e)
                return None
            v = s.ev(args[-1], st); l = s.loc(o, st)
            if (l is None or l[0] in 'tmx') and v and v[0] in 'DM': s.use(v, st, e, 'output')
            s.store(l, v, st, e)
            return ('R', l) if l else None
        if n in ('move', 'forward', 'as_const') and len(args) == 1:
            x = strip(args[0])
            if isinstance(x, dict) and x.get('k') in ('ref', 'mem', 'idx'):
                l = s.loc(x, st); return ('R', l) if l else None
            return s.ev(args[0], st)
        if n in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple'): return ('T', tuple(s.ev(a, st) for a in args))
        if n == 'get' and q.startswith('std::') and len(args) == 1:
            v = s.ev(args[0], st); m = re.search(r'<(\d+)', dq.get('full') or '')
            return None
        # containers of nodes
        if e.get('o') is not None and not s.A.lib(e):
            o = strip(e['o']); l = s.loc(o, st) if isinstance(o, dict) and o.get('k') in ('ref', 'mem') else None
            if opc == '[]':
                l2 = s.loc(e, st); return ('R', l2) if l2 else None
            if n in ('back', 'top', 'front') and not args:
                return ('R', ('e', l[1])) if l and l[0] == 'v' and l[1] in st['c'] else None
            vs = [s.ev(a, st) for a in args]
            if l and l[0] == 'v' and l[1] in st['c']:
                c = st['c'][l[1]]
                if n in ('push_back', 'emplace_back', 'push', 'emplace'):
                    en = ('el', l[1])
                    st['c'][l[1]] = (1, max(c[1], int(bool(st['d'].pop(en, None)))))
                    for v in vs:
                        if v and v[0] == 'N':
                            st['i'][v[1]] = l[1]
                            if real(st['d'].get(v[1], E)): st['c'][l[1]] = (1, 1); st['d'].pop(v[1], None)
                    return None
                if n in ('pop_back', 'pop'):
                    en = ('el', l[1])
                    if (c[1] or st['d'].get(en)) and ('upd', l[1]) not in st['v']:
                        if ('owe', l[1]) not in st['v'] and any(x == ('N', en) for kk, x in st['v'].items() if not isinstance(kk, tuple)): st['v'][('owe', l[1])] = I      # taken out first, recomputed right after
                        else: s.bad(e, 'a node on the path is dropped with its stored product out of date')
                    st['v'].pop(('upd', l[1]), None); st['d'].pop(en, None); return None
                if n == 'clear': st['c'][l[1]] = (0, 0)
                return None
            for v in vs:
                if v and v[0] in 'NDM' and n in ('push_back', 'emplace_back', 'push'): s.use(v, st, e, 'output')
            if opc == '()' or n == 'operator()':
                f = s.ev(o, st); g = s.lam(f)
                for v in vs: s.use(v, st, e, 'user function') if not (v and v[0] == 'N') else None
            return None
        if fn and s.A.analysed(fn):
            this = None
            if e.get('o') is not None and not fn.get('lam'):
                this = s.obj(strip(e['o']), st, True)
            elif not fn.get('static') and fn.get('cls') is not None and not fn.get('lam'): this = st['v'].get('this')
            acc = s.accessor(fn, this, args, st)
            if acc is not None: return acc
            acc = s.childget(fn, this, args, st, e)
            if acc is not None: return acc
            if s.setter(fn, this, args, st, e): return None
            vs = [s.ev(a, st) for a in args]
            for i, (a, p) in enumerate(zip(args, fn['p'])):
                if vs[i] is None and i in s.A.nodeparams(fn): vs[i] = s.index(a, st, s.A.nodeparams(fn)[i])
            return s.apply(fn, this, vs, args, st, e)
        vs = [s.ev(a, st) for a in args]
        return None

    def setter(s, fn, this, args, st, e):
        """a function that only stores its argument in a member: done in the caller's state"""
        b = fn['body'].get('s') or []
        if len(b) != 1 or b[0].get('k') != 'expr' or s.inl > 8: return False
        x = strip(b[0]['e'])
        if not isinstance(x, dict): return False
        if x.get('k') == 'bin' and x['op'] == '=': l, r = x['a'], x['b']
        elif x.get('k') == 'call' and x.get('opc') == '=' and not s.A.lib(x) and x.get('o') is not None: l, r = x['o'], x['a'][-1]
        else: return False
        y = strip(r)
        while isinstance(y, dict) and (y.get('k') == 'call' and y.get('n') in ('move', 'forward') or y.get('k') == 'ctor' and y.get('cp')) and len(y.get('a') or []) == 1: y = strip(y['a'][0])
        ids = {p['id']: i for i, p in enumerate(fn['p'])}
        if not isinstance(y, dict) or y.get('k') != 'ref' or y.get('d') not in ids: return False
        vs = [s.ev(a, st) for a in args]
        sv = {p['id']: st['v'].get(p['id']) for p in fn['p']}; th = st['v'].get('this')
        for p, v in zip(fn['p'], vs): st['v'][p['id']] = v
        if not fn.get('static') and not fn.get('lam'): st['v']['this'] = this
        s.inl += 1; loc = s.loc(l, st); s.inl -= 1
        for k, v in sv.items():
            if v is None: st['v'].pop(k, None)
            else: st['v'][k] = v
        if not fn.get('static') and not fn.get('lam'): st['v']['this'] = th
        s.store(loc, vs[ids[y['d']]], st, e)
        return True

    def accessor(s, fn, this, args, st):
        """a function that only returns a reference to a member"""
        b = fn['body'].get('s') or []
        if len(b) != 1 or b[0].get('k') != 'ret' or not s.T[fn['ret']].get('ref') or s.inl > 8: return None
        vs = [s.ev(a, st) for a in args]
        for i, a in enumerate(args):
            if vs[i] is None and i in s.A.nodeparams(fn): vs[i] = s.index(a, st, s.A.nodeparams(fn)[i])
        sv = {p['id']: st['v'].get(p['id']) for p in fn['p']}; th = st['v'].get('this')
        for p, v, a in zip(fn['p'], vs, args):
            l = s.loc(a, st) if v is None and s.T[p['t']].get('ref') else None
            st['v'][p['id']] = ('R', l) if l and l[0] in 'vcfo' else v
        if not fn.get('static') and not fn.get('lam'): st['v']['this'] = this
        s.inl += 1; l = s.loc(b[0]['e'], st); s.inl -= 1
        for k, v in sv.items():
            if v is None: st['v'].pop(k, None)
            else: st['v'][k] = v
        if not fn.get('static') and not fn.get('lam'): st['v']['this'] = th
        return ('R', l) if l and l[0] != 't' else (l[1] if l else None)

    def childget(s, fn, this, args, st, e):
        """get_or_create: every return hands out the same child place X.ch[i] of a parameter, the index being a parameter too"""
        place = s.A.cget.get(fn['id'], 0)
        if place == 0:
            place = None; rs = [x.get('e') for x in walk(fn['body']) if x.get('k') == 'ret']
            ints = {p['id'] for i, p in enumerate(fn['p'])}
            def shape(x):
                x = strip(x)
                if not isinstance(x, dict): return None
                if x.get('k') == 'ref': return ('ref', x.get('d'))
                if x.get('k') == 'mem': return ('mem', x.get('n'), shape(x.get('b')))
                if x.get('k') == 'idx': return ('[]', shape(x.get('a')), shape(x.get('i')))
                if x.get('k') == 'call' and x.get('opc') == '[]': return ('[]',) + tuple(shape(y) for y in ([x['o']] if x.get('o') is not None else []) + list(x.get('a') or []))
                if x.get('k') in ('this', 'gvar'): return (x['k'],)
                return ('?',)
            def bad(h): return h is None or h == ('?',) or any(bad(y) for y in h[1:] if not isinstance(y, (str, int)))
            asg = {}
            for x in walk(fn['body']):
                if x.get('k') == 'bin' and x.get('op') == '=':
                    y = strip(x['b'])
                    if isinstance(y, dict) and y.get('k') == 'ref': asg.setdefault(y.get('d'), []).append(x['a'])
            hs = []
            for r in rs:
                y = strip(r)
                if isinstance(y, dict) and y.get('k') == 'bin' and y.get('op') == '=': y = strip(y['a'])
                if isinstance(y, dict) and y.get('k') == 'ref' and len(asg.get(y.get('d'), ())) == 1: y = strip(asg[y['d']][0])
                hs.append((shape(y), y))
            if hs and not any(bad(h) for h, _ in hs) and len({h for h, _ in hs}) == 1 and hs[0][0][0] == '[]' and hs[0][0][-1][0] == 'ref' and hs[0][0][-1][1] in ints and (len(rs) > 1 or len(fn['body'].get('s') or []) > 1): place = hs[0][1]
            s.A.cget[fn['id']] = place
        if place is None or s.inl > 8: return None
        vs = [s.ev(a, st) for a in args]
        for i, a in enumerate(args):
            if vs[i] is None and i in s.A.nodeparams(fn): vs[i] = s.index(a, st, s.A.nodeparams(fn)[i])
        sv = {p['id']: st['v'].get(p['id']) for p in fn['p']}
        for p, v, a in zip(fn['p'], vs, args):
            if v is None and lit(a) is not None: v = ('i', int(lit(a)))
            st['v'][p['id']] = v
        s.inl += 1; l = s.loc(place, st); s.inl -= 1
        for k, v in sv.items():
            if v is None: st['v'].pop(k, None)
            else: st['v'][k] = v
        if not l or l[0] != 'c' or l[2] == '?': return None
        return s.load(l, st, fn['ret'])

    def user(s, e, n, args, st):
        vs = [s.ev(a, st) for a in args]
        if OPS.match(n):
            for v in vs: s.use(v, st, e, 'product')
            return ('X', 'op')
        if MAP.match(n) and len(vs) >= 2:
            s.A.count('operations applied')
            v = vs[1]
            if len(args) == 3 and v and v[0] == 'D':
                i = s.info(v[1])
                if i and i['T'] - i['prod'] and (v[2] in i['prod']) == (lit(args[2]) == 1): s.bad(e, 'an operation is applied to the stored %s with the wrong number of elements' % v[2])
            if vs[0] == I: return v
            return ('M', vs[0], v)
        if COMP.match(n) and len(vs) == 2:
            s.A.count('compositions'); a, b = vs
            if a and a[0] == 'F' and b is not None and b[0] in 'AK': s.bad(e, 'operations are composed in the wrong order: the one already stored in the node is given first')
            if b == I: return a
            if a == I and b and b[0] == 'F': return ('K', None, b)
            return ('K', a, b)
        if n == 'id': return I
        if n == 'toggle': return ('X', 'toggle')
        if n.startswith('pred'):
            for v in vs: s.use(v, st, e, 'predicate')
        return None

    def argsym(s, sym, this, vs, st, pick='any'):
        """the caller's node for a callee's symbol"""
        if sym[0] == 'p': v = vs[sym[1]] if sym[1] < len(vs) else None; return v
        if sym == ('this',): return this
        if sym[0] == 'ch':
            p = s.argsym(sym[1], this, vs, st)
            if not p or p[0] != 'N': return None
            if isinstance(sym[2], int): return s.child(st, p[1], sym[2])
            if sym[2][0] == 'B' and isinstance(sym[2][1], tuple) and sym[2][1][1] < len(vs):
                k = vs[sym[2][1][1]]
                if k and k[0] == 'i': return s.child(st, p[1], (k[1] & 1) ^ sym[2][2])
                if k and k[0] == 'B': return s.child(st, p[1], ('B', k[1], k[2] ^ sym[2][2]))
            # a child chosen at run time: the one the caller has at hand
            c = [v for (m, k), v in st['l'].items() if m == p[1] and v and v[0] == 'N']
            c += [('N', x[1]) for x in st['u'] if x[1][0] == 'ch' and x[1][1] == p[1]]
            c += [v for v in st['v'].values() if v and v[0] == 'N' and v[1][0] == 'ch' and v[1][1] == p[1]]
            good = [v for v in c if not s.u(st, 'l', v[1]) and not s.u(st, 'r', v[1])]
            if good: return good[0]
            if c: return c[0]
            return s.child(st, p[1], sym[2])
        return None

    def apply(s, fn, this, vs, args, st, e):
        s.A.deps.setdefault(fn['id'], set()).add(s.fn['id'])
        m = s.A.summ.get(fn['id'])
        if m is None: raise Dead()
        A = lambda sym: s.argsym(sym, this, vs, st)
        for o in m.needs:
            v = A(o)
            if v and v[0] == 'N' and v[1] not in st['z']:
                w = s.u(st, 'l', v[1]) | s.u(st, 'r', v[1])
                if w: s.need(w, e, '%s is called on a node before what is pending on it was handed down' % fn['n'])
        for o in m.touch:
            v = A(o)
            if v and v[0] == 'N' and o[0] != 'ch': s.use(v, st, e, 'passed on')
        for o in m.uses:
            v = A(o)
            if v and v[0] == 'N':
                i = s.info(v[1])
                if i and st['d'].get(v[1], E) & i['prod']: s.bad(e, 'the stored %s of a node is used (%s) after its children or value changed and before it was recomputed' % (', '.join(sorted(st['d'][v[1]])), fn['n']))
                elif base(v[1])[0] in ('p', 'this'): s.out.uses |= ({v[1]} if depth(v[1]) < 2 else E)
        # an operation handed on
        for (o, j), fs in m.app.items():
            v = A(o); f = vs[j] if isinstance(j, int) and j < len(vs) else None
            if v and v[0] == 'N':
                for x in fs: s.apply_mark(st, v[1], f if f else ('A', 'x'), x, e)
        for o in m.rev:
            v = A(o)
            if v and v[0] == 'N': s.store_rev(v[1], ('flip',), st, e)
        retsym = {}
        for o, kd in sorted(m.unc.items(), key=repr):
            v = A(o)
            if not v or v[0] != 'N': continue
            moved = False
            for q in 'lr':
                if dict(kd).get(q) == 'clean':
                    moved |= bool(s.u(st, q, v[1])); st['u'][(q, v[1])] = E
                elif dict(kd).get(q) == 'own' and not (o, ) in (): 
                    st['u'][(q, v[1])] = frozenset((('own', v[1]),))
            if moved: s.settle(st, v[1])
        for o in m.relink:
            v = A(o)
            if v and v[0] == 'N':
                st['l'] = {k: w for k, w in st['l'].items() if k[0] != v[1]}
                s.purge_children(st, v[1])
        pre = {}
        for o in m.dirty:
            v = A(o)
            if v and v[0] == 'N': pre[o] = s.dd(st, v[1])
        for o in m.chg:
            v = A(o)
            if v and v[0] == 'N': s.changed(st, v[1], e, up=not s.hasnode(m.ret))
        for o in m.kill:
            v = A(o)
            if v and v[0] == 'N': s.drop(st, v[1])
        for o, fs in m.dirty.items():
            v = A(o)
            if v and v[0] == 'N':
                old = pre.get(o, E); new = real(fs) | frozenset(f for f in old if '?' + f.lstrip('?') in fs)
                if v[1] in st['i'] and v[1][0] != 'el':
                    if real(new): st['c'][st['i'][v[1]]] = (1, 1)
                    new = new - real(new)
                st['d'][v[1]] = new
                if v[1][0] == 'el' and '?' not in ''.join(fs) and not real(fs):
                    if ('owe', v[1][1]) in st['v']: st['v'].pop(('owe', v[1][1]))
                    else: st['v'][('upd', v[1][1])] = ('i', 1)
                    st['d'].pop(v[1], None)
        return s.mkret(m.ret, fn, this, vs, st, e, ())

    def purge_children(s, st, n):
        ids = {x for x in list(st['s']) + [k[1] for k in st['u']] + list(st['d']) if x[0] == 'ch' and x[1] == n}
        for k, v in st['v'].items():
            if v and v[0] == 'N' and v[1][0] == 'ch' and v[1][1] == n: ids.discard(v[1])
        for i in ids:
            st['s'].pop(i, None); st['d'].pop(i, None); st['u'].pop(('l', i), None); st['u'].pop(('r', i), None)

    def mkret(s, r, fn, this, vs, st, e, path):
        if r is None or r[0] == 'bot': return None
        if r[0] == 'T': return ('T', tuple(s.mkret(x, fn, this, vs, st, e, path + (i,)) for i, x in enumerate(r[1])))
        if r[0] == 'N':
            n = ('r', (s.fn['id'], (e or {}).get('l'), id(e) % 99991 + s.unr * 100003, path))
            _, sym, unc, dirty, stale, app, cp, _c = r; unc = unc or ()
            if sym is not None:
                v = s.argsym(sym, this, vs, st)
                if v is not None: return v
            s.purge(st, {n})
            s.clsof[n] = s.C.ncls(fn['ret']) if s.C.ncls(fn['ret']) is not None else r[7]
            if cp is not None:
                v = s.argsym(cp, this, vs, st); st['v'][('fresh', n)] = I
                if v and v[0] == 'N':
                    st['v'][('copy', n)] = v
                    for kd in 'lr': st['u'][(kd, n)] = s.u(st, kd, v[1]) if dict(unc).get(kd) == 'same' else E if dict(unc).get(kd) == 'clean' else frozenset((n,))
                    if v[1] in st['s']: st['s'][n] = st['s'][v[1]]
                    for (m, k), w in list(st['l'].items()):
                        if m == v[1]: st['l'][(n, k)] = w
                else:
                    for kd in 'lr': st['u'][(kd, n)] = frozenset((n,)) if dict(unc).get(kd) != 'clean' else E
            else:
                for kd in 'lr': st['u'][(kd, n)] = E if dict(unc).get(kd) == 'clean' else frozenset((n,))
            if real(dirty): st['d'][n] = real(dirty)
            for j, fs in app:
                if j == 'rev':
                    if v and v[0] == 'N': s.rev_copy(st, n, v[1])
                    continue
                f = vs[j] if isinstance(j, int) and j < len(vs) else None
                for x in fs:
                    if f is not None and f[0] == 'F': st['k'] |= {(x, n, f[1])}; st['h'][f[1]] = st['h'].get(f[1], E) | {'l'}
                    elif f is not None: st['a'][(n, f[1] if f[0] == 'A' else 'acc')] = st['a'].get((n, f[1] if f[0] == 'A' else 'acc'), E) | {x}
            return ('N', n)
        if r[0] == 'D':
            v = s.argsym(r[1], this, vs, st); return ('D', v[1], r[2]) if v and v[0] == 'N' else None
        if r[0] == 'F':
            v = s.argsym(r[1], this, vs, st); return ('F', v[1]) if v and v[0] == 'N' else None
        if r[0] == 'R':
            v = s.argsym(r[1][1], this, vs, st)
            return ('R', (r[1][0], v[1]) + tuple(r[1][2:])) if v and v[0] == 'N' else None
        if r[0] in 'ZIX': return r
        return None

    # ---- statements
    def stmt(s, n, st, ex):
        try:
            if st is not None and isinstance(n, dict) and n.get('k') in ('for', 'rfor'):
                u = s.unrolled(n, st)
                if u is not None:
                    inner = Exit()
                    was = s.unr
                    for j, (v, bind) in enumerate(u):
                        if st is None: break
                        st['v'][v] = bind(st) if callable(bind) else bind
                        s.unr = was * 4 + j; st = s.stmt(n['s'], st, inner); s.unr = was; st = s.j([st] + inner.cont); inner.cont = []
                    ex.ret += inner.ret
                    return s.j([st] + inner.brk)
            ks = s.backwards(n, st) if st is not None and isinstance(n, dict) and n.get('k') in ('for', 'while', 'rfor') and st['c'] else ()
            out = Flow.stmt(s, n, st, ex)
            if out is not None:
                for k in ks: s.drained(out, k)
            return out
        except Dead: return None

    def backwards(s, n, st):
        """containers of path nodes a loop walks from the back, recomputing every element"""
        down = {strip(x['e']).get('d') for x in walk(n) if x.get('k') == 'un' and '--' in x.get('op', '')}
        rit = {}
        for x in walk(n):
            if x.get('k') == 'decl':
                for v in x['v']:
                    for y in walk(v.get('e') or {}):
                        if y.get('k') == 'call' and y.get('n') in ('rbegin', 'crbegin') and y.get('o') is not None and strip(y['o']).get('d') in st['c']: rit[v['id']] = strip(y['o'])['d']
        def elem_of(a):
            a = strip(a)
            while isinstance(a, dict) and (a.get('k') == 'ctor' and len(a.get('a') or []) == 1 or a.get('k') == 'call' and a.get('n') == 'operator->' and False): a = strip(a['a'][0])
            if not isinstance(a, dict): return None
            if a.get('k') == 'call' and a.get('opc') == '[]' and a.get('o') is not None and strip(a['o']).get('d') in st['c'] and any(y.get('d') in down for y in walk(a['a'][-1]) if y.get('k') == 'ref'): return strip(a['o'])['d']
            if a.get('k') == 'call' and a.get('opc') == '*' and strip(a.get('o') if a.get('o') is not None else (a.get('a') or [{}])[0]).get('d') in rit: return rit[strip(a.get('o') if a.get('o') is not None else a['a'][0])['d']]
            if a.get('k') == 'ref' and a.get('d') in al: return al[a['d']]
            return None
        al = {}
        if n['k'] == 'rfor' and isinstance(strip(n.get('r')), dict) and strip(n['r']).get('d') in st['c'] and n['v'].get('id') is not None and any(x.get('k') == 'call' and x.get('n') == 'reverse' and any(y.get('d') == strip(n['r'])['d'] for y in walk(x) if y.get('k') == 'ref') for x in walk(s.fn['body'])): al[n['v']['id']] = strip(n['r'])['d']
        for x in walk(n.get('s') or {}):
            if x.get('k') == 'decl':
                for v in x['v']:
                    k = elem_of(v.get('e')) if v.get('e') is not None else None
                    if k is not None: al[v['id']] = k
        out = set()
        for x in walk(n):
            fn = s.A.F.get(x.get('f')) if x.get('k') == 'call' else None
            if not fn or not s.A.analysed(fn) or fn['id'] not in s.A.summ: continue
            for i, a in [(None, x.get('o'))] + list(enumerate(x.get('a') or [])):
                k = elem_of(a) if a is not None else None
                if k is None: continue
                z = s.copy(st); vs = [None] * len(fn['p']); this = None
                if i is None: this = ('N', ('el', k))
                elif i < len(vs): vs[i] = ('N', ('el', k))
                rep, s.A.report = s.A.report, False
                try: s.apply(fn, this, vs, x.get('a') or [], z, x)
                except Dead: continue
                finally: s.A.report = rep
                if ('upd', k) in z['v']: out.add(k)
        return out

    def unrolled(s, n, st):
        """a loop over a few constants, or over the children of one node: the values of its variable, one by one"""
        def kept(v): return not any(x.get('k') == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') and strip(x['a']).get('d') == v or x.get('k') == 'un' and ('++' in x['op'] or '--' in x['op']) and strip(x['e']).get('d') == v for x in walk(n['s']))
        if n['k'] == 'for':
            i = n.get('init'); c = strip(n.get('c')) if n.get('c') is not None else None; inc = strip(n.get('inc')) if n.get('inc') is not None else None
            if not (isinstance(i, dict) and i.get('k') == 'decl' and len(i['v']) == 1 and isinstance(c, dict) and c.get('k') == 'bin' and isinstance(inc, dict) and inc.get('k') == 'un'): return None
            v = i['v'][0]; lo = lit(v['e']) if v.get('e') is not None else None; hi = lit(c['b'])
            if lo is None or hi is None or strip(c['a']).get('d') != v['id'] or strip(inc['e']).get('d') != v['id'] or not kept(v['id']): return None
            if '++' in inc['op'] and c['op'] in ('<', '<=', '!='): r = range(int(lo), int(hi) + (c['op'] == '<='))
            elif '--' in inc['op'] and c['op'] in ('>', '>=', '!='): r = range(int(lo), int(hi) - (c['op'] == '>='), -1)
            else: return None
            return [(v['id'], ('i', x)) for x in r] if len(r) <= 4 else None
        v = n['v']; r = n.get('r')
        if r is None or v.get('binds') or not kept(v['id']) and not s.T[v['t']].get('ref'): return None
        for x in walk(r):
            if x.get('k') in ('init', 'ilist', 'stdinit') and isinstance(x.get('a'), list) and x['a']:
                ls = [lit(y) for y in x['a']]
                if None not in ls and 1 < len(ls) <= 4: return [(v['id'], ('i', int(y))) for y in ls]
        l = s.loc(r, st)
        if l and l[0] == 'f':
            i = s.info(l[1])
            if i and l[2] in i['ch'] and len(i['ch']) == 1:
                if s.T[v['t']].get('ref'): return [(v['id'], ('R', ('c', l[1], k))) for k in (0, 1)]
                return [(v['id'], lambda st, k=k: s.load(('c', l[1], k), st, v['t'])) for k in (0, 1)]
        return None

    def on_return(s, e, st, node):
        if e is None: return
        x = strip(e)
        if s.inl: s.ev(x, st); return
        if s.T[s.fn['ret']].get('ref'):
            l = s.loc(x, st); st['v']['#ret'] = ('R', l) if l and l[0] != 't' else l[1] if l else None; return
        v = s.ev(x, st); st['v']['#ret'] = v

    def decl(s, v, st):
        t = s.T[v['t']] if 't' in v else {}
        if v.get('binds'):
            x = s.ev(v['e'], st) if v.get('e') is not None else None
            for i, b in enumerate(v['binds']): st['v'][b['id'] if isinstance(b, dict) else b] = x[1][i] if x and x[0] == 'T' and i < len(x[1]) else None
            return
        if re.match(r'(const )?std::(vector|deque|stack)<', t.get('s', '')):
            if v.get('static') and v['id'] in st['c']: return
            if v.get('e') is not None: s.ev(v['e'], st)
            st['c'][v['id']] = (0, 0); return
        if t.get('ref') and v.get('e') is not None:
            l = s.loc(v['e'], st)
            if l is not None and l[0] in 'vcfo': st['v'][v['id']] = ('R', l); return
            st['v'][v['id']] = l[1] if l is not None and l[0] == 't' else None; return
        x = s.ev(v['e'], st) if v.get('e') is not None else None
        if x is None and v.get('e') is not None and ('var', v['id']) in s.A.nodeparams(s.fn): x = s.index(v['e'], st, s.A.nodeparams(s.fn)[('var', v['id'])])
        if x is None and v.get('e') is not None and t.get('s', '').replace('const ', '') in ('bool', 'int'): x = ('B', v['id'], 0)
        if x and x[0] == 'R': x = s.load(x[1], st, v.get('t'))
        st['v'][v['id']] = x

    # ---- one function
    def run(s):
        fn = s.fn; st = s.new()
        s.pidx = {p['id']: i for i, p in enumerate(fn['p'])}
        s.assigned = set()
        for x in walk(fn['body']):
            if x.get('k') == 'bin' and x.get('op', '').endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                y = strip(x['a'])
                if isinstance(y, dict) and y.get('k') == 'ref': s.assigned.add(y.get('d'))
        np = s.A.nodeparams(fn)
        for i, p in enumerate(fn['p']):
            c = s.C.ncls(p['t'])
            if c is not None or i in np:
                st['v'][p['id']] = ('N', ('p', i)); s.setcls(('p', i), c if c is not None else np.get(i))
            elif elem(s.T, p['t'])['s'].replace('const ', '') in FT: st['v'][p['id']] = ('A', i)
        c = fn.get('cls')
        if c is not None and not fn.get('static') and not fn.get('lam') and s.C.info(c)['ch']:
            st['v']['this'] = ('N', ('this',)); s.setcls(('this',), c)
        elif not fn.get('lam'): st['v']['this'] = ('O', 0)
        ex = Exit(); out = s.stmt(fn['body'], st, ex)
        sts = [(z, z['v'].pop('#ret', None)) for z in ex.ret] + ([(out, None)] if out is not None else [])
        end = None; val = None; first = True
        rs = {v[1] for z, v in sts if v and v[0] == 'N' and v[1] not in z['z']}
        for z, v in sts:
            s.atexit(z, v)
            if v and (v == Z or v[0] == 'N' and v[1] in z['z']) and rs: z['z'] |= rs - {x for x in rs if x[0] in ('p', 'this', 'ch')}
            else: z['v']['#ret'] = v
            end = z if end is None else s.join(end, z)
        if end is None: return None
        o = s.out; v = end['v'].get('#ret')
        syms = [('p', i) for i, p in enumerate(fn['p']) if s.clsof.get(('p', i)) is not None] + ([('this',)] if s.clsof.get(('this',)) is not None else [])
        syms += [x for x in {k[1] for k in end['u']} | set(end['d']) if x[0] == 'ch' and base(x)[0] in ('p', 'this') and x[1][0] in ('p', 'this')]
        for n in syms:
            if n in end['z']: continue
            r = {}
            for kd in 'lr':
                w = s.u(end, kd, n)
                r[kd] = 'same' if not s.has(n, kd) and n not in end['z'] or w == frozenset((n,)) else 'clean' if not w else 'own'
            if n[0] != 'ch' or any(x == 'clean' and s.has(n, k) for k, x in r.items()): o.unc[n] = tuple(sorted(r.items()))
            if n in end['d']: o.dirty[n] = end['d'][n]
        for (n, f), fs in end['a'].items():
            if n[0] in ('p', 'this') and isinstance(f, int): o.app[(n, f)] = fs
        if s.A.report and s.A.api(fn):
            s.A.count('public operations')
            if o.needs: s.bad(None, 'the operation reads or moves the children of its argument without handing down what is pending on it')
            for n in syms:
                if n[0] == 'p' and real(o.dirty.get(n, E)) and n not in end['z']: s.bad(None, 'the operation ends with the stored %s of its argument out of date' % ', '.join(sorted(real(o.dirty[n]))))
        if s.A.report:
            for i, p in enumerate(fn['p']):
                if elem(s.T, p['t'])['s'].replace('const ', '') in FT and fn['n'] not in ('mapping', 'composition') and not any(x.get('k') == 'ref' and x.get('d') == p['id'] for x in walk(fn['body'])): s.bad(None, 'the operation given is never applied')
        for m in end['k']: pass
        o.ret = s.sumret(v, end)
        if o.ret is None:       # different values on different paths: the callers cannot see any more which stored value it was
            for z, w in sts:
                if w and w[0] == 'R' and w[1]: w = s.load(w[1], z, fn['ret'])
                if w and w[0] == 'D': s.use(w, z, None, 'result')
        return o

    def sumret(s, v, st):
        if v is None: return None
        if v[0] == 'T': return ('T', tuple(s.sumret(x, st) for x in v[1]))
        if v[0] == 'N':
            n = v[1]; b = base(n)
            if b[0] in ('p', 'this') and depth(n) < 2: return ('N', n, None, E, E, (), None, s.clsof.get(n))
            src = st['v'].get(('copy', n)); cp = None
            unc = {}
            for kd in 'lr':
                w = s.u(st, kd, n); unc[kd] = 'clean' if not w else 'own'
            if src and base(src[1])[0] in ('p', 'this'):
                cp = src[1]
                for kd in 'lr':
                    if s.u(st, kd, n) and s.u(st, kd, n) == s.u(st, kd, cp): unc[kd] = 'same'
            app = tuple(sorted(((f, fs) for (m, f), fs in st['a'].items() if m == n and (isinstance(f, int) or f == 'rev')), key=repr))
            return ('N', None, tuple(sorted(unc.items())), st['d'].get(n, E), E, app, cp, s.clsof.get(n))
        if v[0] in ('D', 'F') and base(v[1])[0] in ('p', 'this'): return v
        if v[0] == 'R' and v[1] and v[1][0] in 'cf' and base(v[1][1])[0] in ('p', 'this'): return v
        if v[0] in 'ZIX': return v
        return None

    def atexit(s, st, v):
        fn = s.fn
        if v and v[0] == 'R':
            x = s.load(v[1], st, fn['ret']) if v[1] else None
            if x and x[0] == 'D': s.use(x, st, None, 'result')
        elif v is not None and not (v[0] == 'D' and base(v[1])[0] in ('p', 'this') and v[1] not in st['s']):
            def us(x):
                if x and x[0] == 'T': [us(y) for y in x[1]]
                elif x and x[0] == 'N' and x[1] in st['s']: s.use(x, st, None, 'returned')
                elif x and x[0] in 'DM': s.use(x, st, None, 'result')
            us(v)
        held = set()
        def hold(x):
            if x and x[0] == 'N': held.add(x[1])
            if x and x[0] == 'T': [hold(y) for y in x[1]]
        hold(v)
        reach = set(held) | {x[1] for k, x in st['v'].items() if isinstance(k, tuple) and k[0] == 'o' and x and x[0] == 'N'}
        while True:
            more = {w[1] for (m, k), w in st['l'].items() if w and w[0] == 'N' and w[1] not in reach and (m in reach or base(m)[0] in ('p', 'this', 'root', 'up') or m[0] in ('el', 'phi'))}
            if not more: break
            reach |= more
        for n, fs in st['d'].items():
            fs = real(fs)
            if ('fresh', n) in st['v'] and n not in reach: continue      # a copy nothing leads to
            if not fs or n in st['z'] or n in held or base(n)[0] in ('p', 'this') or n[0] in ('u', 'el'): continue
            s.bad(None, 'the stored %s of a node is not recomputed after its children or value changed' % ', '.join(sorted(fs)))
        for n in st['q']:
            if n not in st['z'] and st['q'][n]: s.given(n, st, None)
        for n, ks in st['o'].items():
            if ks and n not in st['z']: s.bad(None, 'a pending reversal is dropped without being handed to both children')
        for n, ks in st['h'].items():
            if n not in st['z'] and any(s.u(st, k, n) & {n, ('own', n)} for k in ks): s.bad(None, 'what is pending on a node stays pending although it was handed to a child'); break
        for k, (ne, di) in st['c'].items():
            if ('owe', k) in st['v']: s.bad(None, 'a node on the path is dropped with its stored product out of date')
            if ne and di or st['d'].get(('el', k)): s.bad(None, 'nodes on the path are left with their stored products out of date')
        for (n, f), fs in st['a'].items():
            if n in st['z'] or n[0] in ('p', 'this') or n in held or f in ('acc', 'rev') or n[0] == 'u': continue
            i = s.info(n)
            if not i: continue
            want = set(i['T']) | ({'laz'} if i['F'] else set())
            if 'laz' in fs and not fs >= want: s.bad(None, 'an operation is recorded as pending without being applied to the stored %s' % ', '.join(sorted(want - fs)))


class Analysis:
    def __init__(s, d, res):
        s.d = d; s.T = d['types']; s.F = d['_f']; s.res = res; s.C = Cls(d); s.summ = {}; s.deps = {}; s.report = False; s.mods = 0; s.np = {}; s.ok = {}; s.cget = {}; s.skip = lambda fn, what: False
    def count(s, k):
        if s.report: s.res.count(k)
    def lib(s, e):
        fn = s.F.get(e.get('f')); return bool(fn and s.analysed(fn))
    def analysed(s, fn):
        if fn['id'] not in s.ok: s.ok[fn['id']] = isinstance(fn.get('body'), dict) and not fn.get('imp') and not fn.get('defaulted') and X.rel(s.d['files'][fn['loc'][0]]).startswith('library/') and not fn['q'].startswith(('suisen::ObjectPool', 'suisen::ptr32'))
        return s.ok[fn['id']]
    def api(s, fn):
        """an operation offered to users that takes nodes"""
        if fn.get('acc') not in ('public', None) or '(lambda)' in fn['q'] or fn.get('cls') is None or fn.get('ctor') or fn.get('dtor'): return False
        f = X.rel(s.d['files'][fn['loc'][0]])
        return 'red_black' in f and bool(fn.get('static')) or 'link_cut' in f and not s.C.info(fn['cls'])['ch']
    def nodeparams(s, fn): return s.np.get(fn['id'], {})

    def indices(s, funcs):
        """integer parameters that index the node pool"""
        for _ in range(4):
            ch = False
            for fn in funcs:
                ids = {p['id']: i for i, p in enumerate(fn['p'])}
                for x in walk(fn['body']):
                    if x.get('k') == 'decl':
                        for v in x['v']:
                            if v.get('id') is not None and v.get('e') is not None: ids.setdefault(v['id'], ('var', v['id']))
                for x in walk(fn['body']):
                    if x.get('k') == 'call' and x.get('opc') == '[]' and not s.lib(x) and 't' in x and x.get('a'):
                        c = s.C.direct(x['t']); y = strip(x['a'][-1])
                        if c is not None and isinstance(y, dict) and y.get('k') == 'ref' and y.get('d') in ids:
                            if s.np.setdefault(fn['id'], {}).get(ids[y['d']]) is None: s.np[fn['id']][ids[y['d']]] = c; ch = True
                    elif x.get('k') == 'call' and x.get('f') in s.np:
                        for i, c in s.np[x['f']].items():
                            if not isinstance(i, int): continue
                            a = x.get('a') or []
                            y = strip(a[i]) if i < len(a) else None
                            if isinstance(y, dict) and y.get('k') == 'ref' and y.get('d') in ids and s.np.setdefault(fn['id'], {}).get(ids[y['d']]) is None: s.np[fn['id']][ids[y['d']]] = c; ch = True
            if not ch: break

    def solve(s, funcs):
        s.indices(funcs)
        work = list(funcs); n = 0; inq = {f['id'] for f in work}; cnt = {}; forced = False
        while work and n < 40 * len(funcs):
            fn = work.pop(0); inq.discard(fn['id']); n += 1
            old = s.summ.get(fn['id']); cnt[fn['id']] = cnt.get(fn['id'], 0) + 1
            if cnt[fn['id']] > 12: continue
            new = Fn(s, fn).run()
            if new is None: continue
            s.summ[fn['id']] = new
            if old is None or old.key() != new.key():
                for q in s.deps.get(fn['id'], ()):
                    if q not in inq and q in s.F: inq.add(q); work.append(s.F[q])
            if not work and not forced:
                # what never returns, or only returns through itself
                forced = True
                for f in funcs:
                    if f['id'] not in s.summ:
                        s.summ[f['id']] = Summ(); s.summ[f['id']].ret = None
                        for q in s.deps.get(f['id'], ()):
                            if q not in inq and q in s.F: inq.add(q); work.append(s.F[q])
        s.rounds = n
        s.report = True
        for fn in funcs: Fn(s, fn).run()
