"""Embedded numbers. Every literal table (three or more integers) and every integer literal of at least four digits is collected from the syntax trees of all headers. A value that differs from the reviewed inventory (witness/constants.json) is accepted only if it satisfies the mathematical condition its role demands (a published deterministic Miller-Rabin base set for its bound; consecutive primes and ceil(2^32/p); the wheel of residues coprime to 30; Euler's phi of primorials; prime moduli with at least the same power of two in p-1 and at least the same product; grid directions); the reviewed values themselves are re-derived from the same conditions on every run. Guards `n < bound` that select a base table are paired with the table they reach. Further conditions are in s13b.py (masks, shifts, word widths, wheel residues, transform sizes, the product modulo 2^61-1) and s13c.py (numbers changed in place)."""
import json, math
import extract as X
from flow import walk, strip, lit, kids
TECHNIQUE = 'collection of literal tables and constants from the syntax trees, decided against number-theoretic conditions and a reviewed inventory; guard/table pairing over the call graph'
OUT = X.VERIF + '/witness/constants.json'

# deterministic strong-pseudoprime base sets (J. Sinclair et al.): every composite below the bound is exposed
MR = [(341531, [9345883071009581737]),
      (1050535501, [336781006125, 9639812373923155]),
      (350269456337, [4230279247111683200, 14694767155120705706, 16641139526367750375]),
      (55245642489451, [2, 141889084524735, 1199124725622454117, 11096072698276303650]),
      (7999252175582851, [2, 4130806001517, 149795463772692060, 186635894390467037, 3967304179347715805]),
      (585226005592931977, [2, 123635709730000, 9233062284813009, 43835965440333360, 761179012939631437, 1263739024124850375]),
      (1 << 64, [2, 325, 9375, 28178, 450775, 9780504, 1795265022]),
      (4759123141, [2, 7, 61]),
      (2047, [2]), (1373653, [2, 3]), (25326001, [2, 3, 5]), (3215031751, [2, 3, 5, 7]), (2152302898747, [2, 3, 5, 7, 11]),
      (3474749660383, [2, 3, 5, 7, 11, 13]), (341550071728321, [2, 3, 5, 7, 11, 13, 17]), (3825123056546413051, [2, 3, 5, 7, 11, 13, 17, 19, 23]),
      (1 << 64, [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37])]


def mr_bound(b): return max([t for t, s in MR if set(s) <= set(b)] or [0])


def is_prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d = n - 1; s = 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True


def v2(n): return (n & -n).bit_length() - 1
PRIMES = [p for p in range(2, 3000) if is_prime(p)]
K = [r for r in range(30) if math.gcd(r, 30) == 1]


def wheel(v, rows):
    """v is one row (or the flat table) of a mod-30 wheel table"""
    if v == K: return True
    D = [(K[(i + 1) % 8] - K[i]) % 30 for i in range(8)]
    if v == D or v == [8 * d for d in D]: return True
    for i in range(8):
        df = [K[i] * (K[j] + D[j]) // 30 - K[i] * K[j] // 30 for j in range(8)]
        off = [K.index(K[i] * K[j] % 30) for j in range(8)]
        if v in (df, [8 * x for x in df], off, [1 << x for x in off]): return True
    return False


def gtable(h, v, tabs):
    """mathematical condition of a table, or None when there is none for it"""
    if 'miller_rabin' in h: return mr_bound(v) > 0
    if h.endswith('number/modint.hpp'): return mr_bound(v) >= 1 << 31
    if h.endswith('internal_eratosthenes.hpp'): return wheel(v, tabs)
    if h.endswith('fast_discrete_logarithm.hpp'):
        n = len(v)
        return v == PRIMES[:n] or v == [-(-(1 << 32) // p) for p in PRIMES[:n]]
    if h.endswith('number/util.hpp') or h.endswith('sieve_of_eratosthenes.hpp'):
        n = len(v); ph = [1]
        for p in PRIMES[1:n]: ph.append(ph[-1] * (p - 1))
        return v == PRIMES[:n] or v == ph
    if h.endswith('grid_utils.hpp'): return None
    return None


def lits(e): return [x for x in walk(e) if x.get('k') == 'int' and lit(x) is not None]


def tables(e):
    r = []
    for x in walk(e):
        if 'vals' in x: v = [int(y) for y in x['vals']]
        elif x.get('k') in ('init', 'ilist', 'x') and isinstance(x.get('a'), list): v = [lit(y) for y in x['a']]
        else: continue
        if len(v) >= 3 and all(isinstance(z, int) and not isinstance(z, bool) for z in v): r.append((v, x.get('l', 0)))
    return r


def collect():
    r = {}
    for h, j in sorted(X.run_headers().items()):
        d = X.load(j); T = []; L = {}; N = {}
        for s in d['funcs'] + d['vars']:
            if s.get('inst') or X.rel(d['files'][s['loc'][0]]) != h: continue
            root = {'k': 'root', 'x': [s.get('body'), s.get('init')] + [i.get('e') for i in s.get('inits') or [] if isinstance(i.get('e'), dict)]}
            root['x'] = [y for y in root['x'] if isinstance(y, dict)]
            seen = set()
            for v, l in tables(root): T.append((v, l or s['loc'][1], s['q']))
            for x in lits(root):
                v = lit(x)
                if abs(v) >= 1000: L.setdefault(v, '%s:%d' % (h, x.get('l') or s['loc'][1])); N[v] = N.get(v, 0) + 1
            for x in walk(root):
                for y in x.get('vals') or []:
                    if abs(int(y)) >= 1000: L.setdefault(int(y), '%s:%d' % (h, x.get('l') or s['loc'][1]))
        # template arguments are types: their numbers are part of the type names
        if T or L: r[h] = (T, L, N)
    return r


# values that only trade time for space: any value gives the same answers
TUNING = ('factorial_large.hpp', 'fast_factorize.hpp', 'sieve_of_eratosthenes_constexpr.hpp', 'hashes.hpp', 'multi_variate_convolution_circular.hpp', 'formal_power_series_relaxed.hpp', 'binomial_coefficient.hpp')
MODS = ('convolution_2_64.hpp', 'arbitrary_mod_convolution.hpp', 'frequency_table_of_tree_distance.hpp')


def run(res, tier):
    fz = json.load(open(OUT)); cur = collect()
    for h, z in sorted(fz.items()):
        T, L, N = cur.get(h, ([], {}, {}))
        ft = [tuple(t) for t in z['tables']]; ct = {}
        for v, l, q in T: ct.setdefault(tuple(v), (l, q))
        gone = [t for t in ft if t not in ct]; new = [t for t in ct if t not in ft]
        res.count('literal tables compared', len(ft))
        # the reviewed values satisfy their own conditions
        for t in ft:
            g = gtable(h, list(t), ft)
            if g is not None: res.count('tables decided by a mathematical condition')
            if g is False: res.violation('oracle:%s:%s' % (h, t[:3]), h, 'reviewed table violates its condition')
        for t in new:
            g = gtable(h, list(t), [list(x) for x in ct])
            if g is True: continue
            near = [x for x in gone if len(x) == len(t)] or ([x for x in gone if abs(len(x) - len(t)) <= max(2, len(x) // 4) and len(set(x) & set(t)) * 2 >= min(len(x), len(t))])
            if near or g is False:
                l, q = ct[t]; x = near[0] if near else ()
                diff = [(i, a, b) for i, (a, b) in enumerate(zip(x, t)) if a != b][:3]
                res.violation('table:%s:%s' % (h, q), '%s:%d' % (h, l), 'the table %s holds wrong values: %s' % (q, ', '.join('entry %d is %d, should be %d' % (i, b, a) for i, a, b in diff) or 'its entries satisfy no required condition'), q)
        for t in gone:
            if len(t) and not new: res.count('tables no longer present')
        if any(h.endswith(m) for m in TUNING): continue
        fl = set(z['lits']); cl = set(L)
        res.count('literals compared', len(fl))
        intab = {v for t in new for v in t}
        g2, n2 = sorted(fl - cl), sorted(v for v in cl - fl if v not in intab)
        if any(h.endswith(m) for m in MODS):
            fp = [p for p in fl if p > 1 << 26 and is_prime(p)]; cp = [p for p in cl if p > 1 << 26]
            for p in fp: res.count('prime moduli re-proved')
            for p in fp:
                if p not in cl and not n2 and cur.get(h): res.violation('mod-gone:%s:%d' % (h, p), h, 'the modulus %d is no longer among the moduli combined here' % p)
        # one of several copies of a constant was changed
        if n2 and not g2: g2 = sorted(int(v) for v, c in (z.get('counts') or {}).items() if N.get(int(v), 0) < c)
        for v in n2:
            if not g2: break
            w = min(g2, key=lambda x: (abs(x.bit_length() - v.bit_length()), abs(x - v)))
            if any(h.endswith(m) for m in MODS) and is_prime(w) and w > 1 << 26:
                if is_prime(v) and v2(v - 1) >= v2(w - 1) and v >= w: res.count('moduli replaced by equally good ones'); continue
            if abs(w.bit_length() - v.bit_length()) > 6: continue
            res.violation('lit:%s:%d' % (h, v), L[v], 'the constant %d is now %d' % (w, v))
    distinct(res)
    inline_bases(res)
    structural(res, fz)
    from rules import s13c
    s13c.run(res, json.load(open(X.VERIF + '/witness/numbers.json')))
    pairs(res)
    res.floor('literal tables compared', 30); res.floor('literals compared', 100)


def structural(res, fz):
    from rules import s13b
    z = json.load(open(OUT2)); clz, cm, ext = s13b.run(res, fz)
    for h, v in sorted(clz.items()):
        if h.startswith('w:'):
            h = h[2:]; n = z['narrow'].get(h, 0)
            if len(v) > n:
                for f, t, l, q in v:
                    if n and any(q == o for o in z['narrow_in'].get(h, [])): continue
                    res.violation('narrow:%s:%s' % (h, q), '%s:%d' % (h, l), '%s looks at the low 32 bits of a value of type %s only' % (f, t), q)
            continue
        for f, c, l, q in v:
            res.count('top-bit computations decided')
            w = s13b.CLZ[f]
            if c not in z['clz'].get(h, [w - 1, w]): res.violation('clz:%s:%s' % (h, q), '%s:%d' % (h, l), '%d - %s(x) is not the index of the top bit of a %d-bit number' % (c, f, w), q)
    for h, gs in sorted(z['ntt'].items()):
        cur = sorted(cm.get(h, []), key=lambda g: g[0])
        if len(cur) != len(gs): continue
        for (n, order, prod), (m, ps, s) in zip(sorted(gs), cur):
            if n != m or not all(is_prime(p) for p in ps): continue
            res.count('groups of moduli compared with the range they must cover')
            if min(v2(p - 1) for p in ps) < order: res.violation('ntt-order:%s:%d' % (h, n), '%s:%d' % (h, s['loc'][1]), 'the moduli %s have roots of order 2^%d only, 2^%d are needed' % (ps, min(v2(p - 1) for p in ps), order), s['q'])
            if math.prod(ps) < prod: res.violation('ntt-prod:%s:%d' % (h, n), '%s:%d' % (h, s['loc'][1]), 'the product of the moduli %s no longer covers the range of the results' % ps, s['q'])
    for h, e in sorted(z['ext'].items()):
        cur = ext.get(h, {}); e = {int(k): v for k, v in e.items()}
        for n in cur:
            res.count('sizes of fixed arrays compared')
            gone = [m for m in e if cur.get(m, 0) < e[m]]
            if n not in e and gone and n < max(gone): res.violation('ext:%s:%d' % (h, n), h, 'a fixed array of %d entries now has %d' % (max(gone), n))


OUT2 = X.VERIF + '/witness/structure.json'


def distinct(res):
    """moduli combined by one function are pairwise distinct"""
    for h, j in sorted(X.run_headers().items()):
        if not any(h.endswith(m) for m in MODS): continue
        d = X.load(j); g = {}
        for s in d['funcs'] + d['vars']:
            if s.get('inst') or X.rel(d['files'][s['loc'][0]]) != h: continue
            if isinstance(s.get('init'), dict) and strip(s['init']).get('k') == 'int' and (lit(s['init']) or 0) > 1 << 26: g.setdefault(s['q'].rsplit('::', 1)[0], []).append((lit(s['init']), s['n'], s['loc'][1]))
            if not isinstance(s.get('body'), dict): continue
            for x in walk(s['body']):
                if x.get('k') == 'decl':
                    for v in x['v']:
                        if v.get('e') is not None and strip(v['e']).get('k') == 'int' and (lit(v['e']) or 0) > 1 << 26: g.setdefault(s['q'] + str(s['loc'][1]), []).append((lit(v['e']), v.get('n'), x.get('l') or s['loc'][1]))
        for q, v in g.items():
            res.count('groups of combined moduli'); seen = {}
            for p, n, l in v:
                if not is_prime(p): continue
                if p in seen: res.violation('mod-dup:%s:%s:%d' % (h, q, p), '%s:%d' % (h, l), 'the moduli %s and %s that are combined by the Chinese remainder theorem are both %d' % (seen[p], n, p), q)
                seen[p] = n


def inline_bases(res):
    """base sets spelled as literals (b % n) in one call"""
    for h, j in sorted(X.run_headers().items()):
        if 'miller_rabin' not in h: continue
        d = X.load(j)
        for s in d['funcs']:
            if not isinstance(s.get('body'), dict) or X.rel(d['files'][s['loc'][0]]) != h: continue
            for x in walk(s['body']):
                if x.get('k') not in ('call', 'init', 'ilist') or not isinstance(x.get('a'), list): continue
                b = {lit(y['a']) for z in x['a'] for y in walk(z) if y.get('k') == 'bin' and y['op'] == '%' and lit(y['a']) is not None and lit(y['a']) > 1}
                if len(b) < 2: continue
                res.count('base sets spelled inline')
                if mr_bound(sorted(b)) < 1 << 31: res.violation('inline:%s:%d' % (h, x.get('l', 0)), '%s:%d' % (h, x.get('l', 0)), 'the bases %s do not decide primality below 2^31' % sorted(b), s['q'])


def pairs(res):
    """guards n < bound that select a base table"""
    d = X.load(X.run_witnesses(['number'])['number'])
    gv = {v['id']: [int(y) for y in v['init']['vals']] for v in d['vars'] if isinstance(v.get('init'), dict) and v['init'].get('vals')}
    for v in d['vars']:
        if isinstance(v.get('init'), dict) and v['id'] not in gv:
            t = [lit(y) for y in v['init'].get('a') or []] if isinstance(v['init'].get('a'), list) else []
            if t and all(isinstance(y, int) for y in t): gv[v['id']] = t
    fid = {f['id']: f for f in d['funcs']}
    def reach(f, seen):
        """(tables, loop bounds) used by f"""
        if f['id'] in seen: return []
        seen.add(f['id']); r = []
        b = f.get('body')
        if not isinstance(b, dict): return []
        tabs = {}
        for x in walk(b):
            if x.get('k') == 'ref' and x.get('d') in gv: tabs[x['d']] = 1
        bounds = {lit(x['b']) for x in walk(b) if x.get('k') == 'bin' and x['op'] in ('<', '!=') and lit(x.get('b')) is not None and strip(x['a']).get('k') == 'ref'}
        for t in tabs: r.append((gv[t], bounds, f))
        for x in walk(b):
            if x.get('k') == 'call' and x.get('f') in fid: r += reach(fid[x['f']], seen)
        return r
    for f in d['funcs']:
        if not f['q'].endswith('::is_prime') or 'miller_rabin::' not in f['q'] or not isinstance(f.get('body'), dict): continue
        W = X.rel(d['files'][f['loc'][0]])
        for st in f['body'].get('s') or []:
            bound = None; body = None
            if st.get('k') == 'if' and strip(st['c']).get('k') == 'bin' and strip(st['c'])['op'] in ('<', '<='):
                c = strip(st['c']); bound = lit(c['b']); body = st.get('a')
                if bound is not None and c['op'] == '<=': bound += 1
            elif st.get('k') == 'ret': bound = 1 << 64; body = st
            if bound is None or body is None: continue
            for x in walk(body):
                if x.get('k') != 'call' or x.get('f') not in fid: continue
                for t, bounds, g in reach(fid[x['f']], set()):
                    res.count('bound/table pairs decided')
                    n = [b for b in bounds if b is not None and 1 <= b <= len(t) + 3]
                    use = t[:min(n)] if n and min(n) < len(t) else t
                    if n and min(n) > len(t): res.violation('mr-size:%d' % bound, '%s:%d' % (W, st.get('l', 0)), 'the loop over a table of %d bases runs to %d' % (len(t), min(n)), f['q'])
                    if mr_bound(use) < bound: res.violation('mr:%d' % bound, '%s:%d' % (W, st.get('l', 0)), 'bases %s are used for n below %d, they are proven only below %d' % (use[:3], bound, mr_bound(use)), f['q'])
