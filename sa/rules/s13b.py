"""Further conditions on embedded numbers, decided on the syntax trees with folded constants:
 bits    swap steps ((x & A) >> k) | ((x & B) << k) and counting steps (x & M) + ((x >> k) & M) use complementary masks, every stage once
 split   a value cut into x >> s and x & m in one function uses m == 2^s - 1
 ceil    (x + c) >> s rounds up with c == 2^s - 1
 clz     C - __builtin_clz(x) uses the index of the top bit (or the width) of the type that is counted
 width   a 64-bit value is never handed to a 32-bit counting builtin; the high half of a double-width product is taken at the width
 wheel   switch over residues modulo 30 returns the smallest prime factor, and reads the sieve cell of that residue
 trial   `n < C` accepted as prime after trial division needs C <= (next prime)^2; bases that may equal n are excluded
 mersenne  the product and the reduction modulo 2^61-1 are polynomial identities
 ntt     groups of moduli combined by CRT are primes of the needed order, and size limits stay within that order
"""
import math, re
import extract as X
from flow import walk, strip, lit, kids


def num(e):
    v = lit(e)
    if isinstance(v, bool) or v is None: return None
    return v


def uncast(e):
    while isinstance(e, dict) and (e.get('k') in ('cast', 'paren', 'mat', 'bindtemp', 'exprwc') or (e.get('k') in ('construct', 'x') and isinstance(e.get('a'), list) and len(e['a']) == 1)):
        e = e['e'] if 'e' in e and isinstance(e['e'], dict) else e['a'][0] if isinstance(e.get('a'), list) and e['a'] else None
    return e


def key(e):
    e = uncast(e)
    if not isinstance(e, dict): return '?'
    k = e.get('k')
    if num(e) is not None: return str(num(e))
    if k == 'ref': return 'v%s' % e.get('d')
    if k == 'this': return 'this'
    if k == 'mem': return key(e.get('b')) + '.' + str(e.get('n'))
    if k == 'bin': return '(%s%s%s)' % (key(e['a']), e['op'], key(e['b']))
    if k == 'un': return '%s(%s)' % (e.get('op'), key(e.get('a') if isinstance(e.get('a'), dict) else e.get('e')))
    return '#%s' % id(e)


def bn(e, *ops):
    e = uncast(e)
    return e if isinstance(e, dict) and e.get('k') == 'bin' and e.get('op') in ops else None


def assigned(body):
    """keys of variables that change inside the function"""
    r = set()
    for x in walk(body):
        if x.get('k') == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='): r.add(key(x['a']))
        if x.get('k') == 'un' and x.get('op') in ('++', '--', 'p++', 'p--', '++p', '--p'): r.add(key(x.get('a') if isinstance(x.get('a'), dict) else x.get('e')))
    return r


def is_prime(n): return n > 1 and all(n % d for d in range(2, math.isqrt(n) + 1))


def full(m):
    for w in (8, 16, 32, 64):
        if m < 1 << w: return w
    return None


def bits(res, h, s):
    b = s['body']; stages = {}; pstages = {}; w = None; last = None; pw = None; bad = False
    for x in walk(b):
        # swap step
        if x.get('k') == 'bin' and x['op'] in ('|', '+', '^'):
            for p, q in ((x['a'], x['b']), (x['b'], x['a'])):
                r, l = bn(p, '>>'), bn(q, '<<')
                if not r or not l: continue
                k1, k2 = num(r['b']), num(l['b'])
                if k1 is None or k2 is None: continue
                ra, la = bn(r['a'], '&'), bn(l['a'], '&')
                A = num(ra['b']) if ra else None; B = num(la['b']) if la else None
                ka = key(ra['a'] if ra else r['a']); kb = key(la['a'] if la else l['a'])
                if ka != kb or '#' in ka: continue
                at = '%s:%d' % (h, x.get('l') or s['loc'][1])
                if A is not None and B is not None:
                    W = full(max(A, B)); w = max(w or 0, W)
                    res.count('bit swap steps decided')
                    if k1 != k2: res.violation('swap:%s:%s:%d' % (h, s['q'], k1), at, 'the two halves of a bit swap are moved by %d and %d' % (k1, k2), s['q'])
                    elif A != B << k1 or A & B or (A | B) != (1 << W) - 1: res.violation('swap:%s:%s:%d' % (h, s['q'], k1), at, 'the masks %#x and %#x do not select all bits of alternate blocks of %d' % (A, B, k1), s['q'])
                    stages.setdefault(k1, 0); stages[k1] += 1
                elif A is None and B is None and w: last = (k1, k2, at)
            for p, q in ((x['a'], x['b']), (x['b'], x['a'])):
                if x['op'] != '+': continue
                m0 = bn(p, '&')
                if not m0 or num(m0['b']) is None: continue
                M = num(m0['b']); m1 = bn(q, '&'); sh = bn(m1['a'], '>>') if m1 else bn(q, '>>')
                if not sh or num(sh['b']) is None or key(sh['a']) != key(m0['a']) or '#' in key(m0['a']): continue
                k = num(sh['b']); N = num(m1['b']) if m1 else M
                if N is None or M < 3 and not m1: continue
                W = full(M << k if k < 64 else M); at = '%s:%d' % (h, x.get('l') or s['loc'][1])
                if W is None: continue
                pw = max(pw or 0, W); res.count('bit counting steps decided')
                if M != N or M & (M << k) or (M | (M << k)) & ((1 << W) - 1) != (1 << W) - 1: res.violation('cnt:%s:%s:%d' % (h, s['q'], k), at, 'the masks %#x and %#x with a shift by %d do not add up adjacent blocks of %d bits' % (M, N, k, k), s['q'])
                pstages[k] = pstages.get(k, 0) + 1
    if len(stages) >= 3:
        if last:
            k1, k2, at = last
            if k1 != k2 or 2 * k1 != w: res.violation('swap:%s:%s:last' % (h, s['q']), at, 'the last step of the reversal of %d bits swaps by %d and %d' % (w, k1, k2), s['q'])
            else: stages[k1] = stages.get(k1, 0) + 1
        need = {1 << i for i in range(w.bit_length() - 1)}
        if set(stages) != need and all(v == 1 for v in stages.values()) and last: res.violation('swap:%s:%s:stages' % (h, s['q']), '%s:%d' % (h, s['loc'][1]), 'the reversal of %d bits swaps blocks of %s, needed %s' % (w, sorted(stages), sorted(need)), s['q'])


def splits(res, h, s):
    b = s['body']; chg = assigned(b); sh = {}; an = {}; sl = {}
    for x in walk(b):
        if x.get('k') != 'bin': continue
        if x['op'] == '>>' and num(x['b']) is not None:
            a = key(x['a'])
            if '#' not in a and num(x['a']) is None: sh.setdefault(a, {})[num(x['b'])] = x
            p = bn(x['a'], '+')
            if p and num(p['b']) is not None and num(x['b']) >= 2:
                c, k = num(p['b']), num(x['b'])
                if abs(c + 1 - (1 << k)) <= 2 and c > 2:
                    res.count('round-up shifts decided')
                    if c + 1 != 1 << k: res.violation('ceil:%s:%s' % (h, s['q']), '%s:%d' % (h, x.get('l') or s['loc'][1]), '(x + %d) >> %d does not round up to blocks of %d' % (c, k, 1 << k), s['q'])
        if x['op'] == '&' and num(x['b']) is not None:
            a = key(x['a'])
            if '#' not in a and num(x['a']) is None: an.setdefault(a, {})[num(x['b'])] = x
    for a in set(sh) & set(an):
        if a in chg or any(c and c in a for c in chg if c != '?'): continue
        ks, ms = set(sh[a]), set(an[a])
        if len(ks) != 1 or len(ms) != 1: continue
        k, m = ks.pop(), ms.pop()
        if m < 3 or k < 2: continue
        res.count('split pairs decided')
        if m != (1 << k) - 1: res.violation('split:%s:%s:%d' % (h, s['q'], m), '%s:%d' % (h, an[a][m].get('l') or s['loc'][1]), 'a value is cut into x >> %d and x & %#x, which is not 2^%d - 1' % (k, m, k), s['q'])


CLZ = {'__builtin_clz': 32, '__builtin_clzl': 64, '__builtin_clzll': 64}
NARROW = ('__builtin_clz', '__builtin_ctz', '__builtin_popcount', '__builtin_parity', '__builtin_ffs')


def callee(x):
    n = x.get('n')
    if not n and isinstance(x.get('fe'), dict): n = uncast(x['fe']).get('n') if isinstance(uncast(x['fe']), dict) else None
    return n or ''


def affine(e, f):
    """constant part of e seen as c +- f(...): (c, sign) or None"""
    e = uncast(e)
    if not isinstance(e, dict): return None
    if num(e) is not None: return num(e), 0
    if e.get('k') == 'call' and callee(e) == f: return 0, 1
    if e.get('k') == 'bin' and e['op'] in '+-':
        a, b = affine(e['a'], f), affine(e['b'], f)
        if a is None or b is None: return None
        g = 1 if e['op'] == '+' else -1
        return a[0] + g * b[0], a[1] + g * b[1]
    return None


def builtins(res, h, s, T, fz, out):
    b = s['body']; inner = set()
    for x in walk(b):
        if x.get('k') == 'bin' and x['op'] in '+-' and id(x) not in inner:
            for f, w in CLZ.items():
                r = affine(x, f)
                if r and r[1] == -1:
                    for y in walk(x): inner.add(id(y))
                    out.setdefault(h, []).append((f, r[0], x.get('l') or s['loc'][1], s['q']))
        if x.get('k') == 'call' and callee(x) in NARROW and isinstance(x.get('a'), list) and x['a']:
            res.count('bit builtins whose operand width was decided')
            e = x['a'][0]
            c = e
            while isinstance(c, dict) and c.get('k') in ('cast', 'paren') and (c.get('imp') or c.get('k') == 'paren'): c = c['e']
            t = T(c.get('t')) if isinstance(c, dict) else None
            if num(c) is None and t and (t.get('int') or 0) > 32: out.setdefault('w:' + h, []).append((callee(x), t['s'], x.get('l') or s['loc'][1], s['q']))


def highword(res, h, s, T):
    for x in walk(s['body']):
        if x.get('k') != 'bin' or x['op'] != '>>' or num(x['b']) is None: continue
        a = uncast(x['a']); m = a
        if not isinstance(a, dict) or a.get('k') != 'bin': continue
        w = (T(a.get('t')) or {}).get('int')
        if w == 128 and a['op'] == '*' and not any((T(y.get('t')) or {}).get('int') == 128 and uncast(y).get('k') in ('ref', 'mem') and (T(uncast(y).get('t')) or {}).get('int') == 128 for y in (a['a'], a['b'])):
            res.count('high halves of products decided')
            if num(x['b']) != 64: res.violation('high:%s:%s' % (h, s['q']), '%s:%d' % (h, x.get('l') or s['loc'][1]), 'the high half of a product of 64-bit numbers is taken with a shift by %d' % num(x['b']), s['q'])
        elif w == 64 and a['op'] == '*':
            def wide32(e):
                c = strip(e)
                return isinstance(c, dict) and c.get('k') in ('cast', 'construct') and not c.get('imp') and (T((uncast(c) or {}).get('t')) or {}).get('int') == 32
            if wide32(a['a']) or wide32(a['b']):
                res.count('high halves of products decided')
                if num(x['b']) != 32 and abs(num(x['b']) - 32) <= 4: res.violation('high:%s:%s' % (h, s['q']), '%s:%d' % (h, x.get('l') or s['loc'][1]), 'the high half of a product of 32-bit numbers is taken with a shift by %d' % num(x['b']), s['q'])


def nextprime(res, h, s):
    """a wheel that starts after a table of primes starts at the next prime"""
    from rules.s13 import tables, PRIMES
    tabs = [v for v, l in tables(s['body']) if len(v) >= 3 and v == PRIMES[:len(v)]]
    if not tabs: return
    last = max(t[-1] for t in tabs); want = PRIMES[PRIMES.index(last) + 1]
    for x in walk(s['body']):
        if x.get('k') != 'decl': continue
        for v in x['v']:
            e = uncast(v.get('e')) if isinstance(v.get('e'), dict) else None
            if isinstance(e, dict) and e.get('k') == 'int' and last < (num(e) or 0) <= want + 6:
                res.count('wheel starts decided')
                if num(e) != want: res.violation('next:%s:%s' % (h, s['q']), '%s:%d' % (h, x.get('l') or s['loc'][1]), 'trial division goes on at %d after the primes up to %d' % (num(e), last), s['q'])


def dynmod(res, h, s, src):
    """a modulus is handed to a 31-bit run-time modint only below 2^31"""
    for x in walk(s['body']):
        if x.get('k') != 'if' or not isinstance(x.get('a'), dict): continue
        c = bn(x['c'], '<', '<=')
        if not c or (num(c['b']) or 0) < 1 << 20: continue
        ls = [y['l'] for y in walk(x['a']) if y.get('l')]
        if not ls or 'dynamic_modint' not in '\n'.join(src[min(ls) - 1:max(ls)]): continue
        C = num(c['b']) + (c['op'] == '<=')
        res.count('limits of run-time moduli decided')
        if C > 1 << 31: res.violation('dynmod:%s:%s' % (h, s['q']), '%s:%d' % (h, x.get('l') or s['loc'][1]), 'moduli up to %d are handed to a run-time modint that takes moduli below 2^31' % (C - 1), s['q'])


def bases_let_through(res, h, s):
    from rules.s13 import tables
    if s['n'] != 'is_prime' or any(x.get('k') == 'continue' for x in walk(s['body'])): return
    for v, l in tables(s['body']):
        eq = set()
        for x in walk(s['body']):
            if x.get('k') == 'if' and ret_bool(x.get('a')) is True:
                eq |= {num(bn(c, '==')['b']) for c in disj(x['c']) if bn(c, '==') and num(bn(c, '==')['b']) is not None}
        if not eq: continue
        res.count('small primes decided')
        if set(v) - eq: res.violation('base:%s:%s' % (h, s['q']), '%s:%d' % (h, l or s['loc'][1]), 'n == %s is tested with itself as a base, which always fails' % sorted(set(v) - eq), s['q'])


def extents(src):
    """literal sizes of fixed arrays"""
    t = re.sub(r'/\*.*?\*/|//[^\n]*', '', src, flags=re.S)
    r = {}
    for m in re.finditer(r'std::array\s*<[^;{}()]*?,\s*(\d+)\s*>|\b[\w:]+\s+(\w+\[\d+\](?:\s*,\s*\*?\w+\[\d+\])*)', t):
        for n in ([m.group(1)] if m.group(1) else re.findall(r'\[(\d+)\]', m.group(2))):
            if int(n) >= 8: r[int(n)] = r.get(int(n), 0) + 1
    return r


def trial(res, h, s):
    """trial division followed by `n < C`: true"""
    st = []
    for blk in walk(s['body']):
        if blk.get('k') == 'block': st = blk.get('s') or []; _trial(res, h, s, st)


def ret_bool(a):
    while isinstance(a, dict) and a.get('k') == 'block' and len(a.get('s') or []) == 1: a = a['s'][0]
    if isinstance(a, dict) and a.get('k') == 'ret' and isinstance(a.get('e'), dict):
        v = lit(a['e'])
        return bool(v) if v in (0, 1) else None
    return None


def disj(e):
    e = uncast(e)
    if isinstance(e, dict) and e.get('k') == 'bin' and e['op'] == '||': return disj(e['a']) + disj(e['b'])
    return [e]


def _trial(res, h, s, st):
    ps, eq, var = set(), set(), None
    for x in st:
        if x.get('k') != 'if': continue
        r = ret_bool(x.get('a'))
        if r is None or x.get('b') and ret_bool(x['b']) is None: continue
        for c in disj(x['c']):
            e = bn(c, '==')
            if e and r is False and num(e['b']) == 0 and bn(e['a'], '%') and num(bn(e['a'], '%')['b']): ps.add(num(bn(e['a'], '%')['b'])); var = key(bn(e['a'], '%')['a'])
            if e and r is True and num(e['b']) is not None and num(e['b']) > 1: eq.add(num(e['b'])); res.count('small primes decided'); bad = not is_prime(num(e['b'])); var = var or key(e['a'])
            if e and r is True and num(e['b']) is not None and num(e['b']) > 1 and bad: res.violation('small:%s:%d' % (h, num(e['b'])), '%s:%d' % (h, x.get('l') or s['loc'][1]), '%d is accepted as a prime' % num(e['b']), s['q'])
            l = bn(c, '<', '<=')
            if l and r is True and num(l['b']) is not None and ps and key(l['a']) == var:
                C = num(l['b']) + (l['op'] == '<=')
                q = 2
                while q in ps or any(q % p == 0 for p in ps if p < q): q += 1
                res.count('trial division limits decided')
                if C > q * q: res.violation('trial:%s:%d' % (h, C), '%s:%d' % (h, x.get('l') or s['loc'][1]), 'n below %d is taken for a prime after trial division by %s only' % (C, sorted(ps)), s['q'])
    if len(ps) >= 2 and eq and not ps <= eq:
        # a prime that is divided out must be let through first
        res.count('small primes decided')
        d = sorted(ps - eq)
        res.violation('small:%s:%s' % (h, d), '%s:%d' % (h, s['loc'][1]), 'n == %s is rejected by its own trial division' % d, s['q'])


def wheel(res, h, s):
    for x in walk(s['body']):
        if x.get('k') != 'switch': continue
        c = bn(x['c'], '%')
        if not c or num(c['b']) != 30 or not isinstance(x.get('s'), dict): continue
        R = [r for r in range(30) if math.gcd(r, 30) == 1]; seen = {}
        pend = []; default = False
        def visit(n):
            nonlocal pend, default
            if n.get('k') in ('case', 'default'):
                if n['k'] == 'default': default = True; pend.append(None)
                else: pend.append(num(n['c']))
                if isinstance(n.get('s'), dict): visit(n['s'])
                return
            if n.get('k') == 'ret':
                for p in pend: seen[p] = (n, n.get('l') or s['loc'][1])
            pend = [] if n.get('k') in ('ret', 'break') else pend
        for n in x['s'].get('s') or []: visit(n)
        for lab, (n, l) in sorted(((a, b) for a, b in seen.items() if a is not None), key=lambda z: z[0]):
            v = num(n['e']) if isinstance(n.get('e'), dict) else None
            g = math.gcd(lab, 30) if lab else 30
            if v is not None and not isinstance(lit(n['e']), bool):
                res.count('wheel residues decided')
                want = next((p for p in (2, 3, 5) if g % p == 0), None)
                if v != want: res.violation('wheel:%s:%s:%d' % (h, s['q'], lab), '%s:%d' % (h, l), 'numbers with residue %d modulo 30 are given the factor %d, the smallest is %s' % (lab, v, want), s['q'])
            elif g == 1 and isinstance(n.get('e'), dict):
                i = R.index(lab); offs = set()
                for y in walk(n['e']):
                    p = bn(y, '+')
                    if p and num(p['b']) is not None and bn(p['a'], '*') and num(bn(p['a'], '*')['b']) == 8: offs.add(num(p['b']))
                res.count('wheel residues decided')
                if offs and offs != {i}: res.violation('wheel:%s:%s:%d' % (h, s['q'], lab), '%s:%d' % (h, l), 'residue %d modulo 30 reads sieve cell %s instead of %d' % (lab, sorted(offs), i), s['q'])
        if not default and seen:
            miss = [r for r in range(30) if r not in seen]
            if miss: res.violation('wheel:%s:%s:miss' % (h, s['q']), '%s:%d' % (h, x.get('l') or s['loc'][1]), 'residues %s modulo 30 have no case' % miss, s['q'])


# ---- polynomials over Z as {sorted tuple of symbols: coefficient}
def padd(a, b, g=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + g * v
        if not r[k]: del r[k]
    return r


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            z = tuple(sorted(k + l)); r[z] = r.get(z, 0) + v * w
            if not r[z]: del r[z]
    return r


class Poly:
    def __init__(self): self.env = {}
    def ev(self, e):
        e = uncast(e)
        if not isinstance(e, dict): return None
        v = num(e)
        if v is not None: return {(): v} if v else {}
        k = e.get('k')
        if k in ('ref', 'mem'):
            n = key(e)
            if n in self.env: return self.env[n]
            return None if '#' in n else {(n,): 1}
        if k == 'bin':
            op = e['op']
            if op in '+-*':
                a, b = self.ev(e['a']), self.ev(e['b'])
                if a is None or b is None: return None
                return pmul(a, b) if op == '*' else padd(a, b, 1 if op == '+' else -1)
            n = num(e['b'])
            if n is None: return None
            a = self.ev(e['a'])
            if a is None: return None
            if op == '<<': return pmul(a, {(): 1 << n})
            if op == '>>': return {('q%d[%s]' % (n, sorted(a.items())),): 1}
            if op == '&' and n > 0 and n & (n + 1) == 0:
                w = n.bit_length()
                return padd(a, {('q%d[%s]' % (w, sorted(a.items())),): 1 << w}, -1)
        return None


def mersenne(res, h, fs):
    """multiplication and reduction modulo 2^61-1 are identities of polynomials modulo that prime"""
    P = (1 << 61) - 1
    mod0 = lambda p: {k: v % P for k, v in p.items() if v % P}
    for s in fs:
        if s['n'] not in ('fast_mod', 'operator*='): continue
        E = Poly(); ps = [p.get('id') for p in s.get('p') or []]; ok = True
        prod = None; ret = None
        for st in s['body'].get('s') or []:
            if st.get('k') == 'decl':
                for v in st['v']:
                    if isinstance(v.get('e'), dict):
                        p = E.ev(v['e'])
                        if p is None: ok = False
                        else: E.env['v%s' % v['id']] = p
            elif st.get('k') == 'expr':
                a = bn(st['e'], '=')
                if a:
                    r = uncast(a['b'])
                    if isinstance(r, dict) and r.get('k') == 'call' and callee(r) == 'fast_mod' and r.get('a'): prod = (E.ev(r['a'][0]), key(a['a']), st)
            elif st.get('k') == 'if':
                for y in walk(st):
                    if y.get('k') == 'bin' and y['op'] in ('>=', '<', '-=') and num(y['b']) is not None and num(y['b']) > 1 << 40:
                        res.count('Mersenne reductions decided')
                        if num(y['b']) != P: res.violation('mersenne:%s:%s' % (h, s['n']), '%s:%d' % (h, y.get('l') or s['loc'][1]), 'a value is reduced by %d instead of 2^61 - 1' % num(y['b']), s['q'])
            elif st.get('k') == 'ret' and isinstance(st.get('e'), dict): ret = (E.ev(st['e']), st)
        if s['n'] == 'fast_mod' and ret and ret[0] is not None and ps:
            res.count('Mersenne reductions decided')
            if mod0(padd(ret[0], {('v%s' % ps[0],): 1}, -1)): res.violation('mersenne:%s:fast_mod' % h, '%s:%d' % (h, ret[1].get('l') or s['loc'][1]), 'the folded value is not congruent to the argument modulo 2^61 - 1', s['q'])
        if prod and prod[0] is not None and ps:
            a, f = prod[1], prod[1].split('.')[-1]
            want = {tuple(sorted((a, 'v%s.%s' % (ps[0], f)))): 1}
            res.count('Mersenne products decided')
            if mod0(padd(prod[0], want, -1)): res.violation('mersenne:%s:mul' % h, '%s:%d' % (h, prod[2].get('l') or s['loc'][1]), 'the expression that is reduced is not congruent to the product of the operands modulo 2^61 - 1', s['q'])


def v2(n): return (n & -n).bit_length() - 1


def bigprime(n):
    from rules.s13 import is_prime as ip
    return ip(n)


def groups(body):
    """literal constants above 2^26 declared in one function"""
    g = {}
    for x in walk(body):
        if x.get('k') == 'decl':
            for v in x['v']:
                e = uncast(v.get('e')) if isinstance(v.get('e'), dict) else None
                if isinstance(e, dict) and e.get('k') == 'int' and (num(e) or 0) > 1 << 26: g[v.get('n')] = (num(e), x.get('l'))
    return g


def ntt(res, h, fs, out):
    order = {}
    for s in fs:
        g = groups(s['body'])
        if len(g) < 2: continue
        at = lambda l: '%s:%d' % (h, l or s['loc'][1])
        out.setdefault(h, []).append((len(g), [v for v, l in g.values()], s))
        for n, (v, l) in g.items():
            res.count('combined moduli decided')
            if not bigprime(v): res.violation('ntt:%s:%s:%s' % (h, s['q'], n), at(l), 'the modulus %s = %d is not a prime' % (n, v), s['q'])
        order[s['q']] = min(v2(v - 1) for v, l in g.values())
    if not order: return
    def limits(e):
        r = []
        for y in walk(e):
            c = bn(y, '<=', '<') if y.get('k') == 'bin' else None
            if c and num(c['b']) is not None and num(c['b']) >= 1 << 16: r.append(num(c['b']) - (c['op'] == '<'))
        return r
    def calls(n): return [o for y in walk(n) if y.get('k') == 'call' for q, o in order.items() if q.endswith('::' + callee(y)) or q == callee(y)]
    for s in fs:
        for x in walk(s['body']):
            pairs = []
            if x.get('k') == 'if' and isinstance(x.get('a'), dict): pairs.append((limits(x['c']), calls(x['a']), x))
            if x.get('k') == 'block':
                ls = []
                for st in x.get('s') or []:
                    if st.get('k') == 'expr': ls += limits(st)
                    elif st.get('k') in ('ret', 'decl') and ls: pairs.append((ls, calls(st), st))
            for ls, os, y in pairs:
                if ls and os:
                    res.count('transform size limits decided')
                    if min(ls) > 1 << min(os): res.violation('ntt-size:%s:%s' % (h, s['q']), '%s:%d' % (h, y.get('l') or s['loc'][1]), 'results of up to %d terms are computed with moduli that have roots of order 2^%d only' % (min(ls), min(os)), s['q'])


def guards53(res, h, s):
    """integers are handed to double arithmetic only below 2^53"""
    for x in walk(s['body']):
        if x.get('k') != 'if' or not isinstance(x.get('a'), dict): continue
        c = bn(x['c'], '<', '<=')
        if not c or (num(c['b']) or 0) < 1 << 40: continue
        C = num(c['b']) + (c['op'] == '<=')
        if any(y.get('k') == 'cast' and y.get('ck') == 'IntegralToFloating' for y in walk(x['a'])) or any(y.get('k') == 'cast' and 'double' in str(y.get('tn', '')) for y in walk(x['a'])) :
            res.count('limits of exact double arithmetic decided')
            if C > 1 << 53: res.violation('dbl:%s:%s' % (h, s['q']), '%s:%d' % (h, x.get('l') or s['loc'][1]), 'integers up to %d are divided as double, which is exact below 2^53 only' % C, s['q'])


def run(res, fz):
    clz = {}; cm = {}; ext = {}
    for h, j in sorted(X.run_headers().items()):
        d = X.load(j); fs = []
        for s in d['funcs']:
            if s.get('inst') or not isinstance(s.get('body'), dict) or X.rel(d['files'][s['loc'][0]]) != h: continue
            fs.append(s)
        T = lambda i: d['types'][i] if isinstance(i, int) and i < len(d['types']) else {}
        txt = open(X.REPO + '/' + h).read() if hasattr(X, 'REPO') else ''
        if extents(txt): ext[h] = extents(txt)
        for s in fs:
            highword(res, h, s, T); nextprime(res, h, s); dynmod(res, h, s, txt.split('\n')); bases_let_through(res, h, s)
            bits(res, h, s); splits(res, h, s); builtins(res, h, s, T, fz, clz); trial(res, h, s); wheel(res, h, s); guards53(res, h, s)
        if '61m1' in h: mersenne(res, h, fs)
        ntt(res, h, fs, cm)
    return clz, cm, ext
