"""S16 - every node of a tree that frees its nodes has exactly one owner.
 * A node is never used, handed out or freed again after it was freed, and nothing that stays reachable contains it: before a node is
   deleted, the children that live on elsewhere are taken out of it.
 * No exit of a function leaves one node in two owning places, or leaves a node where it was although a restructuring call took it over
   (what the call returned has to take its place); nothing that was taken out of its place, created or returned by a call gets lost.
 * An object whose destructor releases nodes is never copied member by member: its copy operations are deleted or written out, and the
   same holds for an object that stores iterators into its own containers.
Decided by abstract interpretation of every function of these classes over a powerset of abstract heaps (site-named symbols, slots with
strong updates, null and equality facts); functions with loops or recursion are replaced by summaries solved to a fixpoint."""
import re
from multiprocessing import Pool
import extract as X, own
from own import Z, DEEP
from flow import walk, strip
TECHNIQUE = 'ownership analysis: interprocedural abstract interpretation over abstract heaps (who holds which node, what was freed), plus copy-operation rules on the class definitions'
LEVEL = 'other'
CONT = {'std::' + x for x in ('vector', 'deque', 'list', 'map', 'set', 'unordered_map', 'unordered_set', 'multiset', 'multimap', 'basic_string')}
WIT = ['splay', 'ds', 'segtree']


def syms(v):
    if not isinstance(v, tuple) or not v: return set()
    if v[0] == 'P': return set(v[1])
    if v[0] == 'T':
        r = set()
        for x in v[1]: r |= syms(x)
        return r
    if v[0] == 'O': return {v[1]}
    return set()


def name(x):
    if x[0] == 'p': return 'argument %d' % (x[1] + 1)
    if x[0] == 'this': return 'the object'
    if x[0] == 'ld': return '%s of %s' % (x[2][0], name(x[1]))
    if x[0] in ('new', 'obj'): return 'a new node' if x[0] == 'new' else 'the new object'
    if x[0] == 'ret': return 'the result of a call'
    return 'a node'


def atexit(A, fn, v, st):
    """(message) for every way this exit breaks single ownership"""
    I = A.I; out = []
    dead = set(st.fr) | set(st.soft)
    comps = []
    if isinstance(v, tuple) and v and v[0] == 'T': comps = [x for x in v[1] if isinstance(x, tuple) and x and x[0] == 'P']
    one = [v] if isinstance(v, tuple) and v and v[0] == 'P' else []
    roots = syms(v) | {x for x in st.cls if x[0] in ('this', 'p')}
    live = {x for x in own.reach(st, [r for r in roots if r not in dead]) if x not in dead}
    eaten = {}
    for R, xs in st.ab.items():
        for x in xs: eaten.setdefault(x, set()).add(R)
    places = []                         # (description, set)
    for (b, sl), s in st.h.items():
        if b in live and b[0] not in ('arr',) and b not in st.multi and b not in eaten and sl[1] != '*':
            c = st.cls.get(b); ow = I.owns(c) if c is not None else set()
            if ow and sl[0] not in ow: continue
            if not ow and not (c is not None and I.nodeish(c)): continue
            if not ow and sl[0] in ('par', 'p', 'parent', 'fa', '_p', 'prv', 'nxt', 'pp'): continue
            places.append(('%s of %s' % (sl[0], name(b)), {Z if x in st.z else x for x in s}, bool(ow) or b[0] == 'this'))
    for i, c in enumerate(comps): places.append(('result %d' % (i + 1), {Z if x in st.z else x for x in c[1]}, True))
    retp = [('the result', {Z if x in st.z else x for x in c[1]}, True) for c in one]
    for w, s, o in places + retp:
        n = {x for x in s if x != Z}
        if n and n <= dead and not (n & st.multi): out.append((st.fr.get(next(iter(n))) or st.soft.get(next(iter(n))), 'frees a node that is still %s' % w))
        for x in n:
            if x in st.ab and len(n) == 1:
                below = {y for y in st.ab[x] if y in dead and y not in st.multi}
                if below: out.append((st.fr.get(next(iter(below))) or st.soft.get(next(iter(below))), 'frees nodes that %s still contains' % w))
    hold = {}
    for w, s, o in places:
        if len(s) == 1:
            x = next(iter(s))
            if x in (Z, DEEP) or x in st.multi or x in dead: continue
            if x in eaten:
                out.append((None, 'leaves in %s a node that was handed over to a call: what the call returned has to take its place' % w)); continue
            hold.setdefault(x, []).append(w)
    for x, ws in hold.items():
        if len(ws) > 1: out.append((None, 'leaves one node in two places: %s' % ' and '.join(sorted(set(ws)) if len(set(ws)) > 1 else ws)))
    # nothing may get lost: results of calls, new nodes and subtrees taken out of a slot are linked somewhere, handed out or freed
    if st.approx: return out
    every = set(st.ab) | {k[0] for k in st.h}
    for s in st.h.values(): every |= s
    for s in st.v.values(): every |= syms(s)
    every |= {x for x in st.cls if x[0] in ('new', 'ret')}
    allroots = syms(v) | {x for x in st.cls if x[0] in ('this', 'p')}
    if isinstance(v, tuple) and v and v[0] == 'R' and v[1][0] == 's': allroots |= set(v[1][1])
    keep = own.reach(st, allroots) | set(eaten)
    for x in every:
        if x[0] not in ('new', 'ret', 'ld') or own.root(x)[0] == 'arr' or x in keep or x in dead or x in st.z or x in st.multi: continue
        c = st.cls.get(x)
        if c is None or not I.owns(c): continue
        out.append((None, 'loses %s: nothing refers to it any more and it was not freed' % name(x)))
    return out


def funcs(A):
    fs = []
    for f in A.F.values():
        if not A.lib(f): continue
        c = f.get('cls'); I = A.I
        if c is not None and I.owns(c) or any('t' in p and I.nptr(p['t']) is not None and I.owns(I.nptr(p['t'])) for p in f.get('p') or []): fs.append(f)
    return fs



def copies(d, I):
    """(key, where, message, class) for owners that may be copied member by member; and the number of classes looked at"""
    out = []; n = 0
    based = set()
    for r in d['records']:
        for b in r.get('bases') or []:
            if I.T[b].get('rec') is not None: based.add(I.T[b]['rec'])
    for r in d['records']:
        if not (r.get('q') or '').startswith('suisen::') or r['id'] in based or 'internal' in r['q']: continue
        rel = set(I.owns(r['id']))
        for x in I.mro(r['id']): rel |= I.rel.get(x, set())
        its = []
        if not rel:
            fs = [(f['n'], I.R.get(I.T[f['t']].get('rec')) or {}) for f in r.get('fields') or [] if 't' in f]
            if not r.get('lambda') and any(q.get('q') in CONT for _, q in fs): its = [n for n, q in fs if re.search(r'(^|_)iterator(_base)?$', q.get('n') or '')]
        elif I.nodeish(r['id']) and I.owns(r['id']) and any(I.pointee(f['t']) == r['id'] or I.T[f['t']]['s'].endswith(']') for f in r.get('fields') or [] if 't' in f): continue      # a node itself
        if not rel and not its: continue
        n += 1
        lc = r.get('loc'); w = '%s:%d' % (X.rel(d['files'][lc[0]]), lc[1]) if lc else r['q']
        why = 'its destructor releases %s' % ', '.join(sorted(rel)) if rel else '%s points into its own containers' % ', '.join(its)
        if not r.get('delcopy') and not r.get('ucopy'): out.append(('copy:' + r['q'], w, 'can be copied member by member although %s' % why, r['q']))
        if not r.get('delassign') and not r.get('uassign') and not r.get('umassign'): out.append(('assign:' + r['q'], w, 'can be copy-assigned member by member although %s' % why, r['q']))
    return out, n


PARENT = re.compile(r'^_?(par|parent|p|fa|pp|prv|prev|nxt|next|link|suffix_link|slink)$')


def leaks(d, I):
    """nodes nobody frees: children a destructor passes over, a tree that is overwritten by an assignment, a helper node that is forgotten"""
    out = []; n = 0
    T = I.T
    def where(f, l): return '%s:%d' % (X.rel(d['files'][f['loc'][0]]), l or f['loc'][1])
    def kin(a, b): return a in I.mro(b) or b in I.mro(a)
    dels = {}                       # class -> [(function, target expression)] of the deletes in its destructor
    for f in d['funcs']:
        b = f.get('body')
        if not isinstance(b, dict) or not X.rel(d['files'][f['loc'][0]]).startswith('library/'): continue
        if f.get('dtor'):
            ix = {}
            for x in walk(b):
                if x.get('k') != 'delete': continue
                e = strip(x['e']); lits = None
                if isinstance(e, dict) and (e.get('k') == 'idx' or e.get('k') == 'call' and e.get('opc') == '[]'):
                    i = e['i'] if e.get('k') == 'idx' else e['a'][-1]; v = own.lit(i) if hasattr(own, 'lit') else None
                    b2 = e['a'] if e.get('k') == 'idx' else e.get('o')
                    e = strip(b2); lits = v
                    if isinstance(e, dict) and e.get('k') == 'mem': ix.setdefault(e['n'], set()).add(lits if lits is not None else '*')
                if isinstance(e, dict) and e.get('k') == 'mem': dels.setdefault(f.get('cls'), []).append((f, e, x))
            for nm, vs in ix.items():
                k = I.arrlen(f.get('cls'), nm); n += 1
                if k and '*' not in vs and set(range(k)) - {int(v) for v in vs}: out.append(('leak:%s:%s' % (f['q'], nm), where(f, None), 'the destructor frees only some of %s' % nm, f['q']))
        # assignment over an owned tree
        if f['n'] == 'operator=' and f.get('cls') is not None and len(f.get('p') or []) == 1 and T[f['p'][0]['t']]['s'].rstrip().endswith('&&'):
            ow = {x for x in I.owns(f['cls'])}; n += 1
            for nm in ow:
                first = None; freed = False
                for x in walk(b):
                    if x.get('k') == 'delete' and isinstance(strip(x['e']), dict) and strip(x['e']).get('n') == nm: freed = True
                    if x.get('k') == 'call' and (x.get('n') in ('swap', 'exchange', 'clear', 'operator=') and x.get('n') != 'operator=' or I.frees(x.get('f'), set())): freed = True
                    if x.get('k') == 'ctor' and I.R.get(f['cls'], {}).get('id') == T[x['t']].get('rec') and any(y.get('k') == 'this' for y in walk(x)): freed = True      # its old nodes go with a temporary
                    if x.get('k') == 'bin' and x.get('op') == '=':
                        l = strip(x['a'])
                        if isinstance(l, dict) and l.get('k') == 'mem' and l.get('n') == nm and strip(l.get('b') or {'k': 'this'}).get('k') == 'this' and first is None: first = x.get('l')
                if first is not None and not freed: out.append(('leak:%s:%s' % (f['q'], nm), where(f, first), 'the assignment overwrites %s without freeing the nodes it holds' % nm, f['q']))
        # the function that frees one node
        if re.match(r'^(dealloc|free|delete|release)_?node$', f['n']) and f.get('p') and I.pointee(f['p'][0].get('t')) is not None:
            i = f['p'][0]['id']; n += 1
            if not any(x.get('k') == 'delete' and any(y.get('d') == i for y in walk(x) if y.get('k') == 'ref') or x.get('k') == 'call' and x.get('n') in ('dealloc', 'free', 'push_back', 'emplace_back', 'push', 'del') and any(y.get('d') == i for a in x.get('a') or [] for y in walk(a) if y.get('k') == 'ref') for x in walk(b)):
                out.append(('leak:%s' % f['q'], where(f, None), 'the node it is given is not freed', f['q']))
        # helper nodes
        loc = {}
        for x in walk(b):
            if x.get('k') == 'decl':
                for v in x['v']:
                    e = strip(v.get('e')) if v.get('e') is not None else None
                    if isinstance(e, dict) and e.get('k') == 'new' and 't' in v and I.nptr(v['t']) is not None and T[v['t']].get('ptr'): loc[v['id']] = (v['n'], x.get('l') or v.get('l'))
        if loc:
            n += len(loc); gone = set()
            for x in walk(b):
                k = x.get('k'); es = []
                if k == 'delete': es = [x['e']]
                elif k == 'ret' and x.get('e') is not None: es = [x['e']]
                elif k == 'bin' and x.get('op') == '=': es = [x['b']]
                elif k in ('call', 'ctor', 'init', 'ilist') : es = list(x.get('a') or [])
                elif k == 'decl': es = [v['e'] for v in x['v'] if v.get('e') is not None and strip(v['e']).get('k') == 'ref']
                if k in ('init', 'ilist') : es = []
                for e in es:
                    e = strip(e)
                    while isinstance(e, dict) and e.get('k') in ('cond',): 
                        for q in (e.get('b'), e.get('d')): 
                            if isinstance(strip(q), dict) and strip(q).get('k') == 'ref': gone.add(strip(q).get('d'))
                        e = None
                    if isinstance(e, dict) and e.get('k') == 'ref': gone.add(e.get('d'))
            for i, (nm, l) in loc.items():
                if i not in gone: out.append(('leak:%s:%s' % (f['q'], nm), where(f, l), '%s is created and neither linked, handed out nor freed' % nm, f['q']))
    for r in d['records']:
        if not (r.get('q') or '').startswith('suisen::') or r.get('lambda') or not r.get('loc'): continue
        rel = X.rel(d['files'][r['loc'][0]])
        if not rel.startswith('library/'): continue
        for f in r.get('fields') or []:
            if 't' not in f: continue
            N = I.pointee(f['t'])
            if N is None or kin(N, r['id']) or not I.owns(N) or not I.nodeish(N): continue
            if re.search(r'[Ii]terator|Reference|View|Proxy', r['n']): continue
            n += 1
            if not any(f['n'] in I.owns(c['id']) for c in d['records'] if r['id'] in I.mro(c['id'])): out.append(('leak:%s:%s' % (r['q'], f['n']), '%s:%d' % (rel, r['loc'][1]), 'nothing frees the nodes %s holds when the object goes' % f['n'], r['q']))
        for fn, e, x in dels.get(r['id'], []):
            N = I.pointee(e.get('t')) if 't' in e else None
            if N is None or kin(N, r['id']) or not I.nodeish(N): continue
            n += 1
            for c in I.mro(N):
                for g in (I.R.get(c) or {}).get('fields') or []:
                    if 't' not in g or PARENT.match(g['n']): continue
                    t = T[g['t']]
                    while t.get('arr') and t.get('of') is not None: t = T[t['of']]
                    p = T[t['of']].get('rec') if t.get('ptr') and t.get('of') is not None else None
                    if p is not None and kin(p, N) and g['n'] not in I.owns(N): out.append(('leak:%s:%s' % (I.R[N]['q'], g['n']), where(fn, x.get('l')), 'freeing a node does not free what hangs on its %s' % g['n'], fn['q']))
    return out, n


def unit(path):
    d = X.load(path); cnt = {}
    def count(k, n=1): cnt[k] = cnt.get(k, 0) + n
    A = own.Analysis(d, count); vs = []; sm = []
    for fn, r, outs in A.solve(funcs(A)):
        count('functions analysed'); count('exit states', len(outs)); sm.append(fn['q'])
        for v, st in outs:
            for wh, m, q in st.log: vs.append(('%s:%s' % (q, m[:40]), wh, m, q))
            if fn.get('dtor'): continue
            for wh, m in atexit(A, fn, v, st): vs.append(('%s:%s' % (fn['q'], m[:60]), wh or A.where({}, fn), m, fn['q']))
    cp, n = copies(d, A.I); count('owning classes checked for copy operations', n)
    lk, n = leaks(d, A.I); count('destructors, assignments and helper nodes checked for lost nodes', n)
    return vs + cp + lk, cnt, sorted(A.trunc), sm[:4]


def run(res, tier):
    js = X.run_witnesses(WIT)
    with Pool(len(WIT)) as p: rs = p.map(unit, [js[w] for w in WIT])
    for w, (vs, cnt, tr, sm) in zip(WIT, rs):
        for k, n in cnt.items(): res.count(k, n)
        for v in vs: res.violation(*v)
        for q in tr: res.notes.append('too many states, not decided: ' + q)
        for q in sm: res.sample({'unit': w, 'function': q})
    res.assumptions += ['pointers kept in a std::vector during an operation do not own', 'a function is entered with arguments that own disjoint trees']
    res.floor('functions analysed', 300); res.floor('delete expressions', 30); res.floor('owning classes checked for copy operations', 8)
