"""S02 - in the tree data structures that keep operations (or a reversal) pending on a node, and products stored in the nodes:
 * what is pending on a node is cleared only after both children received it, in their stored values and their own pending operation;
 * a child is moved to another place, returned, read or modified only after what is pending on its parent was applied to it;
 * a newer operation is composed on the left of the older one (composition(f, g) applies g first) and never overwrites it;
 * whenever a node's children or value changed, its stored product is recomputed before it is used, before the node becomes (part of) the
   result and before the operation ends.
Decided by an interprocedural abstract interpretation: every function is analysed once with symbolic nodes for its parameters; summaries
(what must be clean on entry, what is left pending, out of date, applied, relinked, returned) are solved to a fixpoint, then every
function of the library instantiated by the witnesses is checked against them. Array-based lazy trees are decided by the rules in seglazy."""
import re, collections
import extract as X, pend, seglazy
from flow import walk, strip
TECHNIQUE = 'interprocedural abstract interpretation with function summaries (pending-operation typestate of tree nodes, staleness of stored products) over the instantiated syntax trees; effect-order rules for the array-based lazy trees'
LEVEL = 'other'
WIT = ['bbst', 'splay', 'persist', 'segtree', 'noeq']
# not decided: the sortable tree (nested trees); see DESIGN.md
SKIPFILE = ('sortable_segment_tree.hpp',)
# not decided: right only because split(node, k) returns node itself for k == 0 exactly when the caller has already brought it up to date
SKIPFN = {('dynamic_sequence.hpp', 'erase'), ('dynamic_sequence.hpp', 'insert'), ('splay_tree_map.hpp', 'erase_index'), ('splay_tree_map.hpp', 'erase_key')}


def prep(d):
    d['_f'] = {f['id']: f for f in d['funcs']}
    d['_decl'] = {x['id']: x for x in d['decls']} | d['_f']
    d['_rec'] = {r['id']: r for r in d['records']}
    d['_byfull'] = {r.get('full') or r['q']: r for r in d['records']}
    prod = collections.defaultdict(set)
    def owner(e):
        b = strip(e.get('b') or e.get('a') or e.get('o'))
        t = b.get('t') if isinstance(b, dict) else None
        return pend.elem(d['types'], t).get('rec') if t is not None else None
    def field(e, depth=0):
        e = strip(e)
        if not isinstance(e, dict) or depth > 6: return
        if e.get('k') == 'mem' and e.get('dk') != 'gvar': yield e['n'], owner(e)
        elif e.get('k') == 'call':
            f = d['_f'].get(e.get('f'))
            if f and isinstance(f.get('body'), dict) and len(f['body'].get('s') or []) == 1 and f['body']['s'][0].get('k') == 'ret' and f['body']['s'][0].get('e'): yield from field(f['body']['s'][0]['e'], depth + 1)
    def isop(e):
        e = strip(e)
        return isinstance(e, dict) and e.get('k') == 'call' and pend.OPS.match(e.get('n') or '')
    for fn in d['funcs']:
        b = fn.get('body')
        if not isinstance(b, dict): continue
        loc = {}
        for x in walk(b):
            if x.get('k') == 'decl':
                for v in x['v']:
                    if v.get('e') is not None and isop(v['e']): loc[v['id']] = v['e']
            l = r = None
            if x.get('k') == 'bin' and x.get('op') == '=': l, r = x['a'], x['b']
            elif x.get('k') == 'call' and x.get('opc') == '=' and x.get('o') is not None and x.get('a'): l, r = x['o'], x['a'][-1]
            elif x.get('k') == 'call' and x.get('opc') == '=' and len(x.get('a') or []) == 2: l, r = x['a']
            if l is None: continue
            y = strip(r)
            while isinstance(y, dict) and (y.get('k') == 'ctor' and y.get('cp') or y.get('k') == 'call' and y.get('n') == 'move') and len(y.get('a') or []) == 1: y = strip(y['a'][0])
            if isinstance(y, dict) and y.get('k') == 'ref' and y.get('d') in loc: y = loc[y['d']]
            if isop(y):
                for n, o in field(l):
                    prod[fn.get('cls')].add(n)
                    if o is not None: prod[o].add(n)
    d['_prod'] = prod


def run(res, tier):
    js = X.run_witnesses(WIT); seen = set(); files = set()
    for w, p in js.items():
        d = X.load(p); prep(d); A = pend.Analysis(d, res)
        fs = []
        for f in d['funcs']:
            if not A.analysed(f): continue
            rel = X.rel(d['files'][f['loc'][0]]); b = rel.rsplit('/', 1)[-1]
            if b in SKIPFILE: continue
            fs.append(f)
            k = (rel, f['loc'][1], f.get('full') or f['q'])
            if k not in seen: seen.add(k); res.count('functions analysed'); files.add(rel)
        A.skip = lambda fn, what: 'pending' in what and (X.rel(d['files'][fn['loc'][0]]).rsplit('/', 1)[-1], fn['n']) in SKIPFN
        A.solve(fs)
        seglazy.check(res, d)
    for f in sorted(files): res.sample(f)
    res.floor('functions analysed', 1000)
    for k, n in (('child links written', 150), ('products recomputed', 10), ('operations applied', 20), ('compositions', 20), ('pending operations cleared', 8), ('pending reversals cleared', 6)): res.floor(k, n)
    res.assumptions += ['A node is pushed, updated and linked only through the operations of its class; composition(f, g) applies g first (the convention of ac-library).',
        'The witnesses instantiate the structures with a non-commutative product and operations.']
