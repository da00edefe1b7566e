"""Reviewed numbers in place: every source line (comments removed) that holds an integer of at least 3 is recorded with its numbers. A line that is still there token for token, but with another number in it, is a changed constant; it is a violation unless the number only tunes speed (witness/tuning list), makes a fixed array larger, permutes case labels, or belongs to a table or group of moduli that is decided by its own condition."""
import re, os, json
import extract as X
INT = re.compile(r"(?<![\w.'])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)([uUlLzZ]*)(?![\w.]|')")


def val(t):
    t = t.replace("'", '')
    if len(t) > 1 and t[0] == '0' and t[1] in 'xXbB': return int(t, 0)
    return int(t, 8) if len(t) > 1 and t[0] == '0' and t.isdigit() and all(c < '8' for c in t) else int(t)


def strip_comments(t):
    return re.sub(r'/\*.*?\*/|//[^\n]*', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), t, flags=re.S)


def lines(src):
    """[(abstract line, numbers, line number)] of the lines with a number >= 3"""
    r = []
    for i, l in enumerate(strip_comments(src).split('\n'), 1):
        if l.lstrip().startswith('#') or '"' in l: continue
        v = [val(m.group(1)) for m in INT.finditer(l)]
        if not any(abs(x) >= 3 for x in v): continue
        a = ' '.join(re.findall(r'\w+|\S', INT.sub('@', l)))
        r.append((a, v, i))
    return r


def skip(h, a, v):
    return len(re.findall(r'@ ?,', a)) >= 3 or a.startswith('case') and ' case ' in a or max(v) > 1 << 26 and ('convolution' in h or 'frequency_table' in h or 'miller_rabin' in h)


def collect():
    r = {}
    for dp, _, fs in os.walk(X.REPO + '/library'):
        for f in sorted(fs):
            if not f.endswith('.hpp'): continue
            p = os.path.join(dp, f); h = os.path.relpath(p, X.REPO)
            ls = lines(open(p, errors='replace').read())
            if ls: r[h] = ls
    return r


def run(res, z):
    cur = collect()
    for h, inv in sorted(z.items()):
        if h not in cur: continue
        have = {}
        for a, v, i in cur[h]: have.setdefault(a, []).append((v, i))
        want = {}
        for a, v, tun in inv: want.setdefault(a, []).append((v, tun))
        for a, ws in sorted(want.items()):
            hs = list(have.get(a, []))
            left = []
            for v, tun in ws:
                m = next((x for x in hs if x[0] == v), None)
                if m: hs.remove(m)
                else: left.append((v, tun))
            res.count('lines with reviewed numbers compared', len(ws))
            for v, tun in left:
                if not hs or tun == 'tune' or skip(h, a, v): continue
                w, i = hs.pop(0)
                d = [(p, q) for p, q in zip(v, w) if p != q and (abs(p) >= 3 or abs(q) >= 3)]
                if not d: continue
                if tun == 'size' and all(q >= p for p, q in d): continue
                if any(w == x for x, t in ws): continue
                res.violation('num:%s:%s' % (h, a[:60]), '%s:%d' % (h, i), 'the reviewed number %d is now %d' % d[0])
