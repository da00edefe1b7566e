"""Builds the extractor and runs it over translation units; results are cached
by content (tool, source, every header of /repo/library), so a changed tree is
always re-extracted."""
import hashlib, json, os, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LIB = os.path.join(REPO, 'library')
BUILD = os.path.join(VERIF, '.build')
GCCDIR = '/usr/lib/gcc/x86_64-linux-gnu/10'
STUBS = os.path.join(VERIF, 'witness', 'acl')


class AnalysisBroken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\1')
    return h.hexdigest()[:24]


def headers():
    r = []
    for d, _, fs in os.walk(LIB):
        for f in fs:
            if f.endswith('.hpp'): r.append(os.path.join(d, f))
    return sorted(r)


_treehash = None


def tree_hash():
    global _treehash
    if _treehash is None:
        ps = headers()
        if os.path.isdir(STUBS):
            for d, _, fs in os.walk(STUBS):
                ps += [os.path.join(d, f) for f in fs]
        ps += [os.path.join(VERIF, 'witness', f) for f in os.listdir(os.path.join(VERIF, 'witness')) if f.endswith(('.hpp', '.h'))]
        _treehash = _hash_files(ps)
    return _treehash


def tool():
    src = os.path.join(VERIF, 'tool', 'cpx.cpp')
    key = _hash_files([src])
    out = os.path.join(BUILD, 'cpx-' + key)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        r = sh(['bash', os.path.join(VERIF, 'tool', 'build.sh'), tmp])
        if r.returncode: raise AnalysisBroken('extractor does not build:\n' + r.stderr[-4000:])
        os.rename(tmp, out)
    return out


BASE = ['--gcc-install-dir=' + GCCDIR, '-std=gnu++17', '-I' + REPO, '-I' + os.path.join(VERIF, 'witness'), '-w', '-ferror-limit=0']


def pch():
    out = os.path.join(BUILD, 'std.pch')
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        src = os.path.join(BUILD, 'std_pre.hpp')
        with open(src, 'w') as f: f.write('#include <bits/stdc++.h>\n')
        r = sh(['clang++', '-x', 'c++-header', src, '-o', tmp] + BASE)
        if r.returncode: raise AnalysisBroken('pch: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def overlay():
    """clang rejects `using Alias::TemplateName;` for inheriting constructors from a
    dependent base when the alias is spelled differently; g++ (the project's
    compiler) accepts it and it means exactly `using Alias::Alias;`.  Headers that
    use the idiom are shown to the extractor, under their own path and with the
    same line structure, with that one spelling normalised."""
    import re
    d = os.path.join(BUILD, 'vfs-' + tree_hash()); y = os.path.join(d, 'overlay.yaml')
    if os.path.exists(y): return y
    os.makedirs(d, exist_ok=True)
    roots = []
    for h in headers():
        with open(h, encoding='utf-8', errors='surrogateescape') as f: t = f.read()
        al = set((m.group(1), m.group(2).split('::')[-1]) for m in re.finditer(r'\busing\s+(\w+)\s*=\s*(?:typename\s+)?([\w:]+)\s*<', t))
        n = re.sub(r'\busing(\s+)(\w+)::(\w+)(\s*);', lambda m: 'using%s%s::%s%s;' % (m.group(1), m.group(2), m.group(2), m.group(4)) if (m.group(2), m.group(3)) in al and m.group(2) != m.group(3) else m.group(0), t)
        if n != t:
            p = os.path.join(d, rel(h).replace('/', '_'))
            with open(p, 'w', encoding='utf-8', errors='surrogateescape') as f: f.write(n)
            roots.append({'name': h, 'type': 'file', 'external-contents': p})
    tmp = y + '.%d' % os.getpid()
    with open(tmp, 'w') as f: json.dump({'version': 0, 'use-external-names': False, 'roots': roots}, f)
    os.rename(tmp, y)
    return y


_text = {}
_base = None


def closure(src_text):
    """hash of everything a unit includes from the tree, the stubs and the witness headers"""
    global _base
    import re
    if _base is None:
        ps = []
        if os.path.isdir(STUBS):
            for d, _, fs in os.walk(STUBS): ps += [os.path.join(d, f) for f in fs]
        ps += [os.path.join(VERIF, 'witness', f) for f in os.listdir(os.path.join(VERIF, 'witness')) if f.endswith(('.hpp', '.h'))]
        h = hashlib.sha256()
        for p in sorted(ps):
            with open(p, 'rb') as f: h.update(p[len(VERIF):].encode() + b'\0' + f.read())
        _base = h.hexdigest()
    inc = lambda t: re.findall(r'^\s*#\s*include\s*[<"]([^">]+)[">]', t, re.M)
    seen = {}; todo = [(REPO, i) for i in inc(src_text)]
    for f in os.listdir(os.path.join(VERIF, 'witness')):
        if f.endswith(('.hpp', '.h')) and f in src_text:
            with open(os.path.join(VERIF, 'witness', f)) as fh: todo += [(REPO, i) for i in inc(fh.read())]
    while todo:
        base, i = todo.pop()
        for c in (os.path.normpath(os.path.join(base, i)), os.path.join(REPO, i)):
            if c in seen: break
            if c not in _text:
                try:
                    with open(c, encoding='utf-8', errors='surrogateescape') as f: t = f.read()
                    _text[c] = (t, inc(t))
                except OSError: _text[c] = None
            if _text[c] is None: continue
            seen[c] = 1; todo += [(os.path.dirname(c), x) for x in _text[c][1]]; break
    h = hashlib.sha256(_base.encode())
    for c in sorted(seen): h.update((c[len(REPO):] + '\0' + _text[c][0]).encode('utf-8', 'surrogateescape'))
    return h.hexdigest()


def run_tu(src_text, name, dep=False, acl=True, extra=()):
    key = hashlib.sha256((src_text + closure(src_text) + _hash_files([os.path.join(VERIF, 'tool', 'cpx.cpp')]) + str(dep) + str(acl) + ' '.join(extra)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'tu', name + '-' + key + '.json')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        # drop stale results of the same unit
        src = os.path.join(BUILD, 'tu', name + '-' + key + '.cpp')
        with open(src, 'w') as f: f.write(src_text)
        tmp = out + '.tmp%d' % os.getpid()
        flags = BASE + (['-I' + STUBS] if acl else []) + list(extra) + ['-ivfsoverlay', overlay(), '-include-pch', pch()]
        r = sh([tool(), ('dep:' if dep else '') + tmp, LIB, src, '--'] + flags, timeout=600)
        if not os.path.exists(tmp):
            raise AnalysisBroken('extraction failed for %s: %s' % (name, r.stderr[-3000:]))
        with open(out + '.err', 'w') as f: f.write(r.stderr)
        os.rename(tmp, out)
    return out


def rel(p):
    i = p.find('/library/')
    return p[i + 1:] if i >= 0 else os.path.relpath(p, REPO) if p.startswith(REPO) else p


def run_headers(jobs=8):
    """one dep-mode unit per header; returns {relpath: json path}"""
    tool(); pch(); overlay()
    def one(h):
        n = 'H_' + rel(h).replace('/', '_')
        pre = '#define sqrtf128(x) sqrtl(x)\n' if h.endswith('geometry3d.hpp') else ''
        return rel(h), run_tu(pre + '#include "%s"\n' % rel(h), n, dep=True)
    with cf.ThreadPoolExecutor(jobs) as ex:
        return dict(ex.map(one, headers()))


def run_witnesses(names=None, jobs=8):
    tool(); pch(); overlay()
    wd = os.path.join(VERIF, 'witness')
    fs = sorted(f for f in os.listdir(wd) if f.endswith('.cpp'))
    if names is not None: fs = [f for f in fs if f[:-4] in names]
    def one(f):
        with open(os.path.join(wd, f)) as fh: t = fh.read()
        return f[:-4], run_tu(t, 'W_' + f[:-4])
    with cf.ThreadPoolExecutor(jobs) as ex:
        return dict(ex.map(one, fs))


def load(path):
    with open(path) as f: return json.load(f)
