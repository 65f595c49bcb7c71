"""C12, C13: random store definitions, generated, compiled and used."""
import os, re, csv, subprocess, tempfile, shutil, concurrent.futures
import vlib
from checks import storegen, storelib

def make(R, n, simple):
    S, seen = [], set()
    while len(S) < n:
        i = len(S)
        sm = R.random() < simple
        t = storegen.definition(R, style=R.choice(['words', 'ab', 'num']) if sm else None, simple=sm)
        if t in seen: continue
        seen.add(t)
        S.append(storegen.Store('S%d' % i, t, sm))
    return S

def build(c, tag, S):
    """Builds; definitions that cannot be generated or compiled are violations (of C13)."""
    try:
        return storegen.build(tag, S)
    except vlib.BuildFail as e:
        msg = str(e)
        bad = []
        def one(s):
            try: storegen.build(tag + '1', [s]); return None
            except vlib.BuildFail as e1: return (s, str(e1))
        with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
            bad = [x for x in ex.map(one, S) if x]
        if not bad or len(bad) == len(S): raise
        if c.pid == 'C13':
            for s, m in bad[:5]:
                c.violation('definition cannot be used: ' + m[:300], dict(definition=s.text, why=m))
        names = {s.name for s, _ in bad}
        S[:] = [s for s in S if s.name not in names]
        return storegen.build(tag, S)

def post_for(S, extra=None):
    tab = {s.name: (storelib.table(s.objs), s.members) for s in S}
    def post(seg):
        if not seg.events: return
        k = seg.events[0].get('k')
        if k not in tab: return
        for e in seg.events:
            e['m'] = e.get('m', tab[k][1])
            if e['e'] in ('mem', 'arr') and isinstance(e['m'], bool): e['m'] = []
        seg.events[0]['objs'] = tab[k][0]
        if extra: extra(seg, k)
    return post

def lookups(R, s, n):
    """Names to look up."""
    H = lambda x: x.encode('latin-1').hex() or '-'
    L = []
    names = [o.name for o in s.objs]
    for x in names if len(names) <= 40 else R.sample(names, 40):
        L.append('find ' + H('/' + x))
    for _ in range(n):
        x = '/' + R.choice(names)
        c = R.random()
        if c < .3: x = '/'.join(p[:R.randint(1, len(p))] if p else '' for p in x.split('/'))
        elif c < .4: x = '/' + '/'.join(p[:R.choice([1, len(p), len(p)])] for p in x.split('/')[1:])
        elif c < .5: x = x[:R.randint(0, len(x))]
        elif c < .6: i = R.randrange(len(x)); x = x[:i] + R.choice('abc/. ~0[]\x7f\x80\xff') + x[i + 1:]
        elif c < .68: i = R.randrange(len(x)); x = x[:i] + x[i + 1:]
        elif c < .76: i = R.randrange(len(x) + 1); x = x[:i] + R.choice('abc/. ~0\xff\x01') + x[i:]
        elif c < .82: x += R.choice(['/', 'x', '/a', '/' + R.choice(names), '[0]', ' ', '\xff'])
        elif c < .86: x = '/' + ''.join(R.choice('ab/.') for _ in range(R.randint(0, 6)))
        elif c < .88: x = x[1:]
        elif c < .9: x = x.replace('/', '//', 1)
        elif c < .92: x = ''
        else:   # different case, or joined with another name
            y = '/' + R.choice(names)
            x = x[:R.randint(0, len(x))] + y[R.randint(0, len(y)):] if R.random() < .7 else x.swapcase()
        if R.random() < .3 and '\x00' not in x: L.append('find %s %d' % (H(x), R.choice([len(x), len(x), R.randint(0, len(x))])))
        else: L.append('find ' + H(x))
    return L

def usage(R, s, n):
    L = ['list', 'lay', 'hash', 'vals', 'mem', 'arr', 'free']
    ty = [o for o in s.objs if s.members and o.base in storegen.CTYPE and o.base not in ('ptr32', 'ptr64')]
    rnd = lambda o: bytes(R.choice([0, 1, 0x61, 0x80, 0xff, R.randint(0, 255)]) for _ in range(R.choice([o.size, o.size, R.randint(0, o.size)])))
    def bval(o, b): return bytes([b[0] & 1] if o.base == 'bool' and b else b)
    for _ in range(n):
        i = R.randrange(len(s.objs))
        c = R.random()
        if ty and c < .4:
            o = R.choice(ty)
            if R.random() < .6: L.append('tset %s %s' % (o.name.replace(' ', '_'), (bval(o, rnd(o)) + bytes(8))[:o.size].hex()))
            L.append('tget ' + o.name.replace(' ', '_'))
        else:
                # by index in the list
            L.append('set %d %s' % (i, bytes(R.choice([1, 0x61, 0x62, R.randint(0, 255)]) for _ in range(R.choice([0, 1, 2, 8, 20]))).hex()))
        if R.random() < .25: L.append('vals')
    return L + ['vals']

def meta(path):
    """The objects according to the documentation."""
    d = {}
    exec(compile(open(path).read(), path, 'exec'), d)
    M = next(v for k, v in d.items() if k.endswith('Meta') and not k.endswith('ObjectMeta') and isinstance(v, type))()
    return M
def docs(gen, s):
    out = []
    M = meta(os.path.join(gen, 'doc', s.name + 'Meta.py'))
    L = []
    for o in M.objects:
        fix = o.type in storelib.FIX
        t = storelib.FIX[o.type][0] if fix else (1 if o.type == 'blob' else 2)
        e = dict(nm=list(('/' + o.name).encode()), t=t + (0x40 if o.isfunction else 0), n=o.size)
        if not o.isfunction:
            if fix:
                x = storelib.enc(o.type, o.init) if o.init is not None else bytes(o.size)
            else:
                x = (o.init.encode() if isinstance(o.init, str) else bytes(o.init)) if o.init is not None else (bytes(o.size) if o.type == 'blob' else b'')
            e['v'] = list(x)
        L.append(e)
    out.append(L)
    L = []
    for r in list(csv.reader(open(os.path.join(gen, 'doc', s.name + '.csv'), newline='')))[1:]:
        if not r: continue
        m = re.match(r'^(\()?([a-z0-9]+)(:(\d+))?\)?$', r[2].strip())
        ty = m.group(2)
        fix = ty in storelib.FIX
        L.append(dict(nm=list(('/' + r[0]).encode()), t=(storelib.FIX[ty][0] if fix else (1 if ty == 'blob' else 2)) + (0x40 if m.group(1) else 0), n=storelib.FIX[ty][1] if fix else int(m.group(4))))
    out.append(L)
    return M.hash, out

def regenerate(S, gen, hashseed):
    """Another run of the generator, in another order: hash of every store."""
    st = vlib.stage()
    d = tempfile.mkdtemp(prefix='regen-')
    try:
        fs = []
        for s in reversed(S):
            p = os.path.join(d, s.name + '.st'); open(p, 'w').write(s.text); fs.append(p)
        env = dict(os.environ, PYTHONPATH=os.path.join(st, 'python'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hashseed))
        r = vlib.sh([vlib.VENV_PY, '-m', 'libstored.generator', '-p', 'verif'] + fs + [os.path.join(d, 'out')], env=env, cwd=st)
        if r.returncode: raise vlib.BuildFail(r.stderr.decode(errors='replace')[-2000:])
        return {s.name: meta(os.path.join(d, 'out', 'doc', s.name + 'Meta.py')).hash for s in S}
    finally:
        shutil.rmtree(d, ignore_errors=True)
