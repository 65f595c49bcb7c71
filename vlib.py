"""Common machinery of the checks: staging and building libstored from the working tree in
/repo, running script-driven harnesses, running TLC, bookkeeping of violations and evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, concurrent.futures, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')            # development only: point at a scratch copy
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
os.makedirs(BUILD, exist_ok=True)
SPECS = os.path.join(VERIF, 'specs')
NCPU = min(8, os.cpu_count() or 1)
VENV_PY = '/opt/vp/venv/bin/python3'
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class Broken(Exception):
    """The check itself could not give an answer."""

def sh(cmd, timeout=900, **kw):
    kw.setdefault('stdout', subprocess.PIPE); kw.setdefault('stderr', subprocess.PIPE)
    return subprocess.run(cmd, timeout=timeout, **kw)

# ------------------------------------------------------------------ staging and building

def _files(root, sub):
    for d, dn, fn in os.walk(os.path.join(root, sub)):
        dn[:] = sorted(x for x in dn if x not in ('__pycache__', 'data', 'gui', 'visu', '.git'))
        for f in sorted(fn):
            if f.endswith(('.pyc', '.swp')):
                continue
            yield os.path.join(d, f)

_hash = None
def repo_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for sub in ('include', 'src', 'python/libstored', 'version', 'doc', 'fpga'):
            for p in _files(REPO, sub):
                rel = os.path.relpath(p, REPO)
                if rel in ('include/libstored/version.h', 'python/libstored/version.py'):
                    continue
                try:
                    with open(p, 'rb') as f:
                        h.update(rel.encode() + b'\0' + f.read() + b'\0')
                except OSError:
                    pass
        _hash = h.hexdigest()[:16]
    return _hash

def stage():
    """A scratch tree with the sources of the working tree and the (normally generated) version files."""
    d = os.path.join(BUILD, 'stage-' + repo_hash())
    if os.path.isdir(d):
        return d
    os.makedirs(BUILD, exist_ok=True)
    t = tempfile.mkdtemp(prefix='stage-tmp-', dir=BUILD)
    for sub in ('include', 'src', 'doc', 'fpga', 'LICENSES', 'version', 'cmake'):
        s = os.path.join(REPO, sub)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(t, sub), symlinks=True)
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            shutil.copy(p, t)
    shutil.copytree(os.path.join(REPO, 'python', 'libstored'), os.path.join(t, 'python', 'libstored'),
        ignore=shutil.ignore_patterns('__pycache__', 'data', '*.pyc'), symlinks=True)
    try:
        full = open(os.path.join(REPO, 'version', 'version.txt')).read().strip().split('\n')[0]
    except OSError:
        full = '1.8.1-alpha'
    m = re.match(r'^([0-9.]+)(.*)$', full)
    parts = (m.group(1).split('.') + ['0', '0'])[:3]
    sub = {'LIBSTORED_VERSION_MAJOR': parts[0], 'LIBSTORED_VERSION_MINOR': parts[1],
        'LIBSTORED_VERSION_PATCH': parts[2], 'LIBSTORED_VERSION_SUFFIX': m.group(2),
        'LIBSTORED_VERSION_HASH': 'verif', 'LIBSTORED_VERSION': full,
        'LIBSTORED_VERSION_PYTHON': m.group(1) + ('.dev0' if m.group(2) else '')}
    for i, o in (('include/libstored/version.h.in', 'include/libstored/version.h'),
            ('python/libstored/version.py.in', 'python/libstored/version.py')):
        s = open(os.path.join(t, i)).read()
        for k, v in sub.items():
            s = s.replace('@%s@' % k, v)
        open(os.path.join(t, o), 'w').write(s)
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    if not os.path.isdir(d):
        raise Broken('staging failed')
    return d

CXX = 'g++'
BASE = ['-std=gnu++17', '-g1', '-pthread', '-fno-omit-frame-pointer', '-Wno-deprecated-declarations',
    '-DSTORED_DRAFT_API=1', '-D_DEBUG=1', '-DSTORED_HAVE_HEATSHRINK=1', '-DSTORED_HAVE_ZMQ=1',
    '-DSTORED_POLL_ZMQ_STUB=0', '-isystem', '/usr/include/heatshrink']
SAN = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,null,nonnull-attribute,returns-nonnull-attribute,alignment',
        '-fno-sanitize-recover=undefined', '-DSTORED_ENABLE_ASAN=1'],
    'plain': ['-O1'],
    'tsan': ['-O1', '-fsanitize=thread'],
}
LINK = ['-lzmq', '/usr/lib/x86_64-linux-gnu/libheatshrink_dynalloc.a', '-lpthread']

def _run_compile(jobs):
    """jobs: list of (cmd, out). Returns list of failures."""
    fails = []
    def one(j):
        cmd, out = j
        tmp = out + '.tmp%d' % os.getpid()
        r = sh(cmd + ['-o', tmp], timeout=800)
        if r.returncode:
            return (cmd, r.stderr.decode(errors='replace')[-6000:])
        os.replace(tmp, out)
        return None
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(one, jobs):
            if r:
                fails.append(r)
    return fails

LIBSRC = ['compress', 'debugger', 'directory', 'pipes', 'poller', 'protocol', 'synchronizer', 'util', 'zmq']

def flags(san, cfg):
    st = stage()
    return BASE + SAN[san] + ['-I' + os.path.join(VERIF, 'harness', cfg), '-I' + os.path.join(st, 'include')]

def gen_store(st_files, args=()):
    """Generates the stores with the generator of the working tree. Returns the output directory."""
    st = stage()
    key = hashlib.sha256((repo_hash() + '\0'.join(open(f).read() for f in st_files) + '\0'.join(st_files) + ' '.join(args)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'gen-' + key)
    if os.path.isdir(out):
        return out
    tmp = tempfile.mkdtemp(prefix='gen-tmp-', dir=BUILD)
    env = dict(os.environ, PYTHONPATH=os.path.join(st, 'python'), PYTHONDONTWRITEBYTECODE='1')
    r = sh([VENV_PY, '-m', 'libstored.generator', '-p', 'verif'] + list(args) + list(st_files) + [tmp], env=env, cwd=st)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildFail('generator failed: ' + r.stderr.decode(errors='replace')[-3000:])
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

class BuildFail(Broken):
    pass

def build(name, srcs=None, stores=(), san='asan', cfg='config', extra=(), lib=LIBSRC, genargs=(), srcflags={}):
    """Builds harness/<name>.cpp (or srcs) against the library. Returns the executable."""
    st = stage()
    srcs = [os.path.join(VERIF, 'harness', name + '.cpp')] if srcs is None else list(srcs)
    F = flags(san, cfg)
    libdir = os.path.join(BUILD, 'lib-' + hashlib.sha256((repo_hash() + ' '.join(F) +
        open(os.path.join(VERIF, 'harness', cfg, 'stored_config.h')).read()).encode()).hexdigest()[:16])
    os.makedirs(libdir, exist_ok=True)
    gen = gen_store(stores, genargs) if stores else None
    h = hashlib.sha256((libdir + str(gen) + str(srcflags) + ' '.join(extra) + ' '.join(lib)).encode())
    for s in srcs + sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h'))):
        h.update(open(s, 'rb').read() if os.path.exists(s) else b'')
    bdir = os.path.join(BUILD, 'bin-' + name + '-' + h.hexdigest()[:16])
    exe = os.path.join(bdir, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(bdir, exist_ok=True)
    jobs, objs = [], []
    for l in lib:
        o = os.path.join(libdir, l + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX] + F + ['-c', os.path.join(st, 'src', l + '.cpp')], o))
    G = ['-I' + os.path.join(gen, 'include')] if gen else []
    for s in srcs:
        o = os.path.join(bdir, os.path.basename(s) + '.o')
        objs.append(o)
        jobs.append(([CXX] + F + G + ['-I' + os.path.join(VERIF, 'harness')] + list(extra) + srcflags.get(os.path.basename(s), []) + ['-c', s], o))
    if gen:
        for s in sorted(glob.glob(os.path.join(gen, 'src', '*.cpp'))):
            o = os.path.join(bdir, 'gen_' + os.path.basename(s) + '.o')
            objs.append(o)
            jobs.append(([CXX] + F + G + ['-c', s], o))
    f = _run_compile(jobs)
    if f:
        raise BuildFail('compile failed: %s\n%s' % (' '.join(f[0][0][-2:]), f[0][1]))
    r = sh([CXX] + F + list(extra) + objs + LINK + ['-o', exe + '.tmp'])
    if r.returncode:
        raise BuildFail('link failed: ' + r.stderr.decode(errors='replace')[-4000:])
    os.replace(exe + '.tmp', exe)
    return exe

# ------------------------------------------------------------------ running harnesses

SANENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1', 'TSAN_OPTIONS': 'exitcode=78:halt_on_error=1'}

class Seg:
    """One independent history: script lines in, events out."""
    __slots__ = ('lines', 'events', 'crash', 'meta')
    def __init__(self, lines, meta=None):
        self.lines, self.meta, self.events, self.crash = lines, meta, [], None

def _run_batch(exe, segs, env, timeout, seg_timeout, args):
    """Feeds segments to one process. A segment starts by '@ <n>'; the harness echoes {"seg":n}
    before executing it. On a crash/hang the remaining segments are run in a new process."""
    i = hangs = 0
    while i < len(segs):
        todo = segs[i:]
        inp = ''.join('@ %d\n%s\n' % (k, '\n'.join(s.lines)) for k, s in enumerate(todo)) + '@ -1\n'
        e = dict(os.environ); e.update(SANENV); e.update(env or {})
        with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe, tempfile.TemporaryFile() as fi:
            fi.write(inp.encode('latin-1')); fi.seek(0)
            p = subprocess.Popen([exe] + list(args), stdin=fi, stdout=fo, stderr=fe, env=e)
            # No segment takes seg_timeout (and 20 s, mind loaded machines) without any output.
            hang, rc, size, last, t0 = False, None, -1, time.time(), time.time()
            while rc is None:
                try:
                    rc = p.wait(.02 if size < 0 else .25)
                except subprocess.TimeoutExpired:
                    n, now = os.fstat(fo.fileno()).st_size, time.time()
                    if n != size:
                        size, last = n, now
                    if now - last > min(max(seg_timeout, 10) * 3, 240) or now - t0 > timeout:
                        p.kill(); p.wait(); hang = True; rc = -9
            fo.seek(0); out = fo.read().decode('latin-1').split('\n')
            fe.seek(0); err = fe.read().decode('latin-1', 'replace')
        cur = -1
        done = False
        for ln in out:
            if not ln.startswith('{'):
                continue
            try:
                ev = json.loads(ln)
            except ValueError:
                continue        # torn last line
            if 'seg' in ev:
                cur = ev['seg']
                if cur == -1:
                    done = True
                elif cur < len(todo):
                    todo[cur].events = []
                continue
            if 0 <= cur < len(todo):
                todo[cur].events.append(ev)
        if done and rc == 0 and not hang:
            return
        if cur < 0 or done:
            if done:    # crash at exit
                todo[-1].crash = _summary(err, rc, hang)
                return
            raise Broken('harness did not start: rc=%s %s' % (rc, err[-2000:]))
        todo[cur].crash = _summary(err, rc, hang)
        i += cur + 1
        hangs += hang
        if hangs >= 2:
            return  # the remaining ones stay empty

def _summary(err, rc, hang):
    if hang:
        return 'hang (timeout)'
    for pat in (r'(\S+: )?[^\n]*Assertion [^\n]*', r'runtime error: [^\n]*', r'ERROR: AddressSanitizer: [^\n]*', r'WARNING: ThreadSanitizer[^\n]*', r'terminate called[^\n]*\n[^\n]*'):
        m = re.search(pat, err)
        if m:
            fr = ''
            for f in re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*)', err):
                if 'in stored::' in ' in ' + f or 'libstored' in f:
                    fr = ' @ ' + f[:160]
                    break
            return (m.group(0)[:300] + fr)
    return 'exit %s: %s' % (rc, err[-300:])

def run_segs(exe, segs, env=None, timeout=400, seg_timeout=10, args=(), shards=NCPU):
    shards = max(1, min(shards, len(segs)))
    parts = [segs[k::shards] for k in range(shards)]
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        for f in [ex.submit(_run_batch, exe, p, env, timeout, seg_timeout, args) for p in parts if p]:
            f.result()
    return segs

# ------------------------------------------------------------------ TLC

class TlcResult:
    pass

def brief(out):
    o = '\n'.join(l for l in out.split('\n') if l.strip() and not l.startswith(('Parsing file', 'Semantic processing', 'Linting', 'TLC2 Version', 'Running ')))
    return o if len(o) < 4000 else o[:1500] + '\n ... \n' + o[-2500:]

def tlc(spec, cfg, env=None, workers=1, timeout=600, heap='2g', extra=(), consts=None, sim=None, allow_fail=False, dfs=False):
    """Runs TLC on specs/<spec>.tla with specs/<cfg>.cfg (consts: extra CONSTANT lines)."""
    meta = tempfile.mkdtemp(prefix='tlc-')
    try:
        cfgp = os.path.join(SPECS, cfg + '.cfg')
        if consts:
            txt = open(cfgp).read() + '\nCONSTANTS\n' + '\n'.join('  %s = %s' % kv for kv in consts.items()) + '\n'
            cfgp = os.path.join(meta, 'M.cfg')
            open(cfgp, 'w').write(txt)
        cmd = ['java', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % (2 if workers == 1 else 4), '-Xss64m', '-Djava.io.tmpdir=' + meta]
        if dfs:
            cmd += ['-Dtlc2.tool.queue.IStateQueue=StateDeque']
        cmd += ['-cp', TLA_CP, 'tlc2.TLC', '-metadir', os.path.join(meta, 'st'), '-workers', str(workers),
            '-noGenerateSpecTE', '-config', cfgp]
        if sim:
            cmd += ['-simulate', 'num=%d' % sim[0], '-depth', str(sim[1]), '-seed', str(SEED)]
        cmd += list(extra) + [os.path.join(SPECS, spec + '.tla')]
        e = dict(os.environ); e.update(env or {})
        t0 = time.time()
        try:
            r = sh(cmd, timeout=timeout, env=e, cwd=meta, stderr=subprocess.STDOUT)
            out, rc = r.stdout.decode(errors='replace'), r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b'').decode(errors='replace'), -1
        R = TlcResult()
        R.out, R.rc, R.wall = out, rc, time.time() - t0
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        R.generated, R.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        if sim:
            m = re.findall(r'([\d,]+) states (?:generated|checked)', out)
            if m:
                R.generated = R.distinct = int(m[-1].replace(',', ''))
        m = re.search(r'The depth of the complete state graph search is (\d+)', out)
        R.depth = int(m.group(1)) if m else 0
        R.ok = rc == 0
        R.violated = re.findall(r'(?:Invariant|Temporal properties|Action property|property) ?(\S*) (?:is|was|were) violated', out)
        if not R.ok and not allow_fail:
            raise Broken('TLC failed on %s/%s rc=%s:\n%s' % (spec, cfg, rc, brief(out)))
        return R
    finally:
        shutil.rmtree(meta, ignore_errors=True)

# ------------------------------------------------------------------ a check

class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.samples, self.assumptions, self.notes = [], [], {}
        self.viol, self.known_hit = [], []
        self.seen = set()
        self.rng = random.Random('%s-%d-%s' % (pid, SEED, TIER))
        self.thorough = TIER == 'thorough'
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        try:
            self.known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == pid]
        except OSError:
            self.known = []

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # exhaustive checks of the design specification (independent of the code)
    def model(self, spec, cfg, **kw):
        kw.setdefault('workers', NCPU)
        R = tlc(spec, cfg, **kw)
        if not R.ok:
            raise Broken('design spec %s/%s does not hold:\n%s' % (spec, cfg, brief(R.out)))
        self.states += R.distinct; self.transitions += R.generated
        self.notes.setdefault('models', []).append('%s/%s: %d distinct states, %d generated, depth %d' % (spec, cfg, R.distinct, R.generated, R.depth))
        self.log('model %s/%s ok: %d distinct / %d generated, %.1fs' % (spec, cfg, R.distinct, R.generated, R.wall))
        return R

    def simulate(self, spec, cfg, num, depth, tag='BEH', **kw):
        """Behaviours of a specification: lines '"BEH <json>"' printed by the spec."""
        kw.setdefault('timeout', 300)
        R = tlc(spec, cfg, sim=(num, depth), **kw)
        out = []
        for m in re.finditer(r'^"?%s (.*?)"?$' % tag, R.out, re.M):
            s = m.group(1).replace('\\"', '"')
            out.append(json.loads(s))
        self.transitions += R.generated
        self.log('simulate %s/%s: %d behaviours' % (spec, cfg, len(out)))
        return out

    def _validate_list(self, spec, cfg, items, env, timeout, consts):
        """items: list of (key, [events]). One TLC run; returns (#validated, rejected item index or None, event index)."""
        f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', delete=False)
        n = 0
        pos = []
        for k, evs in items:
            pos.append(n)
            for e in evs:
                f.write(json.dumps(e) + '\n'); n += 1
        f.close()
        try:
            e = {'TRACE': f.name}; e.update(env or {})
            R = tlc(spec, cfg, env=e, workers=1, timeout=timeout, allow_fail=True, consts=consts)
        finally:
            os.unlink(f.name)
        self.states += R.distinct; self.transitions += R.generated
        m = re.findall(r'TRACEPOS"?,? (\d+)', R.out)
        if R.ok:
            return len(items), None, None, R
        if not m:
            raise Broken('TLC error on trace spec %s:\n%s' % (spec, brief(R.out)))
        at = int(m[-1])          # 1-based line that could not be matched
        idx = max(i for i, p in enumerate(pos) if p < at)
        return idx, idx, at - 1 - pos[idx], R

    def validate(self, spec, cfg, segs, env=None, timeout=600, consts=None, shards=NCPU, max_rejects=6, what=''):
        """Validates the events of the segments against the trace specification. Returns [(seg, event index)]."""
        items = [(s, s.events) for s in segs if s.events]
        tot = sum(len(e) for _, e in items)
        shards = max(1, min(shards, len(items), tot // 2000 + 1))
        parts = [[] for _ in range(shards)]
        load = [0] * shards
        for it in items:
            j = load.index(min(load)); parts[j].append(it); load[j] += len(it[1]) + 5
        rejected = []
        def one(part):
            rej, n = [], 0
            while part:
                k, bad, ev, R = self._validate_list(spec, cfg, part, env, timeout, consts)
                n += k
                if bad is None:
                    break
                # a rejection counts only if the segment alone is rejected again
                k2, bad2, ev2, R2 = self._validate_list(spec, cfg, [part[bad]], env, timeout, consts)
                if bad2 is None:
                    raise Broken('rejection not reproducible alone: %s event %d' % (spec, ev))
                rej.append((part[bad][0], ev2, R2.out[-1500:]))
                part = part[bad + 1:]
                if len(rej) >= max_rejects:
                    break
            return n, rej
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            for n, rej in ex.map(one, parts):
                self.traces += n
                rejected += rej
        self.log('validated %d traces (%d events) against %s%s; %d rejected' % (len(items), tot, spec, what, len(rejected)))
        return rejected

    def conform(self, exe, spec, cfg, segs, name='', rerun=True, env=None, seg_timeout=10, timeout=400, key=None, consts=None, args=(), post=None, shards=NCPU):
        """Runs the segments in the harness and validates the recorded events; reports violations."""
        if self.viol and not self.thorough and time.time() - self.t0 > 240:
            self.log('enough violations, skipped', name)
            return []
        run_segs(exe, segs, env=env, seg_timeout=seg_timeout, timeout=timeout, args=args, shards=shards)
        if post:
            for s in segs:
                post(s)
        self.evaluations += len(segs)
        self.log('ran %d segments of %s: %d events' % (len(segs), name or os.path.basename(exe), sum(len(s.events) for s in segs)))
        bad = []
        for s in segs:
            if s.crash:
                bad.append((s, len(s.events), 'crash: ' + s.crash))
        good = [s for s in segs if not s.crash]
        for s, i, out in self.validate(spec, cfg, good, consts=consts, what=' ' + name):
            ev = s.events[i] if i is not None and i < len(s.events) else None
            bad.append((s, i, 'event %s not allowed by %s: %s' % (i, spec, json.dumps(ev)[:400])))
        n, n0, t0 = 0, len(self.viol), time.time()
        for s, i, why in bad:
            k = key(s, i, why) if key else why
            if not any(re.search(f['match'], '%s: %s' % (name, why) if k is None else k) for f in self.known):
                n += 1
                if n > 12 or len(self.viol) - n0 >= 4 or (len(self.viol) > n0 and time.time() - t0 > 60):
                    continue
                if rerun and not self._confirm(exe, spec, cfg, s, why, env, seg_timeout, timeout, consts, args, post):
                    continue
            self.violation('%s: %s' % (name, why), dict(harness=os.path.basename(exe), script=s.lines, events=s.events[:(i or 0) + 3][-60:], spec=spec, why=why), k)
        if segs and len(self.samples) < 6:
            s = min(segs, key=lambda s: abs(len(s.events) - 25))
            self.samples.append(dict(part=name, script=[x[:100] for x in s.lines[:25]], events=[json.dumps(e)[:240] for e in s.events[:8]]))
        return bad

    def _confirm(self, exe, spec, cfg, s, why, env, seg_timeout, timeout, consts, args, post):
        s2 = Seg(s.lines, s.meta)
        run_segs(exe, [s2], env=env, seg_timeout=seg_timeout, timeout=timeout, args=args)
        if post:
            post(s2)
        if s.crash and not s2.crash:
            if 'hang' in s.crash:
                self.log('hang not reproducible, ignored')
                return False
        if not s.crash and s2.events != s.events:
            _, b, _, _ = self._validate_list(spec, cfg, [(s2, s2.events)], None, 300, consts)
            if b is None:
                self.log('rejection not reproducible on a re-run, ignored:', why)
                return False
        return True

    def violation(self, desc, replay, key=None):
        key = key if key is not None else desc
        for k in self.known:
            if re.search(k['match'], key):
                if k['id'] not in self.seen:
                    self.seen.add(k['id'])
                    self.known_hit.append(k['id'])
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']), flush=True)
                return
        n = len(self.viol)
        p = os.path.join(EVID, 'replay', '%s-%d.json' % (self.pid, n))
        with open(p, 'w') as f:
            json.dump(dict(property=self.pid, seed=SEED, tier=TIER, what=desc, **(replay if isinstance(replay, dict) else {'replay': replay})), f, indent=1)
        self.viol.append(desc)
        if n < 20:
            print('%s' % desc[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, p), flush=True)

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
            evaluations=self.evaluations, samples=self.samples[:8] or ['none'], **self.notes)
        ev = dict(property=self.pid, tier='thorough' if self.thorough else 'quick', seed=SEED, level=self.level, coverage=cov,
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.known_hit:
            ev['coverage']['known_findings_hit'] = self.known_hit
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.log('done: states=%d transitions=%d traces=%d violations=%d' % (self.states, self.transitions, self.traces, len(self.viol)))
        return 1 if self.viol else 0
