"""Generator of networks of pipes (C20): the same network as C++ and as data for the specification."""
CT = {'i': 'int', 'b': 'bool', 'z': 'size_t', 'c': 'int8_t'}
S = 'stored::pipes::'
def val(R): return R.choice([0, 1, 2, 3, 4, -1, 5, 7, 9, -3, R.randint(-300, 300), R.choice([127, 128, -128, -129, 255, 256, 1000])])
def seg(R, t, ents, exits, big):
    """a segment with input type t: (code, record, output type)"""
    n = 'ijkl'
    T = CT[t]
    c = ['id', 'buf', 'log']
    if t == 'i':
        c += ['tee'] * 3 + ['trg'] * 3 + ['tra'] * 2 + ['cv', 'cr', 'cf', 'set', 'set', 'chg', 'chg', 'bnd', 'omap', 'rmap', 'rate', 'rate', 'sig', 'conv', 'scl', 'cast', 'cast', 'castb', 'castz', 'buf', 'buf']
    elif t == 'b': c += ['get'] * 6
    elif t == 'z': c += ['mux'] * 5 + ['imap'] * 4
    else: c += ['castc'] * 6
    while True:
        k = R.choice(c)
        if k in ('tee', 'chg', 'rate', 'trg') and not ents: continue
        if k in ('tra', 'mux') and not exits: continue
        break
    r = {'k': k, 'a': [], 'q': []}
    o = t
    if k == 'id': code = 'Identity<%s>{}' % T
    elif k == 'buf':
        v = {'b': lambda: R.randint(0, 1), 'z': lambda: R.randint(0, 9), 'c': lambda: R.randint(-128, 127), 'i': lambda: val(R)}[t]()
        r['a'] = [v]; code = 'Buffer<%s>{(%s)%d}' % (T, T, v)
    elif k == 'log':
        v = R.randint(1, 99); r['a'] = [v]; code = 'Log<%s>{"n%d", [](std::string const& n, %s const& x) { note(n == "n%d" ? %d : -1, (long)x); }}' % (T, v, T, v, v)
    elif k in ('tee', 'trg', 'mux'):
        N = R.choice([1, 1, 2, 3])
        q = [R.choice(exits if k == 'mux' else ents) for _ in range(N)]
        r['q'] = q
        pq = ', '.join('static_cast<%s<int>&>(p%d)' % (S + ('PipeExit' if k == 'mux' else 'PipeEntry'), x) for x in q)
        if k == 'tee': code = 'Tee<int, %d>{%s}' % (N, pq)
        elif k == 'mux': code = 'Mux<int, %d>{%s}' % (N, pq); o = 'i'
        else:
            v = val(R); near = R.random() < .2
            r['a'] = [v, 2 if near else 0]
            if v == 0 and R.random() < .5: code = 'Triggered<int, %s, %d>{%s}' % ('Near' if near else 'std::equal_to<int>', N, pq)
            else: code = 'Triggered<int, %s, %d>{%d, %s}' % ('Near' if near else 'std::equal_to<int>', N, v, pq)
    elif k == 'tra':
        q = R.choice(exits); inv = R.random() < .4
        r['q'] = [q]; r['a'] = [1 if inv else 0]
        code = 'Transistor<int, %s, int>{static_cast<stored::pipes::PipeExit<int>&>(p%d)}' % ('true' if inv else 'false', q)
    elif k == 'cv':
        v = R.randint(101, 199); r['a'] = [v]; code = 'Call<int>{[](int x) { note(%d, x); }}' % v
    elif k == 'cr':
        v = R.randint(-5, 5); r['a'] = [v]; code = 'Call<int, void(int&)>{[](int& x) { x = x > 1000000 || x < -1000000 ? 0 : x + %d; }}' % v
    elif k == 'cf':
        v = R.randint(-5, 5); r['a'] = [v]; code = 'Call<int, int(int)>{[](int x) { return x > 1000000 || x < -1000000 ? 0 : %d - x; }}' % v
    elif k in ('set', 'get'):
        v = R.randint(1, 4); r['a'] = [v]
        w = ['w.store.v1', 'w.store.v2.variant()', 'w.store.fn', 'w.none'][v - 1]
        cl = 'Set' if k == 'set' else 'Get'
        code = {1: '%s{w.store.v1}', 2: '%s<int, decltype(w.store.v2.variant())>{w.store.v2.variant()}', 3: '%s{w.store.fn}', 4: '%s<int, stored::Variant<PipeStore>>{w.none}'}[v] % cl
        if k == 'get': o = 'i'
    elif k == 'chg':
        q = R.choice(ents); v = val(R); near = R.random() < .3
        r['q'] = [q]; r['a'] = [v, 2 if near else 0]
        code = 'Changes<int, %s>{static_cast<stored::pipes::PipeEntry<int>&>(p%d)%s}' % ('Near' if near else 'std::equal_to<int>', q, ', %d' % v if v or R.random() < .5 else '')
    elif k == 'rate':
        q = R.choice(ents); v = val(R); near = R.random() < .2; d = R.choice([1, 5, 10])
        r['q'] = [q]; r['a'] = [v, 2 if near else 0, d]
        code = 'RateLimit<int, %s, std::chrono::milliseconds, FakeClock>{static_cast<stored::pipes::PipeEntry<int>&>(p%d), std::chrono::milliseconds(%d)%s}' % ('Near' if near else 'std::equal_to<int>', q, d, ', %d' % v if v or R.random() < .5 else '')
    elif k == 'bnd':
        a, b = sorted([val(R), val(R)]); m = R.randint(0, 2)
        if m == 0: r['a'] = [a, b]; code = 'Constrained{Bounded<int>{%d, %d}}' % (a, b)
        elif m == 1: r['a'] = [a, 2147483647]; code = 'Constrained{Bounded<int>{%d}}' % a
        else: r['a'] = [-2147483647, 2147483647]; code = 'Constrained<Bounded<int>>{}'
    elif k in ('omap', 'rmap'):
        N = R.randint(1 if k == 'rmap' else 2, 9)
        ks = R.sample(range(-4, 12), N)
        if k == 'omap': ks.sort()
        vs = [R.choice([R.randint(-5, 9), val(R)]) for _ in ks]
        r['a'] = [x for y in zip(ks, vs) for x in y]
        L = ', '.join('{%d, %d}' % y for y in zip(ks, vs))
        code = 'Map<int, int>({%s})' % L if k == 'omap' else 'Mapped{make_random_map<int, int>({%s})}' % L
    elif k == 'imap':
        N = R.randint(2, 5); r['a'] = [val(R) for _ in range(N)]
        code = ('Map<int>({%s})' if R.random() < .5 else 'Map(%s)') % ', '.join(map(str, r['a'])); o = 'i'
    elif k == 'sig':
        v = R.choice([0, 1, 2, 7]); r['a'] = [v]
        code = S + 'Signal<int>{w.sig%s}' % (', (void*)%d' % v if v else '')
    elif k == 'conv':
        v = R.randint(-9, 9); r['a'] = [v]; code = 'Convert{Add{%d}}' % v
    elif k == 'scl':
        m = R.choice([(2, 1), (3, 1), (1, 2), (1, 4)]); r['a'] = list(m)
        code = 'Cast<int, double>{} >> Convert<Scale<double, std::ratio<%d, %d>>>{} >> Cast<double, int>{}' % m
    elif k == 'cast': code = 'Cast<int, int8_t>{}'; o = 'c'
    elif k == 'castb': code = 'Cast<int, bool>{}'; o = 'b'
    elif k == 'castz': code = 'Cast<int, size_t>{}'; o = 'z'
    elif k == 'castc': code = 'Cast<int8_t, int>{}'; o = 'i'
    return code, r, o
def network(R, n):
    """a network: (C++ function body, description)"""
    N = R.randint(3, 8)
    C, D = [], [None] * N
    ents, exits = [], []
    for p in range(N, 0, -1):
        t = tin = R.choice('iiiiiiibzzc')
        segs, code = [], []
        for _ in range(R.choice([0, 1, 1, 2, 2, 3, 4, 5])):
            c, r, t2 = seg(R, t, ents, exits, False)
            code.append(c); segs.append(r); t = t2
        kind = R.choice(['open', 'open', 'open', 'cap', 'ref'])
        if not code: t = tin
        e = {'open': 'Exit{}', 'cap': 'Cap{}', 'ref': 'Ref{w.group}'}[kind]
        if kind == 'ref': C.append('auto& p%d = %s;' % (p, ' >> '.join(['Entry<%s>{}' % CT[tin]] + code + [e])))
        else: C.append('auto p%d = %s;' % (p, ' >> '.join(['Entry<%s>{}' % CT[tin]] + code + [e])))
        C.append('t.add(%d, p%d, %d);' % (p, p, {'cap': 0, 'open': 1, 'ref': 2}[kind]))
        D[p - 1] = {'kind': kind, 'tin': tin, 'tout': t, 'segs': segs}
        if tin == 'i': ents.append(p)
        if t == 'i': exits.append(p)
    body = 'static void net%d(std::string const& d)\n{\n\tWorld w;\n\tTable t(w);\n\t%s\n\tt.run(d);\n}\n' % (n, '\n\t'.join(C))
    return body, D
