"""Random store definitions and the code to access the generated stores (C12, C13)."""
import os, re, hashlib, shutil, glob, struct
import vlib
from checks import storelib
from checks.storelib import FIX

WORDS = ['a', 'ab', 'abc', 'abd', 'b', 'ba', 'pos', 'position', 'position x', 'speed', 'speed limit', 'v', 'v0', 'v1', 'v10', 'V', 'x', 'y', 'Motor', 'motor', 'motors', 'amplitude of the sine wave generator output', 'amplitude of the sine wave generator offset', 'z' * 40, 'z' * 40 + 'a', 'q' * 70 + '1', 'q' * 70 + '2']
PUNCT = ' !"#$%&\'()*+,-.0123456789:;<=>?@AZ[]^_`az{|}~'

class Names:
    """Names without duplicates."""
    def __init__(self, R, style):
        self.R, self.style, self.used = R, style, set()
    def part(self):
        R = self.R
        if self.style == 'ab': return ''.join(R.choice('ab') for _ in range(R.choice([1, 1, 1, 2, 2, 3, 4])))
        if self.style == 'abx': return ''.join(R.choice('ab.0 ~') for _ in range(R.choice([1, 2, 3])))
        if self.style == 'words': return R.choice(WORDS)
        if self.style == 'num': return R.choice('cf') + str(R.choice([R.randint(0, 12), R.randint(0, 120)]))
        if self.style == 'long': return 'l' * R.choice([1, 30, 31, 32, 62, 63, 64, 100]) + R.choice('ab') + 'm' * R.choice([0, 1, 31, 33])
        return ''.join(R.choice(PUNCT) for _ in range(R.choice([1, 1, 2, 3, 5])))
    def name(self):
        for _ in range(200):
            p = re.sub(r'\s+', ' ', self.part())
            p = p.strip() if p.strip() else 's'
            # no array like or comment like parts, as these mean something else
            if '//' in p or '*/' in p or '/*' in p or re.search(r'\[\d+\]', p): continue
            if self.R.random() < .08: return p + '/' + self.name()
            return p
        return 'n'

def num(R, t):
    """An initial value as text, or None."""
    c = R.random()
    if c < .35: return None
    if t == 'bool': return R.choice(['true', 'false', '1', '0'])
    if t in ('float', 'double'):
        return R.choice(['0', '1', '-1', '0.5', '3.14', '1e10', '-2.5e-3', '123456789', '0x10', 'nan', 'inf', '-inf', '1e-30', '16777217', '0.1', 'true', '0b101', 'NaN', 'Infinity', '-infinity', '.5', '1.'])
    b = FIX[t][1] * 8
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t[0] == 'i' else (0, (1 << b) - 1)
    v = R.choice([0, 1, hi, lo, hi - 1, lo + 1, R.randint(lo, hi), R.randint(0, min(hi, 200)), 10, hi >> 1])
    if v >= 0 and R.random() < .3: return hex(v) if R.random() < .6 else '0x%X' % v
    if v >= 0 and R.random() < .1: return bin(v)
    return str(v)

def string_init(R, n):
    k = R.choice([0, n, R.randint(0, n), R.randint(0, n)])
    s = ''.join(R.choice('abcXYZ 0189.,:;/{}[]()=-') for _ in range(k))
    if k > 1 and R.random() < .2: s = s[:k - 2] + R.choice(['\\n', '\\t', '\\\\']) + 'e'
    if '//' in s: s = s.replace('//', '/.')
    return '"%s"' % s

def definition(R, style=None, n=None, simple=False):
    """Text of a store definition. simple: identifiers as names, more arrays and functions."""
    style = style or R.choice(['ab', 'ab', 'ab', 'abx', 'words', 'words', 'num', 'long', 'punct', 'punct'])
    N = Names(R, style)
    fresh = [0]
    def ident():
        fresh[0] += 1
        return '%s%d%s' % (R.choice(['o', 'val', 'Obj', 'x']), fresh[0], R.choice(['', 'q', ' end']))
    def typ():
        c = R.random()
        if c < .72:
            return R.choice(list(FIX)), None
        s = R.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 33, 100])
        return R.choice(['blob', 'string']), s
    def obj(ind, depth, room):
        """Returns text and number of objects."""
        nm = ident() if simple and (style != 'ab' or R.random() < .5) else N.name()
        c = R.random()
        if c < .2 and depth < 3 and room > 1:
            a = R.choice([1, 1, 1, 2, 3]) if room > 5 else 1
            inner, k = body(ind + '\t', depth + 1, max(1, room // a // 2))
            return '%s{\n%s%s}%s %s' % (ind, inner, ind, '[%d]' % a if a > 1 or R.random() < .05 else '', nm), k * a
        t, s = typ()
        tt = t if s is None else '%s:%d' % (t, s)
        if c < .32 and t != 'ptr32':       # a pointer has another size here
            a = R.choice([0, 0, 1, 2, 3]) if room > 3 else 0
            return '%s(%s)%s %s' % (ind, tt, '[%d]' % a if a else '', nm), max(1, a)
        a = R.choice([0, 0, 0, 0, 1, 2, 3, 5]) if room > 5 else 0
        i = None
        if s is None: i = num(R, t)
        elif t == 'string' and R.random() < .5: i = string_init(R, s)
        return '%s%s%s%s%s%s' % (ind, tt, '[%d]' % a if a else '', '=' + i if i is not None else '', R.choice([' ', '\t', '  ']), nm), max(1, a)
    def body(ind, depth, room):
        L, k = '', 0
        n = R.randint(1, max(1, min(room, 8 if depth else room)))
        while n > 0:
            t, m = obj(ind, depth, n)
            if R.random() < .05: L += ind + '// ' + R.choice(['comment', 'int8 no', '{']) + '\n'
            if R.random() < .05: L += '\n'
            L += t + '\n'
            n -= max(1, m)
            k += m
        return L, k
    n = n or R.choice([1, 2, 3, 3, 4, 5, 7, 10, 15, 25, 40])
    for _ in range(100):
        text, _k = body('', 0, n)
        names = [o.name for o in storelib.parse(text)]
        if len(set(names)) == len(names) and not any('//' in x or '*/' in x or '/*' in x for x in names):
            return text
        style2 = R.choice(['num', 'words', 'ab', 'punct'])
        N = Names(R, style2 if len(names) > 6 else style)
    return 'int8 a\n'

IDENT = re.compile(r'^[A-Za-z][A-Za-z0-9]*( [a-z]+)?(\[\d+\])?(/[A-Za-z][A-Za-z0-9]*( [a-z]+)?(\[\d+\])?)*$')
# Names in C++: only predictable for simple names
def cname(n): return re.sub(r'_+$', '', re.sub(r'_*/+', '__', re.sub(r'[^A-Za-z0-9/]+', '_', n)))
CTYPE = dict(bool='bool', float='float', double='double', ptr64='void*', **{'%sint%d' % (u, b): '%sint%d_t' % (u, b) for u in ('', 'u') for b in (8, 16, 32, 64)})

def tu(name, objs, members):
    """The C++ source to access store <name>."""
    fs, ms, ar, ty, fr = '', '', '', '', ''
    if members:
        for o in objs:
            c, f = cname(o.name), o.t & 0x40
            q = '"%s"' % o.name
            if f:
                if o.base in FIX:
                    fs += '\tvoid __%s(bool set, %s& v) { fixedFunction(regs, %s, set, v); }\n' % (c, CTYPE[o.base], q)
                else:
                    fs += '\tsize_t __%s(bool set, %s* v, size_t len) { return blobFunction(regs, %s, %d, %s, set, v, len); }\n' % (c, 'char' if o.base == 'string' else 'void', q, o.size, 'true' if o.base == 'string' else 'false')
            if o.base == 'ptr32': continue     # not on a 64-bit target
            ms += '\t\tf(%s, this->index(this->s.%s.variant()));\n' % (q, c)
            if o.base in FIX and o.base not in ('ptr32', 'ptr64'):
                k = 'function' if f else 'variable'
                for e in ('V%s::free%s<%s>(%%s).apply(this->s)' % (name, k.capitalize(), CTYPE[o.base]), 'this->s.template %s<%s>(%%s)' % (k, CTYPE[o.base])):
                    fr += '\t\tf(%s, this->index(stored::Variant<V%s>(%s)));\n' % (q, name, e % ('"/%s"' % o.name))
                ty += '\t\tif(k == "%s") return this->typedOp(a, %s, this->s.%s), true;\n' % (o.name.replace(' ', '_'), q, c)
        # accessors of arrays
        groups = {}
        for o in objs:
            p = re.split(r'\[(\d+)\]', o.name)
            if len(p) > 1: groups.setdefault(tuple(p[0::2]), {})[tuple(map(int, p[1::2]))] = o
        for names, g in groups.items():
            k = len(next(iter(g)))
            fn = cname(''.join(names[i] + ('[%s]' % 'abcdef'[i] if i < k else '') for i in range(len(names))))
            dims = [sorted({ix[d] for ix in g}) for d in range(k)]
            if len(g) != __import__('math').prod(map(len, dims)) or any(len(d) < 2 for d in dims): continue
            if any(o.base == 'ptr32' for o in g.values()): continue
            import itertools
            for ix in itertools.product(*[d + [d[-1] + 1, -1] for d in dims]):
                o = g.get(ix)
                ar += '\t\tf("%s", this->index(this->s.%s(%s)));\n' % (o.name if o else '', fn, ', '.join(map(str, ix)))
    return '''#include "genimpl.h"
#include "%(n)s.h"
class V%(n)s : public stored::%(n)sDefaultFunctions<stored::%(n)sBase<V%(n)s>> {
	STORE_CLASS(V%(n)s, stored::%(n)sDefaultFunctions, stored::%(n)sBase)
public:
	Regs regs;
	V%(n)s() = default;
%(fs)s};
struct G%(n)s : public GenStore<V%(n)s> {
	void members(std::function<void(char const*, int)> f) override { (void)f;
%(ms)s	}
	void arrays(std::function<void(char const*, int)> f) override { (void)f;
%(ar)s	}
	void frees(std::function<void(char const*, int)> f) override { (void)f;
%(fr)s	}
	bool typed(h::Args const& a) override { std::string k = a.size() > 1 ? a[1] : ""; (void)k;
%(ty)s		return false; }
};
static bool reg_%(n)s = (factories()["%(n)s"] = []() -> AnyStore* { return new G%(n)s(); }, true);
''' % dict(n=name, fs=fs, ms=ms, ar=ar, ty=ty, fr=fr)

class Store:
    def __init__(self, name, text, simple):
        self.name, self.text, self.simple = name, text, simple
        self.objs = storelib.parse(text)
        self.members = simple and all(IDENT.match(o.name) for o in self.objs) and len({cname(o.name) for o in self.objs}) == len(self.objs)

def build(tag, stores, opt='-O0'):
    """Generates and compiles the stores. Returns the executable and the directory of the generated files."""
    h = hashlib.sha256(''.join(s.name + s.text for s in stores).encode()).hexdigest()[:12]
    d = os.path.join(vlib.BUILD, 'def-%s-%s' % (tag, h))
    os.makedirs(d, exist_ok=True)
    sts, srcs = [], [os.path.join(vlib.VERIF, 'harness', 'gen.cpp')]
    for s in stores:
        p = os.path.join(d, s.name + '.st')
        open(p, 'w').write(s.text)
        sts.append(p)
        p = os.path.join(d, 'v_%s.cpp' % s.name)
        t = tu(s.name, s.objs, s.members)
        if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
        srcs.append(p)
    gen = vlib.gen_store(sts)
    return vlib.build('gen-' + tag, srcs=srcs, stores=sts, extra=[opt, '-I' + os.path.join(vlib.VERIF, 'harness')]), gen
