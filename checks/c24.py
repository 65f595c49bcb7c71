"""C24: control components."""
import math
import os
import vlib
H = os.path.join(vlib.VERIF, 'harness')
U = 1024.
def num(x):
    return 'inf' if x == math.inf else '-inf' if x == -math.inf else 'nan' if x != x else repr(float(x))
NAN, INF = math.nan, math.inf
class Gen:
    """Parameters such that all computations are exact in the units of the specification."""
    def __init__(self, R, comp):
        self.R, self.L, self.c, self.f, self.target, self.dis = R, ['new'], comp, 1, {}, {}
    def set(self, c, k, v, spec=None):
        self.L.append('set %s %s %s' % (c, k, num(v)) + ('' if spec is None else ' %d' % spec))
    def sig(self, m=8): return self.R.choice([0, self.R.randint(-16 * m, 16 * m) / 16, self.R.randint(-m, m), self.R.choice([-m, m])])
    def freq(self, choices):
        self.f = self.R.choice(choices)
        self.L.append('f %d' % self.f)
    def common(self, c, enable=True, override=True):
        R = self.R
        if enable and R.random() < .06:
            v = R.random() < .6
            if R.random() < .5: self.set(c, 'enable', v)
            else: self.L.append('enable %s %d' % (c, v))
            if c in self.target:
                # let a disabled ramp settle, as it continues with the speed of its input once enabled again
                self.dis[c] = not v
                if not v: self.L += ['run %s %s' % (c, num(self.target[c]))] * 2
        if override and R.random() < .06: self.set(c, 'override', R.choice([NAN, NAN, NAN, self.sig(), INF]))
        if R.random() < .04: self.L.append('assign ' + c)
        if R.random() < .04: self.L.append('health')
    def run(self, c, x=None): self.L.append('run ' + c + ('' if x is None else ' ' + num(x)))
    # -- amplifier
    def amp(self):
        R = self.R
        c = R.choice(['amp', 'amp', 'samp', 'damp'])
        full = c != 'samp'
        self.common(c, enable=full)
        if R.random() < .2: self.set(c, 'gain', R.randint(-16, 16) / 4)
        if full and R.random() < .15: self.set(c, 'offset', self.sig())
        if full and R.random() < .15:
            lo = R.choice([-INF, self.sig()])
            hi = R.choice([INF, max(self.sig(), lo), lo])
            if hi == -INF: hi = INF
            self.set(c, 'low', lo); self.set(c, 'high', hi)
        if full and R.random() < .3:
            self.set(c, 'input', self.sig()); self.run(c)
        else: self.run(c, self.sig())
    # -- pins
    def pin(self):
        R = self.R
        k = R.random()
        if k < .15: self.L.append('hw %d' % R.randint(0, 1))
        elif k < .3: self.set(R.choice(['pin', 'spin']), 'override', R.choice([-1, 0, 1, 2, 3, 127, -128]))
        elif k < .4: self.run(R.choice(['ovr', 'ovrs']), R.choice([-1, 0, 1, 2, 2, 5]))
        elif k < .5: self.run('pout', R.randint(0, 1))
        elif k < .6: self.run('pset', R.randint(0, 1))
        elif k < .7: self.run('pout')
        elif k < .75: self.run('input')
        elif k < .8: self.run('get')
        elif k < .9: self.run('pin', R.choice([None, 0, 1]))
        elif k < .95: self.run('spin', R.randint(0, 1))
        else: self.L.append('assign ' + R.choice(['pin', 'spin', 'pout']))
    # -- PID
    def pid(self):
        R = self.R
        c = R.choice(['pid'] * 4 + ['spid', 'mpid'])
        if len(self.L) == 1:
            self.freq([1, 2, 4, 8])
            if R.random() < .6: self.pidset('pid', R.random() < .6)
            if R.random() < .5:
                self.set('spid', 'Ti__s_', R.choice([.25, 1, INF])); self.set('mpid', 'Td__s_', R.choice([0, .25, .5])); self.set('mpid', 'Ti__s_', R.choice([.5, 2]))
        if R.random() < .02: self.freq([1, 2, 4, 8])
        if R.random() < .06 and c == 'pid': self.pidset(c, True)
        if c == 'pid' and R.random() < .03: self.set(c, 'reset', 1)
        self.common(c, enable=c != 'spid', override=c != 'spid')
        if R.random() < .25: self.set(c, 'setpoint', self.sig())
        if c == 'pid' and R.random() < .06: self.set(c, 'int', self.sig())
        if R.random() < .3 and c != 'spid':
            self.set(c, 'y', self.sig()); self.run(c)
        else: self.run(c, self.sig())
    def pidset(self, c, reset):
        R = self.R
        self.set(c, 'Kp', R.choice([-4, -3, -2, -1, 0, 1, 2, 3, 4]))
        self.set(c, 'Ti__s_', R.choice([.25, .5, 1, 2, 4, INF, 0]))
        self.set(c, 'Td__s_', R.choice([0, 0, .25, .5, 1]))
        self.set(c, 'Kff', R.choice([0, 0, 1, -2]))
        lo, hi = R.choice([(-INF, INF), (-8, 8), (0, 10), (-3.5, 40)])
        self.set(c, 'low', lo); self.set(c, 'high', hi)
        lo, hi = R.choice([(-INF, INF), (-INF, INF), (-5, 5), (0, 7.5)])
        self.set(c, 'int_low', lo); self.set(c, 'int_high', hi)
        self.set(c, 'error_max', R.choice([INF, INF, 2, .5]))
        if R.random() < .3: self.set(c, 'int', self.sig())
        if reset: self.set(c, 'reset', 1)
    # -- waves
    def pulse(self):
        R = self.R
        if len(self.L) == 1: self.freq([1, 2, 4, 8])
        if R.random() < .02: self.freq([1, 2, 4, 8])
        c = R.choice(['pulse'] * 3 + ['spulse'])
        self.common(c, override=c == 'pulse')
        if R.random() < .06: self.set(c, 'frequency__Hz_', R.choice([.5, 1, 2, 4, 0, -1] if c == 'pulse' else [.5, 1, 2]))
        if R.random() < .06: self.set(c, 'duty_cycle', R.choice([0, .25, .5, .75, 1] + [R.randint(0, 16) / 16]))
        if c == 'pulse':
            if R.random() < .06: self.set(c, 'amplitude', self.sig())
            if R.random() < .06:
                k = R.choice([0, R.choice([-1, 1]) * (2 * R.randint(0, 40) + 1)])
                self.set(c, 'phase__rad_', 2 * math.pi * k / 32, k)
        self.run(c)
    def sine(self):
        R = self.R
        if len(self.L) == 1: self.freq([4, 8, 16])
        if R.random() < .02: self.freq([1, 4, 8, 16])
        self.common('sine')
        if R.random() < .06: self.set('sine', 'frequency__Hz_', R.choice([.5, 1, 2]))
        if R.random() < .06: self.set('sine', 'amplitude', self.sig())
        if R.random() < .06: self.set('sine', 'offset', self.sig())
        if R.random() < .06:
            k = R.randint(-40, 40)
            self.set('sine', 'phase__rad_', 2 * math.pi * k / 32, k)
        self.run('sine')
    # -- filters
    def filter(self):
        R = self.R
        c = R.choice(['lowpass', 'lowpass', 'highpass', 'highpass', 'slow'])
        def cut(c):
            rc = R.choice([16, 64, 163, 256, 1024, 2000])
            self.set(c, 'cutoff_frequency__Hz_', 1 / (2 * math.pi * (rc / U)), rc)
        if len(self.L) == 1:
            self.freq([1, 2, 4, 8, 16, 64])
            for x in ('lowpass', 'highpass', 'slow'):
                if R.random() < .7: cut(x)
        self.common(c, override=c != 'slow')
        if c != 'slow':
            if R.random() < .06:
                if R.random() < .6: cut(c)
                else: self.freq([1, 2, 4, 8, 16, 64])
                if R.random() < .6: self.set(c, 'reset', 1)
            if R.random() < .3:
                self.set(c, 'input', self.sig()); self.run(c)
                return
        self.run(c, self.sig())
    # -- ramps
    def ramp(self):
        R = self.R
        if len(self.L) == 1:
            self.freq([1, 2, 4, 8])
            self.target, self.dis = {'ramp': 0, 'sramp': 0}, {'ramp': False, 'sramp': False}
            if R.random() < .8: self.rampset('ramp', R.random() < .8)
            self.rampset('sramp', True)
        c = self.c2 = R.choice(['ramp', 'sramp']) if R.random() < .03 or not hasattr(self, 'c2') else self.c2
        if R.random() < .02: self.rampset(c, R.random() < .8)
        if R.random() < .02: self.freq([1, 2, 4, 8]); self.rampset('ramp', True); self.rampset('sramp', True)
        if R.random() < .01: self.set(c, 'reset', 1)
        if R.random() < .4: self.common(c, override=c == 'ramp')
        if R.random() < .07 and not self.dis[c]: self.target[c] = self.sig(R.choice([1, 4, 16]))
        if R.random() < (.4 if self.dis[c] else .02): self.target[c] += R.choice([-1, 1]) * R.randint(0, 16) / 64
        if c == 'ramp' and R.random() < .2:
            self.set(c, 'input', self.target[c]); self.run(c)
        else: self.run(c, self.target[c])
    def rampset(self, c, reset):
        R = self.R
        f, p, v = self.f, R.choice([16, 32, 64, 64, 128, 7, 33]) / U, R.choice([1, 2, 3, 4, 8, 20])
        al, sl = R.choice([(p * f * f, p * f * v)] * 5 + [(p * f * f, INF), (INF, p * f), (p * f * f * 4, p * f), (INF, INF)])
        self.set(c, 'speed_limit', sl); self.set(c, 'acceleration_limit', al)
        if reset: self.set(c, 'reset', 1)
def script(R, n, kind):
    g = Gen(R, kind)
    for _ in range(n): getattr(g, kind)()
    return g.L
def run(ck):
    R = ck.rng
    ck.model('RampMC', 'RampMC')
    ck.model('RampMC', 'RampReset')
    exe = vlib.build('comp', stores=[os.path.join(vlib.VERIF, 'stores', 'Comp.st')])
    N = 1200 if ck.thorough else 130
    segs = []
    for kind, w, n in [('amp', .5, 60), ('pin', .5, 60), ('pid', 2, 80), ('pulse', 1, 80), ('sine', .5, 60), ('filter', 1, 60), ('ramp', 3, 250)]:
        segs += [vlib.Seg(script(R, n, kind), kind) for _ in range(int(N * w))]
    ck.conform(exe, 'ComponentsTrace', 'ComponentsTrace', segs, name='components')
    ck.assumptions += ['parameters are dyadic, such that the computations are exact in single precision; limits are ordered; parameters change together with a reset',
        'filters and the sine wave are compared with a tolerance of about 2/1024']
