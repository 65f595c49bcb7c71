#!/usr/bin/env python3
# C22: stream decoder of the Python client.
import sys, json, importlib.util
spec = importlib.util.spec_from_file_location('heatshrink', sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
d = None
def ev(x): print(json.dumps(x), flush=False)
for l in sys.stdin:
    a = l.split()
    if not a: continue
    if a[0] == '@':
        ev({'seg': int(a[1])}); sys.stdout.flush()
        d = None
        continue
    x = bytes.fromhex(a[1]) if len(a) > 1 else b''
    if a[0] == 'new':
        d = m.HeatshrinkDecoder(); ev({'e': 'init'})
    elif a[0] == 'fill': ev({'e': 'fill', 'd': list(x), 'o': list(d.fill(x))})
    elif a[0] == 'fin': ev({'e': 'fin', 'd': list(x), 'o': list(d.finish(x))})
