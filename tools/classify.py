#!/usr/bin/env python3
"""Development only: turns the disagreements written by `check.sh P T -classify
DIR` into the lists of recorded findings known/*.txt.  Every disagreement must
match a rule below, each of which describes one diagnosed defect; what matches
none is printed and not recorded.
usage: classify.py DIR [--write]"""
import sys, json, glob, os, re, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rule(prop, shape, desc, cls, why, inp, out, det):
    if cls in ('panic', 'std-panic', 'rt-panic') and 'index out of range' in det:
        return 'b64panic'
    if cls in ('panic', 'enc-panic', 'std-panic', 'rt-panic') and '_pp' in shape and 'nil pointer' in det:
        return 'nilptrptr'
    if cls in ('accepted', 'sweep', 'std-refuses') and why == 'out of range':
        return 'range'
    if cls == 'accepted' and 'XE' in shape and ' then ' in inp and why in ('not an array', 'not an object'):
        return 'stale'
    if cls in ('value', 'hist-value', 'reset-value') and (' then ' in inp):
        return 'stale'
    if cls == 'path':
        return 'path'
    if cls == 'enc-odd':
        return 'nan'
    if cls == 'enc-invalid' and re.search(r'null"', out.replace(':null"', 'null"')) or cls == 'enc-invalid' and sorted(out) == list(out):
        return 'nullcomma'
    if cls == 'enc-invalid' and re.search(r'\{,|,,|,\}', out):
        return 'inlinecomma'
    if cls == 'enc-text' and 'got {w null}' in det and re.search(r'F=\[0( 0)*\]', inp):
        return 'zerobytes'
    if cls == 'rt-rejected' and 'it contains null' in det:
        return 'nilnamed'
    if cls == 'reset' and ('{' in out):
        return 'mapreset'
    if cls == 'zero' and out == 'true':
        return 'arrzero'
    if cls == 'enc-text' and shape == 'clash.WithLabel' and out == '{}':
        return 'clashzero'
    if cls in ('value', 'rt-value', 'std-differs') and shape.startswith('ruser.RefRef') and ('null' in inp or 'null' in det):
        return 'refdefault'
    return None
known = collections.defaultdict(lambda: collections.defaultdict(set))
n = collections.Counter(); bad = collections.Counter(); ex = {}
for f in sorted(glob.glob(sys.argv[1] + '/[A-Z][0-9]*.*.[0-9]')):
    for l in open(f):
        prop, shape, desc, h, cls, why, inp, out, det = json.loads(l)
        r = rule(prop, shape, desc, cls, why, inp, out, det)
        if r is None:
            k = (prop, cls, why, shape); bad[k] += 1; ex.setdefault(k, (inp, out, det)); continue
        n[r, prop, cls] += 1
        known[r][shape].add(h)
for k in sorted(n): print(*k, n[k])
for k in list(sorted(bad))[:60]: print('UNCLASSIFIED', k, bad[k], *[x[:200] for x in ex[k]])
if '--merge' in sys.argv:
    # keep what is recorded already
    for f in glob.glob(V + '/known/*.txt'):
        r = os.path.basename(f)[:-4]
        for l in open(f):
            s, hs = l.rstrip('\n').split('\t')
            known[r][s] |= {hs[i:i+8] for i in range(0, len(hs), 8)}
if ('--write' in sys.argv or '--merge' in sys.argv) and not bad:
    os.makedirs(V + '/known', exist_ok=True)
    for old in glob.glob(V + '/known/*.txt'): os.remove(old)
    for r in known:
        with open(V + '/known/%s.txt' % r, 'w') as f:
            for s in sorted(known[r]): f.write(s + '\t' + ''.join(sorted(known[r][s])) + '\n')
    print('written')
