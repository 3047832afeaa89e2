#!/usr/bin/env python3
"""C26: builds harness/feat with every set of features, runs it, and compares what it says about each type.
Usage: features.py [quick|thorough]   or   features.py replay <file>"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
R = os.environ.get('VERIF_ROOT') or os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness')
EXT = ['smallvec', 'uuid', 'glam', 'indexmap_v1', 'indexmap_v2', 'chrono', 'regex']
QUICK = ['', 'derive', 'alloc', 'alloc,derive', 'alloc,std', 'alloc,derive,std', 'alloc,derive,smallvec,uuid,glam,chrono', 'alloc,derive,std,' + ','.join(EXT), 'alloc,derive,std,' + ','.join(EXT) + ' --release', 'alloc --release']
MORE = ['uuid', 'glam', 'chrono', 'derive,uuid,glam,chrono', 'alloc,smallvec', 'alloc,uuid', 'alloc,glam', 'alloc,chrono', 'derive --release', ' --release'] + ['alloc,derive,std,' + x for x in EXT] + ['alloc,std,' + x for x in EXT] + ['alloc,derive,std --release']

def build(cfg):
    feats, _, rel = cfg.partition(' ')
    cmd = ['cargo', 'build', '--quiet', '--offline', '-p', 'feat', '--features', feats] + (['--release'] if rel else [])
    p = subprocess.run(cmd, cwd=H, env=dict(os.environ, RUSTFLAGS='-Awarnings'), capture_output=True, text=True)
    if p.returncode: return None, p.stderr
    return os.path.join(H, 'target', 'release' if rel else 'debug', 'feat'), ''

def run(exe, tier, only=None):
    return subprocess.run([exe, tier] + ([only] if only else []), capture_output=True, text=True, timeout=700)

def compare(tier, a, b, name):
    """The first situation in which two configurations behave differently."""
    outs = []
    for cfg in (a, b):
        exe, e = build(cfg)
        if not exe: return 'does not build: ' + e
        outs.append(run(exe, tier, name).stdout.split('\n'))
    for x, y in zip(*outs):
        if x != y: return '%s: "%s" with the features [%s], "%s" with the features [%s]' % (x.split('\t')[0], x.partition('\t')[2][:300], a, y.partition('\t')[2][:300], b)
    return None

def main():
    if sys.argv[1:2] == ['replay']:
        d = json.load(open(sys.argv[2]))
        if d['kind'] == 'different':
            m = compare(d['tier'], d['a'], d['b'], d['name'])
        else:
            exe, e = build(d['a'])
            p = run(exe, d['tier']) if exe else None
            m = e[:500] if not exe else (p.stdout + p.stderr)[-500:] if p.returncode else None
        print(m or 'not reproduced'); sys.exit(1 if m else 0)
    tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
    t0 = time.time()
    cfgs = QUICK + (MORE if tier == 'thorough' else [])
    said, execs, bad, procs, pool = {}, 0, [], [], ThreadPoolExecutor(6)
    for cfg in cfgs:
        exe, e = build(cfg)
        if not exe:
            bad.append(dict(kind='build', a=cfg, text='the library, or a program using it, does not build with the features [%s]: %s' % (cfg, ' '.join(l for l in e.split('\n') if l.startswith('error'))[:300])))
            continue
        # It runs while the next one is built.
        mine = '%s-%d' % (exe, len(procs))
        shutil.copy(exe, mine)
        procs.append((cfg, mine, pool.submit(run, mine, tier)))
    for cfg, mine, f in procs:
        try: p = f.result()
        except subprocess.TimeoutExpired:
            bad.append(dict(kind='run', a=cfg, text='the program does not end with the features [%s]' % cfg)); continue
        finally: os.remove(mine)
        for l in p.stdout.split('\n'):
            if l.startswith('DIFFERENT'): bad.append(dict(kind='run', a=cfg, text='%s, with the features [%s]' % (l[10:400], cfg)))
            elif l.count('\t') == 2:
                n, h, k = l.split('\t')
                execs += int(k)
                said.setdefault(n, []).append((cfg, h, int(k)))
        if p.returncode not in (0, 1): bad.append(dict(kind='run', a=cfg, text='the program ends with %d with the features [%s]: %s' % (p.returncode, cfg, p.stderr[-200:])))
    for n, xs in said.items():
        for x in xs[1:]:
            if x[1:] != xs[0][1:] and len(bad) < 5:
                m = compare(tier, xs[0][0], x[0], n)
                bad.append(dict(kind='different', a=xs[0][0], b=x[0], name=n, text='%s %s' % (n, m or 'behaves differently with the features [%s] and [%s]' % (xs[0][0], x[0]))))
                break
    compared = sum(len(xs) > 1 for xs in said.values())
    os.makedirs(os.path.join(R, 'evidence'), exist_ok=True)
    json.dump({'property': 'C26', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', 1)), 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': len(bad),
               'coverage': {'evaluations': execs, 'distinct_nontrivial': sum(xs[0][2] for xs in said.values()), 'configurations': len(cfgs), 'types': len(said), 'types_compared': compared,
                            'rule': 'The same program is built with %d sets of features; in each, every value of every type is written, and every string over 8 bytes up to length 4 (thorough: 9, 5), every truncation and 7 replacements of every byte of the encodings are read, in both byte orders, with and without borrowing; distinct: situations of one type, counted once for all configurations.' % len(cfgs),
                            'samples': ['%s: %d situations, %s, the same in [%s]' % (n, xs[0][2], xs[0][1], '], ['.join(x[0] for x in xs)) for n, xs in list(said.items())[:3]], 'exhaustive': True}},
              open(os.path.join(R, 'evidence', 'C26.json'), 'w'), indent=1)
    print('C26 %s: %d executions, %d configurations, %d types, %.1f s' % (tier, execs, len(cfgs), len(said), time.time() - t0))
    os.makedirs(os.path.join(R, 'replay'), exist_ok=True)
    for i, b in enumerate(bad[:5]):
        p = os.path.join(R, 'replay', 'C26-%d.json' % i)
        json.dump(dict(b, tier=tier), open(p, 'w'))
        print('  ' + b['text'])
        print('VIOLATION property=C26 replay=' + p)
    sys.exit(1 if bad else 0)
main()
