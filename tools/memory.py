#!/usr/bin/env python3
"""C24 and C27: carries out an enumeration in an interpreter (Miri) which notices undefined behaviour, and compares what
comes out with what comes out natively; C27 does so for other platforms. C24 also compiles programs which must be rejected.
Usage: memory.py <C24|C27> [quick|thorough]   or   memory.py replay <file>"""
import itertools, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_ROOT') or os.path.abspath(os.path.join(HERE, '..'))
H = os.path.abspath(os.path.join(HERE, '..', 'harness'))
T = os.path.join(H, 'target', 'memory')
HOST = 'x86_64-unknown-linux-gnu'
CFG = '--cfg speedy_verif -Awarnings'
CORES = os.cpu_count() or 8

class Broken(Exception): pass
def sh(cmd, cwd=H, timeout=850, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, RUSTFLAGS=CFG, **env), capture_output=True, text=True, timeout=timeout)
def native():
    p = sh(['cargo', 'build', '--offline', '--quiet', '-p', 'mem'])
    if p.returncode: raise Broken('the harness does not build: ' + p.stderr[-2000:])
    return os.path.join(H, 'target', 'debug', 'mem')

def sysroot(target):
    """The interpreter's standard library, which only some platforms have beforehand."""
    cached = os.path.expanduser('~/.cache/miri')
    if os.path.isdir(os.path.join(cached, 'lib', 'rustlib', target)): return cached
    d = os.path.join(T, 'sysroot')
    if not os.path.isdir(os.path.join(d, 'lib', 'rustlib', target)):
        p = sh(['cargo', '+nightly', 'miri', 'setup', '--target', target], cwd=T, MIRI_SYSROOT=d)
        if p.returncode: raise Broken('no standard library for ' + target + ': ' + p.stderr[-2000:])
    return d

def interpret(target, package, args, timeout=850, flags='', **env):
    root = sysroot(target)
    return sh(['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet', '--target', target, '-p', package, '--'] + args, timeout=timeout, MIRI_SYSROOT=root,
              MIRIFLAGS='-Zmiri-ignore-leaks -Zmiri-disable-isolation ' + flags, CARGO_TARGET_DIR=os.path.join(H, 'target', 'miri-' + target), **env)

def what_went_wrong(err):
    m = re.search(r'error: (.*)', '\n'.join(l for l in err.split('\n') if not l.startswith('error: aborting')))
    where = re.search(r'/repo/(src|speedy-derive)[^\s:]*:\d+', err)
    return (m.group(1) if m else err[-300:]) + (' at ' + where.group(0) if where else '')

def records(data):
    at, t = 1, 0
    while at < len(data):
        kind, flag, n = struct.unpack_from('<BBH', data, at)
        if kind == 0:
            t = at; at += 4
            yield at - 4, kind, flag, n, t
        else:
            yield at, kind, flag, data[at + 4:at + 4 + n], t
            at += 12 + n

def explore(target, plan, names, flags=''):
    """Every record of every file of a plan. The interpreter is started again after what it stops at."""
    root = sysroot(target)
    first = interpret(target, 'mem', ['run', os.path.join(T, 'none')], flags=flags)   # builds it
    if first.returncode: raise Broken('the interpreter does not run: ' + first.stderr[-2000:])
    def one(f):
        p = interpret(target, 'mem', ['run', f], timeout=7200, flags=flags)
        data = open(f, 'rb').read()
        at = {r[0]: r for r in records(data)}
        bad = []
        def add(pos, text):
            if pos not in at: raise Broken('the interpreter does not run: ' + p.stderr[-1500:])
            _, kind, flag, x, t = at[pos]
            name = names[struct.unpack_from('<H', data, t + 2)[0]]
            bad.append(dict(kind='case', target=target, flags=flags, name=name, text='%s: %s %s %s: %s' % (name, 'writing' if kind == 1 else 'reading', x.hex()[:200], 'BE' if flag else 'LE', text),
                            record=(data[0:1] + data[t:t + 4] + data[pos:pos + 12 + len(x)]).hex()))
        marks = re.findall(r'^([@!])(\d+)$', p.stderr, re.M)
        for m, pos in marks:
            if m == '!': add(int(pos), 'not the same comes out on %s, interpreted, as natively' % target)
        if p.returncode or 'done' not in p.stdout:
            if not marks: raise Broken('the interpreter does not run: ' + p.stderr[-1500:])
            msg = what_went_wrong(p.stderr)
            if 'unsupported operation' in msg: raise Broken(msg)
            add(int(marks[-1][1]), msg)
        return bad, sum(m == '@' for m, _ in marks)
    bad, done = [], 0
    with ThreadPoolExecutor(CORES) as pool:
        for b, n in pool.map(one, plan): bad += b; done += n
    return bad, done

def make_plan(depth, shards):
    d = os.path.join(T, 'plan-' + depth)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    exe = native()
    p = sh([exe, 'plan', depth, str(shards), d])
    if p.returncode:
        # Natively, it must not even get that far.
        raise Broken('the plan cannot be made: ' + p.stderr[-500:])
    open(os.path.join(T, 'none'), 'wb').write(b'\1')
    names = sh([exe, 'names']).stdout.split('\n')[:-1]
    types, cases, distinct = map(int, p.stdout.split())
    return [os.path.join(d, str(i)) for i in range(shards)], names, types, cases, distinct

# What may be borrowed from the input, bit for bit.
GOOD = ['u8', 'i8']
BAD = ['bool', 'char', 'String', '&\'a str', 'Option<u8>', 'core::num::NonZeroU8', '()', 'E', 'Vec<u8>', 'core::cmp::Ordering']
FORMS = {'none': '', 'length': '#[speedy(length = n)]', 'length_type': '#[speedy(length_type = u16)]', 'until the end': '#[speedy(length = ..)]', 'default_on_eof': '#[speedy(default_on_eof)]'}
SHAPES = {'named': 'struct S<\'a> { n: u8, ATTR x: &\'a [TYPE] }', 'tuple': 'struct S<\'a>(u8, ATTR &\'a [TYPE]);', 'enum': 'enum S<\'a> { A { n: u8, ATTR x: &\'a [TYPE] } }', 'cow': 'struct S<\'a> { n: u8, ATTR x: Cow<\'a, [TYPE]> }'}
DIRECT = ['&\'a [TYPE]', '&\'a [TYPE; 2]']
def programs(thorough):
    """Whether it is a valid thing to borrow, and the program."""
    types = [(True, t) for t in GOOD] + [(False, t) for t in BAD]
    head = 'use speedy::*;\nuse std::borrow::Cow;\n#[derive(Readable, Writable, Clone, Copy, Debug, PartialEq)] enum E { A, B }\n'
    main = 'fn main() { for n in 0..40 { for x in [2u8, 0xff, 0] { let mut d = vec![x; n]; if n > 0 { d[0] = 2; } if n > 4 { d[1] = 2; d[2] = 0; d[3] = 0; d[4] = 0; } if let Ok(v) = S::read_from_buffer(&d) { println!("{v:?}"); } } } }\n'
    for (good, t), (sn, sh_), (fn_, f) in itertools.product(types, SHAPES.items(), FORMS.items()):
        if sn == 'cow' and not (t in GOOD[:1] or t == 'bool'): continue
        if fn_ == 'length' and sn == 'tuple': f = '#[speedy(length = t0)]'
        if not thorough and sn in ('tuple', 'enum') and t not in ('u8', 'bool'): continue
        yield good, '%s %s %s' % (t, sn, fn_), head + '#[derive(Readable, Debug)] ' + sh_.replace('ATTR', f).replace('TYPE', t) + '\n' + main
    for (good, t), d in itertools.product(types, DIRECT):
        yield good, d.replace('TYPE', t), head + 'type S<\'a> = %s;\n' % d.replace('TYPE', t) + main.replace('S::read', '<S as Readable<LittleEndian>>::read')
    for t in ['u8', 'bool']:
        yield t == 'u8', 'generic ' + t, head + '#[derive(Readable, Debug)] struct G<\'a, X: Copy + 'r"'a> { x: &'a [X] }"'\ntype S<\'a> = G<\'a, %s>;\n' % t + main

def accepted(text, n):
    p = os.path.join(T, 'program-%d.rs' % n)
    open(p, 'w').write(text)
    q = sh(['cargo', 'check', '--offline', '--quiet', '-p', 'cfail'], CFAIL=p)
    return q.returncode == 0, q.stderr, p

def compile_all(thorough):
    bad, n, yes, no = [], 0, 0, 0
    for good, name, text in programs(thorough):
        ok, err, path = accepted(text, 0)
        n += 1
        yes += ok; no += not ok
        if not ok and good: bad.append(dict(kind='program', text='a program which borrows %s is rejected: %s' % (name, what_went_wrong(err)), name=name, program=text, good=True))
        # Accepting it is wrong only if that makes something which is not valid.
        if ok and not good:
            r = interpret(HOST, 'cfail', [], CFAIL=path)
            if r.returncode and 'Undefined Behavior' in r.stderr: bad.append(dict(kind='program', text='a program which borrows %s compiles, and: %s' % (name, what_went_wrong(r.stderr)), name=name, program=text, good=False))
    if not yes or not no: raise Broken('every program was treated alike')
    return bad, n, yes, no

def replay(path):
    d = json.load(open(path))
    os.makedirs(T, exist_ok=True)
    if d['kind'] == 'case':
        open(os.path.join(T, 'replay'), 'wb').write(bytes.fromhex(d['record']))
        # The type may have moved.
        names = sh([native(), 'names']).stdout.split('\n')[:-1]
        rec = bytearray(bytes.fromhex(d['record']))
        struct.pack_into('<H', rec, 3, names.index(d['name']))
        f = os.path.join(T, 'replay')
        open(f, 'wb').write(rec)
        p = interpret(d['target'], 'mem', ['run', f], flags=d['flags'])
        m = what_went_wrong(p.stderr) if p.returncode else 'not the same comes out' if '!' in p.stderr else None
    else:
        ok, err, f = accepted(d['program'], 1)
        if d['good']: m = None if ok else what_went_wrong(err)
        else:
            r = interpret(HOST, 'cfail', [], CFAIL=f) if ok else None
            m = what_went_wrong(r.stderr) if r and r.returncode else None
    print(m or 'not reproduced')
    return 1 if m else 0

def main():
    if sys.argv[1] == 'replay': return replay(sys.argv[2])
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    thorough = tier == 'thorough'
    t0 = time.time()
    os.makedirs(T, exist_ok=True)
    cov, bad = {}, []
    if prop == 'C24':
        plan, names, types, cases, distinct = make_plan(tier, CORES * (8 if thorough else 1))
        bad, done = explore(HOST, plan, names)
        b, n, yes, no = compile_all(thorough)
        bad += b
        cov = {'evaluations': cases + n, 'distinct_nontrivial': distinct + n, 'types': types, 'records': done, 'programs': n, 'programs_rejected': no, 'programs_accepted': yes, 'exhaustive': True,
               'rule': 'Every type of the catalogue, its simplest and its largest value (thorough: 4 values) written to %d kinds of sinks and its encodings, their truncations, replacements of their bytes and extensions, read from %d kinds of sources, in an interpreter which stops at undefined behaviour (bounds, initialization, validity, alignment, aliasing), compared with the same natively; and programs over every element type, kind of item and form of attribute, which must be rejected or be free of undefined behaviour; distinct: inputs and programs.' % ((5, 6) if thorough else (4, 4))}
    else:
        targets = ['s390x-unknown-linux-gnu', 'i686-unknown-linux-gnu'] + ([HOST] if thorough else [])
        plan, names, types, cases, distinct = make_plan('others' if thorough else 'other', CORES)
        done = 0
        for t in targets:
            b, n = explore(t, plan, names)
            bad += b; done += n
        cov = {'evaluations': cases * len(targets), 'distinct_nontrivial': distinct, 'types': types, 'records': done, 'platforms': len(targets), 'exhaustive': True,
               'rule': 'Every type of the catalogue, its simplest and its largest value written, and their encodings and changed encodings read, in both byte orders, interpreted as on %s; what comes out is compared with what comes out natively; distinct: inputs.' % ', '.join(targets)}
    cov['samples'] = []
    for f in plan[:3]:
        data = open(f, 'rb').read()
        r = next(r for r in list(records(data))[5:] if r[1])
        cov['samples'].append('%s: %s %s' % (names[struct.unpack_from('<H', data, r[4] + 2)[0]], 'write' if r[1] == 1 else 'read', r[3].hex()[:100]))
    os.makedirs(os.path.join(R, 'evidence'), exist_ok=True)
    json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', 1)), 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': len(bad), 'coverage': cov}, open(os.path.join(R, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d executions, %.1f s' % (prop, tier, cov['evaluations'], time.time() - t0))
    os.makedirs(os.path.join(R, 'replay'), exist_ok=True)
    for i, b in enumerate(bad[:5]):
        p = os.path.join(R, 'replay', '%s-%d.json' % (prop, i))
        json.dump(b, open(p, 'w'))
        print('  ' + b['text'])
        print('VIOLATION property=%s replay=%s' % (prop, p))
    return 1 if bad else 0
try: sys.exit(main())
except Broken as e: print(e, file=sys.stderr); sys.exit(2)
