#!/usr/bin/env python3
"""C29: compiles every declaration of a bounded space with the real derive macros, and compares what the compiler says to
what the documentation does: those which are described by it have to compile (and write the tags which they are declared with),
those which contradict themselves have to be rejected by each of the macros.
Usage: declare.py [quick|thorough]   or   declare.py replay <file>"""
import itertools, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_ROOT') or os.path.abspath(os.path.join(HERE, '..'))
H = os.path.abspath(os.path.join(HERE, '..', 'harness'))
T = os.path.join(H, 'target', 'declare')
CORES = os.cpu_count() or 8
PRELUDE = '#![allow(warnings)] use speedy::{Readable, Writable, Endianness}; use std::borrow::Cow; use std::collections::{HashMap, HashSet, BTreeMap, BTreeSet};\n'
IN_MOD = 'use speedy::{Readable, Writable}; use std::borrow::Cow; use std::collections::{HashMap, HashSet, BTreeMap, BTreeSet};'
class Broken(Exception): pass

# ---- the model: which declarations there are, and what is to become of them ----

PLAIN = ['String', 'Vec<u8>', 'Vec<u32>', 'Vec<String>', "Cow<'a, [u8]>", "Cow<'a, [u32]>", "Cow<'a, str>", 'HashMap<u8, u16>', 'BTreeMap<u8, u16>', 'HashSet<u16>', 'BTreeSet<u16>',
         "Cow<'a, HashMap<u8, u16>>", "Cow<'a, BTreeMap<u8, u16>>", "Cow<'a, HashSet<u16>>", "Cow<'a, BTreeSet<u16>>", "&'a [u8]", "&'a str", "&'a [u16]"]
OPTIONS = ['Option<%s>' % t for t in PLAIN]
SCALARS = ['u64', 'u8', 'i64', 'u32', 'usize', 'f64', 'bool', 'char', '[u8; 3]', '[u64; 2]', '(u8, u64)', '()', 'Option<u64>', 'Option<[u8; 3]>', 'Box<[u8]>', 'std::string::String', 'Option<Option<u8>>', 'u128', 'Vec']
LENGTHS = ['u7', 'u8', 'u16', 'u32', 'u64', 'u64_varint']

def attribute_sets(n, thorough):
    base = ['default_on_eof', 'length = %s' % n, 'length = ..', 'skip', 'varint', 'constant_prefix = b"ab"'] + ['length_type = ' + x for x in LENGTHS]
    few = base[:6] + ['length_type = u8']
    for a in base: yield [a]
    for p in itertools.product(few, repeat=2): yield list(p)
    if thorough:
        for p in itertools.product(few, repeat=3): yield list(p)

def judge(attrs, ty):
    """Whether a field is meaningful: True, False, or None where nothing says."""
    names = [a.split(' ')[0] for a in attrs]
    wrong = None
    for n in ('default_on_eof', 'length', 'length_type', 'constant_prefix'):
        if names.count(n) > 1: wrong = 'twice ' + n
    if 'length' in names and 'length_type' in names: wrong = 'both length and length_type'
    if 'length' in names and ty not in PLAIN: wrong = 'length on ' + ty
    if 'length_type' in names and ty not in PLAIN + OPTIONS: wrong = 'length_type on ' + ty
    if 'varint' in names and ty != 'u64': wrong = 'varint on ' + ty
    if wrong: return None if 'skip' in names and not wrong.startswith('twice') and not wrong.startswith('both') else False
    if any(names.count(n) > 1 for n in ('skip', 'varint')): return None
    if ty == 'std::string::String' and names[0] == 'skip': return True
    return True

def fields(thorough):
    """A field with attributes in every kind of struct."""
    kinds = {
        'struct': ("struct S%s {{ n: u8, {a} x: {t} }}", 'n'),
        'tuple': ("struct S%s(u8, {a} {t});", '2'),
        'variant': ("enum S%s {{ A, B {{ n: u8, {a} x: {t} }}, C }}", 'n'),
        'tuple variant': ("enum S%s {{ A, B(u8, {a} {t}), C }}", '2'),
    }
    later = {'struct': ', y: u8 }', 'tuple': ', u8)', 'variant': ', y: u8 }', 'tuple variant': ', u8)'}
    for kind, (form, n) in kinds.items():
        for ty in PLAIN + OPTIONS + SCALARS:
            if ty == 'Vec': continue
            if ty == 'Box<[u8]>' or ty == 'Option<Option<u8>>': continue
            generics = "<'a>" if "'a" in ty else ''
            for attrs in attribute_sets(n, thorough):
                v = judge(attrs, ty)
                if v is None: continue
                # Twice in one attribute, and in one each.
                for joined in ([True, False] if len(attrs) > 1 else [True]):
                    if not joined and not (v is False and len(set(attrs)) < len(attrs)) and not thorough and kind != 'struct': continue
                    a = '#[speedy(%s)]' % ', '.join(attrs) if joined else ' '.join('#[speedy(%s)]' % x for x in attrs)
                    yield v, (form % generics).format(a=a, t=ty), 'field'
            # What has no length of its own has to be the last one.
            if ty in PLAIN:
                whole = (form % generics).format(a='#[speedy(length = ..)]', t=ty)
                i = whole.rindex(ty) + len(ty)
                yield False, whole[:i] + later[kind].split(' }')[0].rstrip(')').rstrip(';') + whole[i:], 'until the end, but not last'

def tags(thorough):
    """Every way of giving tags to up to three variants, for every type of tags."""
    types = {'u7': 2**7, 'u8': 2**8, 'u16': 2**16, 'u32': 2**32, None: 2**32, 'u64': 2**64, 'u64_varint': 2**64}
    for ty, limit in types.items():
        top, over = limit - 1, limit
        specs = [(None, None)] + [('attr', k) for k in (0, 1, 2, top, over)] + [('disc', k) for k in (0, 1, 2)] + ([('disc', top), ('disc', over)] if limit <= 2**32 else [])
        some = [(None, None), ('attr', 0), ('attr', 1), ('attr', 2), ('attr', top), ('disc', 1), ('disc', 2)]
        combos = list(itertools.product(specs, repeat=1)) + list(itertools.product(specs, repeat=2)) + list(itertools.product(some if not thorough else specs, repeat=3))
        for combo in combos:
            out, seen, rust, prev, ok, r = [], set(), set(), None, True, -1
            for how, k in combo:
                t = k if how else (0 if prev is None else prev + 1)
                r = k if how == 'disc' else r + 1
                if r in rust or r >= 2**63: ok = None
                rust.add(r)
                if t >= limit or t in seen:
                    if ok: ok = False
                seen.add(t); prev = t; out.append(t)
            if ok is None: continue    # the compiler itself rejects those
            body = ', '.join(('#[speedy(tag = %d)] ' % k if how == 'attr' else '') + 'V%d' % i + (' = %d' % k if how == 'disc' else '') for i, (how, k) in enumerate(combo))
            yield ok, '%senum S { %s }' % ('#[speedy(tag_type = %s)] ' % ty if ty else '', body), ('tags', ty or 'u32', out if ok else None)
    # An attribute is what counts where there is both.
    for a, d in itertools.product((0, 1, 5), (0, 1, 5)):
        yield True, '#[speedy(tag_type = u8)] enum S { #[speedy(tag = %d)] V0 = %d, V1 }' % (a, d), ('tags', 'u8', [a, a + 1])
    # Types which are full.
    for ty, n in (('u7', 128), ('u8', 256)):
        for extra in (0, 1):
            yield not extra, '#[speedy(tag_type = %s)] enum S { %s }' % (ty, ', '.join('V%d' % i for i in range(n + extra))), ('tags', ty, list(range(n)) if not extra else None)
    # Variants with fields have tags as well.
    for ty, limit in (('u7', 2**7), ('u8', 2**8), ('u16', 2**16), ('u32', 2**32)):
        for f in ('(u8)', ' { a: u8 }', '()', ' {}'):
            for a, b in itertools.product((0, 1, limit - 1, limit), repeat=2):
                yield a != b and max(a, b) < limit, '#[speedy(tag_type = %s)] enum S { #[speedy(tag = %d)] V0%s, #[speedy(tag = %d)] V1%s }' % (ty, a, f, b, f), 'tags of variants with fields'

def others():
    # Attributes in the wrong place, which do not exist, or are malformed.
    fieldish = ['default_on_eof', 'length = 2', 'length = ..', 'length_type = u8', 'skip', 'constant_prefix = 1u8', 'varint']
    enumish, variantish, structish = ['tag_type = u8', 'peek_tag'], ['tag = 3'], ['unsafe_is_primitive = always']
    junk = ['', 'foo', 'skip = 1', 'Skip', 'varint = true', 'length', 'length =', 'length_type', 'length_type = u9', 'length_type = i8', 'length_type = U8', 'tag', 'tag = ', 'tag = -1', 'tag = "a"', 'tag = x', 'tag = 18446744073709551616', 'tag_type', 'tag_type = i32',
            'tag_type = u128', 'peek_tag = true', 'constant_prefix', 'unsafe_is_primitive', 'unsafe_is_primitive = never', 'endian = little', 'skip varint', 'default_on_eof = 1', 'rename = "a"', 'skip; varint', '1', '"skip"', 'tag = 1.5', 'tag = 1i8', 'length_type = u32, foo', 'skip, foo']
    places = {
        'struct': ('%s struct S { x: Vec<u8> }', structish), 'tuple struct': ('%s struct S(Vec<u8>);', structish), 'unit struct': ('%s struct S;', structish),
        'enum': ('%s enum S { A(Vec<u8>) }', enumish), 'variant': ('enum S { %s A(Vec<u8>) }', variantish), 'unit variant': ('enum S { %s A, B }', variantish),
        'field': ('struct S { %s x: Vec<u8> }', None), 'tuple field': ('struct S(%s Vec<u8>);', None), 'variant field': ('enum S { A { %s x: Vec<u8> } }', None), 'tuple variant field': ('enum S { A(%s Vec<u8>) }', None),
    }
    for place, (form, allowed) in places.items():
        for a in fieldish + enumish + variantish + structish + junk:
            if a == '' or a == 'tag = 1i8': continue
            if allowed is None and a in fieldish: continue      # the fields' own
            ok = allowed is not None and a in allowed
            if ok and a.startswith('unsafe'): continue
            yield ok, form % ('#[speedy(%s)]' % a), 'attribute on ' + place
    for a in enumish + structish + variantish:
        form = {'tag_type = u8': '%s enum S { A }', 'peek_tag': '%s enum S { A }', 'tag = 3': 'enum S { %s A }', 'unsafe_is_primitive = always': '#[repr(C)] #[derive(Clone, Copy)] %s struct S { x: u8 }'}[a]
        yield True, form % ('#[speedy(%s)]' % a), 'attribute alone'
        yield False, form % ('#[speedy(%s, %s)]' % (a, a)), 'attribute twice'
        yield False, form % ('#[speedy(%s)] #[speedy(%s)]' % (a, a)), 'attribute twice'
    yield False, '#[speedy(tag_type = u8, tag_type = u16)] enum S { A }', 'attribute twice'
    yield False, 'enum S { #[speedy(tag = 1, tag = 2)] A }', 'attribute twice'
    for form in ('struct S { #[speedy] x: u8 }', '#[speedy] struct S { x: u8 }', '#[speedy] enum S { A }', 'enum S { #[speedy] A }', 'struct S { #[speedy = "skip"] x: u8 }', '#[speedy = "peek_tag"] enum S { A }'):
        yield False, form, 'attribute without arguments'
    yield False, 'union S { x: u8 }', 'union'
    yield False, '#[repr(C)] union S { x: u8, y: i8 }', 'union'
    yield False, "union S<'a> { x: u8, y: &'a u8 }", 'union'
    for d in ('-1', '-128'): yield False, 'enum S { A = %s }' % d, 'negative tag'
    # Prefixes.
    good = ['"abc"', '"é\\n"', 'b"abc"', 'b"\\xff\\x00"', "b'a'", "b'\\xff'", "'a'", "'é'", 'true', 'false', '0u8', '255u8', '0xffu8', '0i8', '127i8', '-1i8', '-127i8', '-128i8', '""', 'b""', 'r"a\\b"', 'br#"a"b"#']
    bad = ['1', '0x10', '1u16', '1u32', '1u64', '1usize', '1i16', '1i32', '256u8', '128i8', '-129i8', '-1', '-1u8', '-1i16', '1.5', '1.5f32', '-1.5', '-true', '!1u8', 'X', 'foo()', '"a" + "b"', '[1u8, 2u8]', '(1u8, 2u8)', 'b"a".len()', '&b"a"', '{ 1u8 }', 'concat!("a", "b")', '-"a"', '1u8 as u8', '--1i8', 'c"a"', '-256i8', '-300i8']
    for form in ('struct S { #[speedy(constant_prefix = %s)] x: u8 }', 'struct S(#[speedy(constant_prefix = %s)] u8);', 'enum S { A { #[speedy(constant_prefix = %s)] x: u8 } }', 'enum S { A(#[speedy(constant_prefix = %s)] u8) }'):
        for p in good: yield True, form % p, 'prefix'
        for p in bad: yield False, form % p, 'prefix'

NAMES = ['reader', 'writer', 'value', 'error', 'length', 'len', 'out', 'slice', 'bytes', 'bytelength', 'name', 'kind', 'flag', 'endianness', 'context', 'size', 'tag', 'this', 'r#type', 'r#match', 'r#fn', 'a', 'b', 't', 't0', 't1', 'x1', 'speedy', 'core', 'std', 'alloc', 'itself', 'index', 'buffer', 'stream', 'i', 'n', 'res', 'tmp', 'data', 'skip', 'varint', 'u8', 'str', 'bool', 'usize']
def names():
    for f in NAMES:
        for g in NAMES[:6]:
            if f == g: continue
            yield True, 'struct S { %s: u16, #[speedy(length = %s)] %s: Vec<u16> }' % (f, f, g), 'names'
        g = 'other'
        yield True, 'struct S { %s: u16, #[speedy(length = %s + 1, default_on_eof)] %s: String }' % (f, f, g), 'names'
        yield True, 'enum S { A { %s: u16, #[speedy(length = %s / 2)] %s: Vec<u16> }, B { %s: u8 } }' % (f, f, g, f), 'names'
        yield True, "struct S<'a> { %s: &'a str, #[speedy(length_type = u16, constant_prefix = 7u8)] %s: Option<Cow<'a, [u32]>>, #[speedy(varint)] z: u64 }" % (g, f), 'names'
        yield True, "struct S<'a> { #[speedy(default_on_eof)] %s: &'a [u8], #[speedy(skip)] y: u8, #[speedy(length = ..)] z: BTreeMap<u8, u8> }" % f, 'names'
        yield True, "enum S<'a> { A { #[speedy(default_on_eof, constant_prefix = \"x\")] %s: [u16; 2], #[speedy(skip)] y: u8, #[speedy(length = ..)] z: &'a str } }" % f, 'names'
        yield True, '#[repr(C)] #[derive(Clone, Copy)] struct S { %s: u32, %s: u16 }' % (f, g), 'names'
        yield True, '#[repr(C, packed)] #[derive(Clone, Copy)] struct S { %s: u32, %s: u16 }' % (f, g), 'names'
        yield True, '#[repr(transparent)] #[derive(Clone, Copy)] struct S { %s: u32 }' % f, 'names'
    for v in ('Some', 'None', 'Ok', 'Err', 'String', 'Vec', 'Option', 'Result', 'Self_', 'S', 'Error', 'Reader', 'Writer', 'Default', 'Context', 'a', 'r#type'):
        yield True, 'enum S { %s, X(u8) }' % v, 'names of variants'
        yield True, 'enum S { %s(Vec<u8>), X { x: u8 } }' % v, 'names of variants'
    for s in ('Result', 'Error', 'Reader', 'Writer', 'Context', 'Endianness', 'Default', 'Self_', 'T', 'C', 'R', 'R_x', 'E', 'IsEof', 'Cow_', 'r#type'):
        yield True, 'struct %s { x: Option<Vec<u8>>, #[speedy(default_on_eof)] y: u8 }' % s, 'names of types'
        yield True, 'enum %s { A { x: Option<Vec<u8>>, #[speedy(default_on_eof)] y: u8 }, B }' % s, 'names of types'
        yield True, 'struct S<%s> { x: %s, y: Option<Vec<%s>>, #[speedy(default_on_eof)] z: u8 }' % (s, s, s), 'names of parameters'

def forms():
    """What else there is in declarations."""
    params = [("<'a>", "x: &'a str"), ("<'a, 'b>", "x: &'a str, y: &'b [u8]"), ("<'a, 'b: 'a>", "x: &'a str, y: &'b [u8]"), ("<'b, 'a: 'b>", "x: Cow<'a, str>, y: Cow<'b, [u8]>"), ("<'a, 'b: 'a, 'c: 'a + 'b>", "x: &'a str, y: &'b [u8], z: &'c str"),
              ('<T>', 'x: T'), ('<T: Clone>', 'x: T'), ('<T: Clone + Copy>', 'x: T, y: Vec<u8>'), ('<T = u8>', 'x: T'), ('<T: Clone = u8>', 'x: Vec<T>'), ('<T, U>', 'x: T, y: U'), ('<T, U = Vec<T>>', 'x: T, y: U'), ("<T: 'static>", 'x: T'),
              ("<'a, T>", "x: &'a str, y: T"), ("<'a, T: 'a>", "x: &'a str, y: T"), ("<'a, 'b: 'a, T: Clone = u8>", "x: &'a str, y: &'b str, z: T"), ('<T: ?Sized>', 'x: std::marker::PhantomData<T>'), ('<T: std::hash::Hash + Eq>', 'x: HashMap<T, u8>, y: HashSet<T>'), ('<T: Ord>', 'x: BTreeMap<T, u8>, y: BTreeSet<T>'),
              ('<T>', 'x: Option<T>'), ('<T>', 'x: [T; 3]'), ('<T>', 'x: (T, u8)'), ('<T>', 'x: Vec<Vec<T>>'), ('<T>', 'x: Box<[T]>'), ('<T>', 'x: std::marker::PhantomData<T>'), ("<'a, T: Clone>", "x: Cow<'a, [T]>"), ('<T>', '#[speedy(length_type = u8)] x: Vec<T>'), ('<T>', '#[speedy(length = ..)] x: Vec<T>'), ('<T>', '#[speedy(skip)] x: u8, y: T'), ('<T: Default>', '#[speedy(default_on_eof)] x: T'), ('<T: Iterator>', 'x: T::Item'), ('<T: Default>', '#[speedy(skip)] x: T'),
              ('<T>', '#[speedy(skip)] x: T'), ('<T>', '#[speedy(skip)] x: std::marker::PhantomData<T>, y: u8'), ('<T: ?Sized>', 'y: u8, #[speedy(skip)] x: std::marker::PhantomData<T>'), ('<T>', '#[speedy(skip)] x: Option<T>, y: T'), ('<T>', '#[speedy(skip)] x: Option<Box<S<T>>>, y: T'), ("<'a, T>", "#[speedy(skip)] x: Cow<'a, str>, #[speedy(skip)] y: Vec<T>"),
              ('<T>', '#[speedy(default_on_eof)] x: T'), ('<T>', '#[speedy(default_on_eof)] x: Option<T>'), ('<T>', '#[speedy(default_on_eof)] x: Vec<T>, #[speedy(default_on_eof)] y: (T, u8)'), ('<T: Ord, U>', '#[speedy(default_on_eof)] x: BTreeMap<T, U>'), ('', '#[speedy(skip)] x: Option<std::time::Instant>, y: u8'),
              ('', 'pub x: u8'), ('', 'pub(crate) x: u8'), ('', '/// Documented.\n#[allow(dead_code)] x: u8'.replace('\n', ' */ ').replace('///', '/**')), ('', '#[cfg(all())] x: u8'), ('', '#[cfg(any())] x: Nothing, y: u8'), ('', '#[cfg_attr(all(), speedy(skip))] x: u8, y: u8'), ('', ''), ('', 'x: u8,'), ('', 'x: std::vec::Vec<u8>'), ('', 'x: ::std::option::Option<u8>'), ('', 'x: (u8, (u16, [u8; 2]), String)'), ('', 'x: ((), u8)'), ('', 'x: [[u8; 2]; 2]'), ('', 'x: [u8; 1 + 1]'), ('', 'x: [u8; 0]'), ('', 'x: <Vec<u8> as IntoIterator>::Item'), ('', 'x: Option<Option<u8>>'), ('', 'x: Result<u8, String>'), ('', 'x: Box<u8>') ]
    wheres = ['', 'where Self: Sized', 'where u8: Copy']
    for g, fs in params:
        if 'Result<' in fs and False: continue
        ts = re.findall(r'\b[A-Z]\b', g)
        for w in wheres + (['where T: Clone', "where T: Clone, Vec<T>: Clone,"] if 'T' in ts else []):
            yield True, 'struct S%s %s { %s }' % (g, w, fs), 'form'
            yield True, 'pub enum S%s %s { A { %s }, B }' % (g, w, fs.replace('pub(crate) ', '').replace('pub ', '')), 'form'
            tuple_ = re.sub(r'(^|[\s(])(pub(\(crate\))? )?[xyz]: ', lambda m: m.group(1) + (m.group(2) or ''), fs)
            yield True, 'struct S%s(%s) %s;' % (g, tuple_, w), 'form'
            yield True, 'enum S%s %s { A(%s), B }' % (g, w, tuple_.replace('pub(crate) ', '').replace('pub ', '')), 'form'
    for d in ('struct S;', 'struct S {}', 'struct S();', 'enum S {}', 'enum S { A }', 'enum S { A() }', 'enum S { A {} }', 'enum S { A, }', '#[derive(Clone, Debug, PartialEq)] struct S { x: u8 }', '#[must_use] pub struct S { x: u8 }', 'pub(crate) enum S { A }', '#[repr(u8)] enum S { A = 3, B }', '#[repr(u8)] #[speedy(tag_type = u8)] enum S { A = 3, B }', '#[non_exhaustive] pub enum S { A }', '#[non_exhaustive] pub struct S { x: u8 }',
              '#[speedy(peek_tag, tag_type = u16)] enum S { A(u16), B { x: u16 }, C }', '#[speedy(tag_type = u16, peek_tag)] enum S { A = 0x10, B = 0b11, C = 0o7, D = 1_0 }', 'enum S { #[speedy(tag = 0x10)] A, #[speedy(tag = 1_1)] B }', '#[speedy(tag_type = u8,)] enum S { A }', 'struct S { #[speedy(skip,)] x: u8 }', 'struct S { #[speedy(length_type = u8, constant_prefix = "a", default_on_eof)] x: String }',
              'struct S { n: u8, m: u8, #[speedy(length = n * m + 1)] x: Vec<u8>, #[speedy(length = (n + 1) * 2)] y: Vec<u8>, #[speedy(length = { n })] z: String }', 'struct S { n: i32, #[speedy(length = n)] x: Vec<u8> }', 'struct S { n: u64, #[speedy(length = n)] x: Vec<u8> }', 'struct S { n: usize, #[speedy(length = n - 1)] x: Vec<u8> }', 'struct S { #[speedy(varint)] n: u64, #[speedy(length = n)] x: Vec<u8> }', 'const N: usize = 3; struct S { #[speedy(length = N)] x: Vec<u8> }', 'struct S { x: Vec<u8>, #[speedy(length = x.len())] y: Vec<u8> }'):
        if d.startswith('const'): continue
        yield True, d, 'form'

def everything(thorough):
    seen = set()
    for gen in (others(), forms(), names(), tags(thorough), fields(thorough)):
        for ok, d, what in gen:
            if d not in seen:
                seen.add(d); yield ok, d, what

# ---- the compiler ----

def library():
    """Builds /repo, and finds what was built."""
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '-p', 'decl', '--message-format=json'], cwd=H, env=dict(os.environ, RUSTFLAGS='-Awarnings', CARGO_TARGET_DIR=os.path.join(T, 'lib')), capture_output=True, text=True)
    if p.returncode: raise Broken('the library does not build: ' + p.stderr[-2000:])
    for l in p.stdout.split('\n'):
        if '"compiler-artifact"' in l:
            m = json.loads(l)
            if m['target']['name'] == 'speedy':
                return next(f for f in m['filenames'] if f.endswith('.rlib'))
    raise Broken('no library among the artifacts')

def rustc(lib, name, lines, emit='metadata'):
    """Compiles a program; returns for every line what was wrong with it."""
    src = os.path.join(T, name + '.rs')
    with open(src, 'w') as f: f.write(PRELUDE + '\n'.join(lines) + '\n')
    out = os.path.join(T, name)
    p = subprocess.run(['rustc', '--edition=2021', '--error-format=json', '--crate-type', 'bin', '--crate-name', 'declared', '-Copt-level=0', '-Cdebuginfo=0', '--emit', emit, '-o', out, '--extern', 'speedy=' + lib, '-Ldependency=' + os.path.join(T, 'lib', 'debug', 'deps'), src], capture_output=True, text=True, cwd=T)
    bad = {}
    for l in p.stderr.split('\n'):
        if not l.startswith('{'):
            continue
        m = json.loads(l)
        if m.get('level') != 'error': continue
        if not m['spans'] and m['message'].startswith('aborting'): continue
        for s in m['spans']:
            if not s['is_primary']: continue
            while s.get('expansion') and os.path.basename(s['file_name']) != name + '.rs': s = s['expansion']['span']
            if os.path.basename(s['file_name']) == name + '.rs': bad.setdefault(s['line_start'] - 2, m['message'])
    bad = {k: m for k, m in bad.items() if 0 <= k < len(lines)}
    if any("can't find crate" in m for m in bad.values()): raise Broken('the library cannot be used')
    if p.returncode and not bad: raise Broken('the compiler failed: ' + p.stderr[-1500:])
    return bad, p.returncode, out

def declared(d, derive):
    return '#[derive(%s)] %s' % (derive, d)
def module(i, d, derive):
    return 'mod d%d { %s %s }' % (i, IN_MOD, declared(d, derive))

WIDTH = {'u7': 1, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}
def written(ty, t):
    if ty != 'u64_varint': return list(t.to_bytes(WIDTH[ty], 'little'))
    # The number of one bits at the top of the first byte is the number of further ones.
    n = 0
    while n < 8 and t >> (7 * (n + 1)): n += 1
    if n >= 8: return [255] + list(t.to_bytes(8, 'little'))
    low = t & ((1 << (8 * n)) - 1); high = t >> (8 * n)
    return [(0xff00 >> n & 0xff) | high] + list(low.to_bytes(n, 'little'))

def checks(i, what):
    """Statements which look at the tags of an enum."""
    if not (isinstance(what, tuple) and what[2] is not None): return ''
    _, ty, ts = what
    out = []
    for j, t in enumerate(ts):
        b = written(ty, t)
        out.append('{ let b = d%d::S::V%d.write_to_vec_with_ctx(Endianness::LittleEndian).unwrap(); if b != %s { println!("%d: V%d is written as {:?}", b); } else if !matches!(d%d::S::read_from_buffer_with_ctx(Endianness::LittleEndian, &b), Ok(d%d::S::V%d)) { println!("%d: V%d is not read back"); } }'
                   % (i, j, b, i, j, i, i, j, i, j))
    return 'fn check_%d() { %s }' % (i, ' '.join(out))

def accepted(lib, name, items):
    """(index, declaration, what) which must compile, and behave."""
    lines, calls = [], []
    for i, d, what in items:
        c = checks(i, what)
        d2 = d
        if c:
            d2 = d.replace('enum S', 'pub enum S'); calls.append('check_%d();' % i)
        lines.append(module(i, d2, 'Readable, Writable') + ' ' + c)
    lines.append('fn main() { %s }' % ' '.join(calls))
    bad, rc, out = rustc(lib, name, lines, 'link' if calls else 'metadata')
    found = {items[k][0]: 'is rejected: ' + m for k, m in bad.items() if k < len(items)}
    stray = [m for k, m in bad.items() if k >= len(items)]
    if not bad and rc: raise Broken('the compiler failed')
    if not bad and calls:
        p = subprocess.run([out], capture_output=True, text=True, timeout=300)
        for l in p.stdout.split('\n'):
            if re.match(r'\d+: ', l): found.setdefault(int(l.split(': ')[0]), l.split(': ', 1)[1])
        if p.returncode and len(items) > 1:
            half = len(items) // 2
            found.update(accepted(lib, name, items[:half])); found.update(accepted(lib, name, items[half:]))
        elif p.returncode: found.setdefault(items[0][0], 'writing or reading it fails: ' + p.stderr[-300:])
    elif bad and calls:
        # Nothing ran, so those which do compile are tried again without the others.
        rest = [x for x in items if x[0] not in found]
        if rest: found.update(accepted(lib, name, rest))
    return found

def rejected(lib, name, items):
    """(index, declaration, macro) which must not compile: those which do."""
    left = list(items)
    while left:
        lines = [module(k, d, derive) for k, (i, d, derive) in enumerate(left)] + ['fn main() {}']
        bad, rc, _ = rustc(lib, name, lines)
        if not bad: return left
        fewer = [x for k, x in enumerate(left) if k not in bad]
        if len(fewer) == len(left): raise Broken('what the compiler says is about nothing in particular')
        left = fewer
    return []

def main():
    os.makedirs(T, exist_ok=True)
    if sys.argv[1:2] == ['replay']:
        d = json.load(open(sys.argv[2])); lib = library()
        what = tuple(d['what']) if isinstance(d['what'], list) else d['what']
        if d['kind'] == 'rejected': m = rejected(lib, 'replay', [(0, d['declaration'], d['derive'])]); m = 'is accepted by ' + d['derive'] if m else None
        else: m = accepted(lib, 'replay', [(0, d['declaration'], what)]).get(0)
        if m: print('VIOLATION property=C29 replay=%s' % sys.argv[2]); print('  %s\n  %s' % (d['declaration'], m)); sys.exit(1)
        print('it holds'); sys.exit(0)
    tier = sys.argv[1] if sys.argv[1:] else 'quick'
    t0 = time.time()
    lib = library()
    good, wrong, groups = [], [], {}
    for i, (ok, d, what) in enumerate(everything(tier == 'thorough')):
        k = what[0] if isinstance(what, tuple) else what
        groups[k] = groups.get(k, 0) + 1
        if ok: good.append((i, d, what))
        else: wrong += [(i, d, 'Readable'), (i, d, 'Writable')]
    all_ = {i: (d, what) for i, d, what in good}
    n = 150
    jobs = [(accepted, 'a%d' % k, good[k::(len(good) + n - 1) // n]) for k in range((len(good) + n - 1) // n)]
    n = 1000
    jobs += [(rejected, 'r%d' % k, wrong[k::(len(wrong) + n - 1) // n]) for k in range((len(wrong) + n - 1) // n)]
    with ThreadPoolExecutor(CORES) as pool: results = list(pool.map(lambda j: (j[0], j[0](lib, j[1], j[2])), jobs))
    problems = []
    for f, r in results:
        if f is accepted:
            for i, m in sorted(r.items()): problems.append(({'kind': 'accepted', 'declaration': all_[i][0], 'what': all_[i][1]}, m))
        else:
            for i, d, derive in r: problems.append(({'kind': 'rejected', 'declaration': d, 'derive': derive, 'what': ''}, 'is accepted by derive(%s)' % derive))
    os.makedirs(os.path.join(R, 'replay'), exist_ok=True)
    for k, (d, m) in enumerate(problems[:5]):
        path = os.path.join(R, 'replay', 'C29-%d.json' % k)
        with open(path, 'w') as f: json.dump(dict(d, message=m), f)
        print('  %s\n  %s' % (d['declaration'], m[:400])); print('VIOLATION property=C29 replay=%s' % path)
    if len(problems) > 5: print('  and %d more' % (len(problems) - 5))
    for f in os.listdir(T):
        if re.match(r'[ar]\d+(\.|$)', f): os.remove(os.path.join(T, f))
    tagged = sum(len(w[2]) for _, _, w in good if isinstance(w, tuple) and w[2] is not None)
    os.makedirs(os.path.join(R, 'evidence'), exist_ok=True)
    with open(os.path.join(R, 'evidence', 'C29.json'), 'w') as f:
        json.dump({'property': 'C29', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', 1)), 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': len(problems),
                   'coverage': {'evaluations': len(good) + len(wrong), 'distinct_nontrivial': len(good) + len(wrong) // 2, 'must_compile': len(good), 'must_be_rejected': len(wrong) // 2, 'tags_written_and_read': tagged, 'groups': groups, 'exhaustive': True,
                                'rule': 'Declarations made by a grammar (every multiset of field attributes up to size %d x type x kind of struct; every assignment of tags to up to three variants x type of tags; every attribute in every place; literals, names and forms), judged by a model of the documentation, and given to the real macros and compiler; distinct: different declarations, of which those to be rejected are tried with each macro.' % (3 if tier == 'thorough' else 2),
                                'samples': [d for _, d, _ in good[::max(1, len(good) // 5)]][:5] + ['rejected: ' + d for _, d, _ in wrong[::max(1, len(wrong) // 5)]][:5]}}, f, indent=1)
    print('C29 %s: %d declarations compiled, %d rejected, %.1f s' % (tier, len(good), len(wrong) // 2, time.time() - t0))
    return 1 if problems else 0

if __name__ == '__main__':
    try: sys.exit(main())
    except Broken as e:
        print('C29: ' + str(e), file=sys.stderr); sys.exit(2)
