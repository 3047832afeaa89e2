//! Deterministic, simple-first enumeration of the values of a `Shape`. Level 0: a couple of values,
//! 1: boundary values, 2: everything the quick checks look at, 3: thorough.
use crate::val::*;

pub fn ascending(n: u8, start: u8) -> u128 { let mut v = 0u128; for i in 0..n { v |= ((start.wrapping_add(i)) as u128) << (8 * i); } v }
fn mask(n: u8) -> u128 { if n == 16 { u128::MAX } else { (1u128 << (8 * n as u32)) - 1 } }

pub fn scalars(n: u8, level: u8) -> Vec<u128> {
    let m = mask(n);
    let mut o = vec![ascending(n, 1), 0];
    if level >= 1 {
        o.extend([m, 1, (m >> 1) + 1, m >> 1, ascending(n, 0xf9)]);
    }
    if level >= 2 {
        for i in 0..n as u32 { for b in [1u128, 0x7f, 0x80, 0xff] { o.push(b << (8 * i)); o.push(m ^ (b << (8 * i))); } }
        o.push(0x12345678_9abcdef0_0fedcba9_87654321u128 & m);
        // Float specials, quiet and signaling NaNs with payloads, infinities, negative zero.
        if n == 4 { o.extend([0x7fc00000u128, 0x7f800001, 0xffc00123, 0x7f800000, 0xff800000, 0x80000000, 0x3f800000]); }
        if n == 8 { o.extend([0x7ff8000000000000u128, 0x7ff0000000000001, 0xfff8000000000123, 0x7ff0000000000000, 0xfff0000000000000, 0x3ff0000000000000]); }
    }
    if level >= 3 {
        for k in 0..8 * n as u32 { let p = 1u128 << k; o.extend([p, p - 1, (p + 1) & m, m ^ p]); }
        if n == 1 { o.extend(0..256); }
    }
    dedup(o)
}
fn dedup<T: PartialEq + Clone + std::hash::Hash + Eq>(v: Vec<T>) -> Vec<T> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|x| seen.insert(x.clone())).collect()
}
pub fn varints(level: u8) -> Vec<u128> {
    let mut o = vec![0x1234u128, 0];
    if level >= 1 { o.extend([1, 127, 128, 16383, 16384, u64::MAX as u128]); }
    if level >= 2 { for k in 0..64u32 { let p = 1u128 << k; o.extend([p, p - 1, p + 1]); } o.extend((1..=9).map(|n| ascending(n.min(8), 1))); }
    dedup(o)
}
pub fn string_of(n: usize) -> Vec<u8> {
    // Mixes 1, 2, 3 and 4 byte characters while keeping the exact byte length.
    let mut s = String::new();
    let pal = ['a', 'é', 'z', '€', '\u{0}', '\u{10ffff}', '~'];
    let mut i = 0;
    while s.len() < n {
        let c = pal[i % pal.len()];
        i += 1;
        if s.len() + c.len_utf8() <= n { s.push(c) } else { s.push('x') }
    }
    s.into_bytes()
}
pub fn lengths(level: u8) -> Vec<usize> {
    match level {
        0 => vec![2, 0],
        1 => vec![2, 0, 1, 3, 5],
        2 => vec![2, 0, 1, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33],
        _ => { let mut v: Vec<usize> = vec![2]; v.extend([0, 1]); v.extend(3..=40); v.extend([63, 64, 65, 127, 128, 129, 255, 256, 257]); v }
    }
}

/// Exactly `n` elements (distinct keys for sets and maps), or `None` if there are not that many.
pub fn elems(e: &Shape, n: usize, k: Kind, salt: usize) -> Option<Vec<Val>> {
    if n == 0 { return Some(vec![]); }
    match k {
        Kind::List => {
            let pool = vals(e, 1);
            if pool.is_empty() { return None; }
            Some((0..n).map(|i| {
                // Scalars count up, so that misplaced elements are noticed.
                if let Shape::Bits(b) = e { if i >= 1 { return Val::U((ascending(*b, (i as u8).wrapping_mul(*b).wrapping_add(salt as u8)).wrapping_add(((i >> 8) as u128) << 8)) & mask(*b)); } }
                pool[(i + salt) % pool.len()].clone()
            }).collect())
        }
        _ => {
            let pool = match e { Shape::Bits(b) if n > 2 => (0..n as u128).map(|i| Val::U(ascending(*b, 1).wrapping_add(i.wrapping_mul(if *b == 1 { 1 } else { 0x0103 })) & mask(*b))).collect(), _ => vals(e, if n > 3 { 2 } else { 1 }) };
            let mut out: Vec<Val> = vec![];
            let key = |v: &Val| if matches!(k, Kind::Map | Kind::IndexMap) { v.l()[0].clone() } else { v.clone() };
            let mut keys = std::collections::HashSet::new();
            for v in pool { if keys.insert(key(&v)) { out.push(v); if out.len() == n { return Some(out); } } }
            None
        }
    }
}

fn peek_ok(tag: Tag, t: u64, s: &Shape, v: &Val) -> bool {
    // The body has to start with the tag, in both byte orders.
    [false, true].iter().all(|&be| {
        let mut w = vec![];
        let probe = Shape::Enum { tag, vars: vec![(t, Shape::Rec(vec![]))], peek: false };
        enc_into(&probe, &Val::E(0, Box::new(unit())), be, &mut w, &[]).unwrap();
        enc(s, v, be).map_or(false, |b| b.starts_with(&w))
    })
}
fn peek_force(tag: Tag, t: u64, s: &Shape, v: &Val) -> Val {
    // Overwrite the first scalar with the tag where that makes the body start with it.
    fn first(s: &Shape, v: &Val, t: u64) -> Val {
        match (s, v) {
            (Shape::Bits(_), _) | (Shape::Varint, _) => Val::U(t as u128),
            (Shape::Rec(fs), Val::L(xs)) if !fs.is_empty() => { let mut xs = xs.clone(); xs[0] = first(&fs[0], &xs[0], t); Val::L(xs) }
            (Shape::Arr(_, e), Val::L(xs)) if !xs.is_empty() => { let mut xs = xs.clone(); xs[0] = first(e, &xs[0], t); Val::L(xs) }
            (Shape::Enum { vars, .. }, Val::E(i, x)) if !vars.is_empty() => Val::E(*i, Box::new(first(&vars[*i as usize].1, x, t))),
            _ => v.clone(),
        }
    }
    let f = first(s, v, t);
    if peek_ok(tag, t, s, &f) { f } else { v.clone() }
}

pub fn vals(sh: &Shape, level: u8) -> Vec<Val> {
    let o: Vec<Val> = match sh {
        Shape::Bits(n) => scalars(*n, level).into_iter().map(Val::U).collect(),
        Shape::Varint => varints(level).into_iter().map(Val::U).collect(),
        Shape::Str(_) => lengths(level).into_iter().map(|n| Val::S(string_of(n))).collect(),
        Shape::Seq(_, e, k) => {
            let mut o = vec![];
            let cap = if matches!(**e, Shape::Bits(_)) { usize::MAX } else if level >= 3 { 40 } else { 9 };
            for n in lengths(level) { if n <= cap { if let Some(x) = elems(e, n, *k, 0) { o.push(Val::L(x)); } } }
            if level >= 2 { for x in vals(e, level.min(2)) { o.push(Val::L(vec![x])); } }
            o
        }
        Shape::Arr(n, e) => {
            let mut o: Vec<Val> = (0..3).filter_map(|s| elems(e, *n, Kind::List, s)).map(Val::L).collect();
            if level >= 1 && *n > 0 && *n <= 8 {
                let base = elems(e, *n, Kind::List, 0);
                if let Some(base) = base { for i in [0, *n - 1] { for x in vals(e, level.min(2)) { let mut b = base.clone(); b[i] = x; o.push(Val::L(b)); } } }
            }
            o
        }
        Shape::Rec(fs) => {
            if fs.is_empty() { return vec![unit()]; }
            let pools: Vec<Vec<Val>> = fs.iter().map(|f| vals(f, level)).collect();
            let small: Vec<Vec<Val>> = fs.iter().map(|f| vals(f, 0)).collect();
            if pools.iter().any(|p| p.is_empty()) { return vec![]; }
            let base: Vec<Val> = pools.iter().map(|p| p[0].clone()).collect();
            let mut o = vec![base.clone()];
            if level >= 1 {
                // The full product of the level 0 values, while it is small.
                let total: usize = small.iter().map(|s| s.len().min(2)).product();
                for mut i in 0..total.min(if level >= 2 { 64 } else { 8 }) {
                    let mut r = vec![];
                    for s in &small { let m = s.len().min(2); r.push(s[i % m].clone()); i /= m; }
                    o.push(r);
                }
            } else { o.push(pools.iter().map(|p| p[1 % p.len()].clone()).collect()); }
            for (i, p) in pools.iter().enumerate() { for x in p { let mut b = base.clone(); b[i] = x.clone(); o.push(b); } }
            let o = o.into_iter().filter_map(|r| fix_lengths(fs, r)).map(Val::L).collect::<Vec<_>>();
            let mut o = dedup(o);
            if level == 0 { o.truncate(2); }
            o
        }
        Shape::Flag(a, b) => {
            let mut o: Vec<Val> = vals(b, level).into_iter().map(|x| Val::E(1, Box::new(x))).collect();
            let z: Vec<Val> = vals(a, level).into_iter().map(|x| Val::E(0, Box::new(x))).collect();
            let at = o.len().min(1);
            o.splice(at..at, z.into_iter());
            if level == 0 { o.truncate(2); }
            o
        }
        Shape::Enum { tag, vars, peek } => {
            let mut o = vec![];
            let mut rest = vec![];
            for (i, (t, s)) in vars.iter().enumerate() {
                let mut vs = vals(s, level);
                if *peek {
                    vs = dedup(vs.iter().map(|v| peek_force(*tag, *t, s, v)).collect());
                    vs.retain(|v| peek_ok(*tag, *t, s, v));
                }
                for (j, x) in vs.into_iter().enumerate() {
                    let v = Val::E(i as u32, Box::new(x));
                    if j == 0 { o.push(v) } else { rest.push(v) }
                }
            }
            o.extend(rest);
            o
        }
        Shape::Prefix(_, s) | Shape::OnEof(s, _) => vals(s, level),
        Shape::Skip(d, alt) => vec![alt.clone(), d.clone()],
        Shape::Custom(_, k) => (k.gen)(level),
    };
    let mut o = dedup(o);
    if level == 0 { let n = if matches!(sh, Shape::Enum { .. }) { 4 } else { 2 }; o.truncate(n); }
    o
}

/// Makes the lengths of `length = expr` fields agree with their expressions.
fn fix_lengths(fs: &[Shape], mut r: Vec<Val>) -> Option<Vec<Val>> {
    for i in 0..fs.len() {
        let (f, s): (fn(&[Val]) -> u64, &Shape) = match &fs[i] {
            s @ Shape::Str(Len::Expr(f)) => (*f, s),
            s @ Shape::Seq(Len::Expr(f), ..) => (*f, s),
            Shape::Prefix(_, s) | Shape::OnEof(s, _) => match &**s {
                s @ Shape::Str(Len::Expr(f)) => (*f, s),
                s @ Shape::Seq(Len::Expr(f), ..) => (*f, s),
                _ => continue,
            },
            _ => continue,
        };
        let n = f(&r[..i]);
        if n > 600 { return None; }
        r[i] = match s {
            Shape::Str(_) => Val::S(string_of(n as usize)),
            Shape::Seq(_, e, k) => Val::L(elems(e, n as usize, *k, 0)?),
            _ => unreachable!(),
        };
    }
    Some(r)
}
