//! The reference model of the wire format: abstract values (`Val`), type descriptions
//! (`Shape`), a boring reference encoder and a boring reference decoder. Nothing in here
//! calls into speedy.

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Val {
    /// Raw bits of a scalar.
    U(u128),
    /// The bytes of a string.
    S(Vec<u8>),
    /// Records, arrays, sequences, sets; maps are lists of `L([k, v])`.
    L(Vec<Val>),
    /// A variant (by index, *not* by tag) and its body.
    E(u32, Box<Val>),
}

pub fn unit() -> Val { Val::L(vec![]) }
impl Val {
    pub fn u(&self) -> u128 { match self { Val::U(x) => *x, _ => panic!("harness: not a scalar: {self:?}") } }
    pub fn l(&self) -> &[Val] { match self { Val::L(x) => x, _ => panic!("harness: not a list: {self:?}") } }
    pub fn s(&self) -> &[u8] { match self { Val::S(x) => x, _ => panic!("harness: not a string: {self:?}") } }
    pub fn e(&self) -> (u32, &Val) { match self { Val::E(i, x) => (*i, x), _ => panic!("harness: not a variant: {self:?}") } }
    pub fn len(&self) -> usize { match self { Val::S(x) => x.len(), Val::L(x) => x.len(), _ => panic!("harness: no length") } }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { List, Set, Map, IndexSet, IndexMap }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tag { U7, U8, U16, U32, U64, Var }

#[derive(Clone, Copy)]
pub enum Len { T(Tag), Expr(fn(&[Val]) -> u64), Eof }

#[derive(Clone, Copy)]
pub struct Custom {
    /// Simple-first list of values.
    pub gen: fn(level: u8) -> Vec<Val>,
    /// Validates and normalizes a decoded raw value; `None` means it has to be rejected.
    pub norm: fn(&Val) -> Option<Val>,
    /// What is wrong with what is rejected.
    pub why: Why,
}

#[derive(Clone)]
pub enum Shape {
    Bits(u8),
    Varint,
    Str(Len),
    Seq(Len, Box<Shape>, Kind),
    Arr(usize, Box<Shape>),
    Rec(Vec<Shape>),
    /// `{flag: u8, body}`; variant 0 for a zero flag, 1 for any other flag.
    Flag(Box<Shape>, Box<Shape>),
    Enum { tag: Tag, vars: Vec<(u64, Shape)>, peek: bool },
    Prefix(Vec<u8>, Box<Shape>),
    /// Occupies no bytes: its default, and another value it may have when written.
    Skip(Val, Val),
    OnEof(Box<Shape>, Val),
    Custom(Box<Shape>, Custom),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EncErr {
    Range,
    /// The field (by its index) whose length is not what its attribute says.
    Mismatch(usize),
}
/// What is wrong with an input.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Why { Length, Utf8, Variant, Constant(usize), Char, Zero, Time, Regex }

fn put(out: &mut Vec<u8>, v: u128, n: usize, be: bool) {
    for i in 0..n {
        let k = if be { n - 1 - i } else { i };
        out.push((v >> (8 * k)) as u8);
    }
}

/// The varint format, straight from the description: the number of leading ones in the first byte
/// is the number of extra bytes, which follow in little endian; the first byte holds the top bits.
pub fn put_varint(out: &mut Vec<u8>, v: u64) {
    for extra in 0..8u32 {
        let bits = 7 * (extra + 1);
        if (v as u128) < (1u128 << bits) {
            let top = (v as u128) >> (8 * extra);
            let ones: u16 = (0xff00u16 >> extra) & 0xff;
            out.push((ones as u8) | top as u8);
            for i in 0..extra { out.push((v >> (8 * i)) as u8); }
            return;
        }
    }
    out.push(0xff);
    for i in 0..8 { out.push((v >> (8 * i)) as u8); }
}

fn put_tag(out: &mut Vec<u8>, t: Tag, v: u64, be: bool) -> Result<(), EncErr> {
    let max: u64 = match t { Tag::U7 => 127, Tag::U8 => 255, Tag::U16 => 65535, Tag::U32 => u32::MAX as u64, Tag::U64 | Tag::Var => u64::MAX };
    if v > max { return Err(EncErr::Range); }
    match t {
        Tag::U7 | Tag::U8 => put(out, v as u128, 1, be),
        Tag::U16 => put(out, v as u128, 2, be),
        Tag::U32 => put(out, v as u128, 4, be),
        Tag::U64 => put(out, v as u128, 8, be),
        Tag::Var => put_varint(out, v),
    }
    Ok(())
}
fn put_len(out: &mut Vec<u8>, l: Len, n: usize, be: bool, prev: &[Val]) -> Result<(), EncErr> {
    match l {
        Len::T(t) => put_tag(out, t, n as u64, be),
        Len::Expr(f) => if f(prev) == n as u64 { Ok(()) } else { Err(EncErr::Mismatch(prev.len())) },
        Len::Eof => Ok(()),
    }
}

pub fn enc_into(sh: &Shape, v: &Val, be: bool, out: &mut Vec<u8>, prev: &[Val]) -> Result<(), EncErr> {
    match sh {
        Shape::Bits(n) => put(out, v.u(), *n as usize, be),
        Shape::Varint => put_varint(out, v.u() as u64),
        Shape::Str(l) => { put_len(out, *l, v.s().len(), be, prev)?; out.extend_from_slice(v.s()); }
        Shape::Seq(l, e, _) => { put_len(out, *l, v.l().len(), be, prev)?; for x in v.l() { enc_into(e, x, be, out, &[])?; } }
        Shape::Arr(n, e) => { assert_eq!(v.l().len(), *n); for x in v.l() { enc_into(e, x, be, out, &[])?; } }
        Shape::Rec(fs) => { assert_eq!(v.l().len(), fs.len()); for (i, f) in fs.iter().enumerate() { enc_into(f, &v.l()[i], be, out, &v.l()[..i])?; } }
        Shape::Flag(a, b) => { let (i, x) = v.e(); out.push(if i == 0 { 0 } else { 1 }); enc_into(if i == 0 { a } else { b }, x, be, out, prev)?; }
        Shape::Enum { tag, vars, peek } => {
            let (i, x) = v.e();
            let (t, s) = &vars[i as usize];
            if !peek { put_tag(out, *tag, *t, be)?; }
            enc_into(s, x, be, out, &[])?;
        }
        Shape::Prefix(p, s) => { out.extend_from_slice(p); enc_into(s, v, be, out, prev)?; }
        Shape::Skip(..) => {}
        Shape::OnEof(s, _) => enc_into(s, v, be, out, prev)?,
        Shape::Custom(s, _) => enc_into(s, v, be, out, prev)?,
    }
    Ok(())
}
pub fn enc(sh: &Shape, v: &Val, be: bool) -> Result<Vec<u8>, EncErr> {
    let mut out = vec![];
    enc_into(sh, v, be, &mut out, &[])?;
    Ok(out)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum DecErr {
    Eof,
    Bad,
    /// An absurd number of elements which occupy no bytes; these inputs are out of scope.
    Unbacked,
}
pub struct Cur<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub be: bool,
    /// An end of input was recovered from (`default_on_eof`, `length = ..`).
    pub recovered: bool,
    /// Set when bytes were left over at such a recovery.
    pub leftover: bool,
    /// Something was read after leftover bytes: the outcome is unspecified.
    pub ambiguous: bool,
    /// Where the first unit which could not be read entirely starts.
    pub at: usize,
    /// How many enclosing parts of the type recover from an end of input.
    recovering: u32,
    /// The first thing which is wrong, unless it is that the input ends.
    pub why: Option<Why>,
    /// More elements were announced than the input could have, so it may as well be called too short.
    pub short: bool,
    /// More bytes were announced than any memory has.
    pub huge: bool,
}
impl<'a> Cur<'a> {
    pub fn new(data: &'a [u8], be: bool) -> Self { Cur { data, pos: 0, be, recovered: false, leftover: false, ambiguous: false, at: 0, recovering: 0, why: None, short: false, huge: false }
    }
    fn bad(&mut self, why: Why) -> DecErr { self.why = Some(why); DecErr::Bad }
    fn take(&mut self, n: usize) -> Result<&'a [u8], DecErr> {
        if self.leftover && n > 0 { self.ambiguous = true; }
        if self.data.len() - self.pos < n { return Err(DecErr::Eof); }
        let s = &self.data[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn bits(&mut self, n: usize) -> Result<u128, DecErr> {
        let be = self.be;
        let s = self.take(n)?;
        let mut v = 0u128;
        for i in 0..n { let k = if be { n - 1 - i } else { i }; v |= (s[i] as u128) << (8 * k); }
        Ok(v)
    }
    pub fn varint(&mut self) -> Result<u64, DecErr> {
        let first = self.take(1)?[0];
        let extra = first.leading_ones() as usize;
        let rest = self.take(extra)?;
        let mut v = 0u64;
        for i in 0..extra { v |= (rest[i] as u64) << (8 * i); }
        if extra < 8 {
            let top = first & (0x7fu8 >> extra);
            v |= (top as u64) << (8 * extra);
        }
        Ok(v)
    }
    fn tag(&mut self, t: Tag) -> Result<u64, DecErr> {
        Ok(match t {
            Tag::U7 | Tag::U8 => self.bits(1)? as u64,
            Tag::U16 => self.bits(2)? as u64,
            Tag::U32 => self.bits(4)? as u64,
            Tag::U64 => self.bits(8)? as u64,
            Tag::Var => self.varint()?,
        })
    }
    fn len(&mut self, l: Len, prev: &[Val]) -> Result<Option<u64>, DecErr> {
        match l {
            Len::T(t) => { let n = self.tag(t)?; if t == Tag::U7 && n > 127 { return Err(self.bad(Why::Length)); } Ok(Some(n)) }
            Len::Expr(f) => Ok(Some(f(prev))),
            Len::Eof => Ok(None),
        }
    }
    fn recover(&mut self, at: usize) {
        self.recovered = true;
        if !self.leftover { self.at = at; }
        if at < self.data.len() { self.leftover = true; }
        self.pos = self.data.len();
    }
}

pub fn dec_cur(sh: &Shape, c: &mut Cur, prev: &[Val]) -> Result<Val, DecErr> {
    Ok(match sh {
        Shape::Bits(n) => Val::U(c.bits(*n as usize)?),
        Shape::Varint => Val::U(c.varint()? as u128),
        Shape::Str(l) => {
            let s = match c.len(*l, prev)? {
                Some(n) => { if n > c.data.len() as u64 { c.huge |= n > i64::MAX as u64; return Err(DecErr::Eof); } c.take(n as usize)?.to_vec() }
                None => { let p = c.pos; c.recover(c.data.len()); c.data[p..].to_vec() }
            };
            if std::str::from_utf8(&s).is_err() { return Err(c.bad(Why::Utf8)); }
            Val::S(s)
        }
        Shape::Seq(l, e, k) => {
            let mut out = vec![];
            match c.len(*l, prev)? {
                Some(n) => {
                    let mut i = 0;
                    let short = n.saturating_mul(least(e) as u64) > (c.data.len() - c.pos) as u64;
                    c.short |= short;
                    c.huge |= n.saturating_mul(least(e) as u64) > i64::MAX as u64;
                    while i < n {
                        let p = c.pos;
                        match dec_cur(e, c, &[]) {
                            Ok(x) => out.push(x),
                            // Truncated, which is recovered from, and invalid, which is not: which comes first is unspecified.
                            Err(DecErr::Bad) if short && c.recovering > 0 => { c.ambiguous = true; return Err(DecErr::Bad) }
                            Err(x) => return Err(x),
                        }
                        if c.pos == p && n > 5000 { return Err(DecErr::Unbacked); }
                        i += 1;
                    }
                }
                None => loop {
                    let p = c.pos;
                    c.recovering += 1;
                    let x = dec_cur(e, c, &[]);
                    c.recovering -= 1;
                    match x {
                        Ok(x) => { assert!(c.pos > p, "harness: unbounded until-eof sequence"); out.push(x) }
                        Err(DecErr::Eof) => { c.recover(p); break; }
                        Err(x) => return Err(x),
                    }
                },
            }
            canon_seq(out, *k)
        }
        Shape::Arr(n, e) => { c.short |= n * least(e) > c.data.len() - c.pos; let mut out = vec![]; for _ in 0..*n { out.push(dec_cur(e, c, &[])?); } Val::L(out) }
        Shape::Rec(fs) => { let mut out: Vec<Val> = vec![]; for f in fs { let v = dec_cur(f, c, &out)?; out.push(v); } Val::L(out) }
        Shape::Flag(a, b) => { let f = c.bits(1)?; if f == 0 { Val::E(0, Box::new(dec_cur(a, c, prev)?)) } else { Val::E(1, Box::new(dec_cur(b, c, prev)?)) } }
        Shape::Enum { tag, vars, peek } => {
            let p = c.pos;
            let t = c.tag(*tag)?;
            if *peek { c.pos = p; }
            match vars.iter().position(|(x, _)| *x == t) {
                None => return Err(c.bad(Why::Variant)),
                Some(i) => Val::E(i as u32, Box::new(dec_cur(&vars[i].1, c, &[])?)),
            }
        }
        Shape::Prefix(p, s) => { if c.take(p.len())? != &p[..] { return Err(c.bad(Why::Constant(p.len()))); } dec_cur(s, c, prev)? }
        Shape::Skip(v, _) => v.clone(),
        Shape::OnEof(s, d) => {
            let p = c.pos;
            c.recovering += 1;
            let x = dec_cur(s, c, prev);
            c.recovering -= 1;
            match x { Err(DecErr::Eof) => { c.recover(p); d.clone() } r => r? }
        }
        Shape::Custom(s, k) => { let v = dec_cur(s, c, prev)?; match (k.norm)(&v) { Some(v) => v, None => return Err(c.bad(k.why)) } }
    })
}

pub struct Dec { pub val: Result<Val, DecErr>, pub used: usize, pub recovered: bool, pub ambiguous: bool, pub at: usize, pub why: Option<Why>, pub short: bool, pub huge: bool }
/// Values come back canonical, i.e. as `canon` would make them.
pub fn dec(sh: &Shape, data: &[u8], be: bool) -> Dec {
    let mut c = Cur::new(data, be);
    let val = dec_cur(sh, &mut c, &[]);
    Dec { val, used: c.pos, recovered: c.recovered, ambiguous: c.ambiguous, at: if c.recovered { c.at } else { c.pos }, why: c.why, short: c.short, huge: c.huge }
}

fn canon_seq(xs: Vec<Val>, k: Kind) -> Val {
    match k {
        Kind::List => Val::L(xs),
        Kind::Set => { let mut xs = xs; xs.sort(); xs.dedup(); Val::L(xs) }
        Kind::IndexSet => { let mut seen = std::collections::HashSet::new(); Val::L(xs.into_iter().filter(|x| seen.insert(x.clone())).collect()) }
        Kind::Map | Kind::IndexMap => {
            // The last value of a key wins.
            let mut o: Vec<Val> = vec![];
            let mut at = std::collections::HashMap::new();
            for x in xs {
                let i = *at.entry(x.l()[0].clone()).or_insert(o.len());
                if i < o.len() { o[i] = x } else { o.push(x) }
            }
            if k == Kind::Map { o.sort(); }
            Val::L(o)
        }
    }
}

/// Sorts unordered containers and drops duplicates, so that equal Rust values have equal `Val`s:
/// `HashSet`/`HashMap` have no order, and the order of `BTreeSet`/`BTreeMap` is the order of their keys,
/// which for the key types used here is a function of the set of keys; so merging these states loses nothing.
pub fn canon(sh: &Shape, v: &Val) -> Val {
    match sh {
        Shape::Bits(_) | Shape::Varint | Shape::Str(_) | Shape::Skip(..) => v.clone(),
        Shape::Custom(s, k) => { let v = canon(s, v); (k.norm)(&v).unwrap_or(v) }
        Shape::Seq(_, e, k) => canon_seq(v.l().iter().map(|x| canon(e, x)).collect(), *k),
        Shape::Arr(_, e) => Val::L(v.l().iter().map(|x| canon(e, x)).collect()),
        Shape::Rec(fs) => Val::L(fs.iter().zip(v.l()).map(|(f, x)| canon(f, x)).collect()),
        Shape::Flag(a, b) => { let (i, x) = v.e(); Val::E(i, Box::new(canon(if i == 0 { a } else { b }, x))) }
        Shape::Enum { vars, .. } => { let (i, x) = v.e(); Val::E(i, Box::new(canon(&vars[i as usize].1, x))) }
        Shape::Prefix(_, s) | Shape::OnEof(s, _) => canon(s, v),
    }
}

/// What reading back a written value yields: `skip` fields come back as their defaults.
pub fn reread(sh: &Shape, v: &Val) -> Val {
    match sh {
        Shape::Skip(d, _) => d.clone(),
        Shape::Seq(_, e, k) => canon_seq(v.l().iter().map(|x| reread(e, x)).collect(), *k),
        Shape::Arr(_, e) => Val::L(v.l().iter().map(|x| reread(e, x)).collect()),
        Shape::Rec(fs) => Val::L(fs.iter().zip(v.l()).map(|(f, x)| reread(f, x)).collect()),
        Shape::Flag(a, b) => { let (i, x) = v.e(); Val::E(i, Box::new(reread(if i == 0 { a } else { b }, x))) }
        Shape::Enum { vars, .. } => { let (i, x) = v.e(); Val::E(i, Box::new(reread(&vars[i as usize].1, x))) }
        Shape::Prefix(_, s) | Shape::OnEof(s, _) | Shape::Custom(s, _) => canon(sh, &reread(s, v)),
        _ => v.clone(),
    }
}

/// The least number of bytes any valid encoding of this type occupies.
pub fn least(sh: &Shape) -> usize {
    fn tag(t: Tag) -> usize { match t { Tag::U7 | Tag::U8 | Tag::Var => 1, Tag::U16 => 2, Tag::U32 => 4, Tag::U64 => 8 } }
    match sh {
        Shape::Bits(n) => *n as usize,
        Shape::Varint => 1,
        Shape::Str(l) | Shape::Seq(l, _, _) => match l { Len::T(t) => tag(*t), _ => 0 },
        Shape::Arr(n, e) => n * least(e),
        Shape::Rec(fs) => fs.iter().map(least).sum(),
        Shape::Flag(a, b) => 1 + least(a).min(least(b)),
        Shape::Enum { tag: t, vars, peek } => {
            let m = vars.iter().map(|(_, s)| least(s)).min().unwrap_or(0);
            if *peek { m } else { m + tag(*t) }
        }
        Shape::Prefix(p, s) => p.len() + least(s),
        Shape::Skip(..) | Shape::OnEof(..) => 0,
        Shape::Custom(s, _) => least(s),
    }
}

/// The size if every value of this type has an encoding of the same size.
pub fn fixed(sh: &Shape) -> Option<usize> {
    match sh {
        Shape::Bits(n) => Some(*n as usize),
        Shape::Varint | Shape::Str(_) | Shape::Seq(..) | Shape::Flag(..) | Shape::Enum { .. } | Shape::OnEof(..) => None,
        Shape::Arr(n, e) => fixed(e).map(|x| x * n),
        Shape::Rec(fs) => fs.iter().map(fixed).sum(),
        Shape::Prefix(p, s) => fixed(s).map(|x| x + p.len()),
        Shape::Skip(..) => Some(0),
        Shape::Custom(s, _) => fixed(s),
    }
}

pub fn any(sh: &Shape, f: &mut dyn FnMut(&Shape) -> bool) -> bool {
    if f(sh) { return true; }
    match sh {
        Shape::Seq(_, e, _) | Shape::Arr(_, e) | Shape::Prefix(_, e) | Shape::OnEof(e, _) | Shape::Custom(e, _) => any(e, f),
        Shape::Rec(fs) => fs.iter().any(|x| any(x, f)),
        Shape::Flag(a, b) => any(a, f) || any(b, f),
        Shape::Enum { vars, .. } => vars.iter().any(|(_, x)| any(x, f)),
        _ => false,
    }
}
/// Does this type recover from an end of input anywhere?
pub fn recovers(sh: &Shape) -> bool {
    any(sh, &mut |s| matches!(s, Shape::OnEof(..) | Shape::Str(Len::Eof) | Shape::Seq(Len::Eof, ..)))
}
pub fn peeks(sh: &Shape) -> bool { any(sh, &mut |s| matches!(s, Shape::Enum { peek: true, .. })) }
