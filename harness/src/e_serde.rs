//! Engines for serialization: round trips of arenas with random histories, and deserialization of
//! malformed input
use std::{cmp::Ordering, fmt::Write};

use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use triple_arena::{utils::ChainNoGenArena, Arena, ChainArena, OrdArena};

use crate::{
    cx::*,
    e_arena::{self, end_of_case},
    e_chain::{self, CA},
    e_ord::{self, OA},
    e_surject::{self, SA},
    model::*,
    ptrs::*,
    rng::*,
    tok::*,
};

impl Serialize for Tok {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.val, self.mark).serialize(s)
    }
}
impl<'de> Deserialize<'de> for Tok {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tok, D::Error> {
        let (v, m) = <(u64, u64)>::deserialize(d)?;
        let mut t = Tok::new(v);
        t.mark = m;
        Ok(t)
    }
}
impl Serialize for Key {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.k.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Key {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Key, D::Error> {
        Ok(Key::new(u64::deserialize(d)?))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Ron,
    Json,
    Post,
}
use Fmt::*;

fn ser<T: Serialize>(t: &T, f: Fmt) -> Result<Vec<u8>, String> {
    match f {
        Ron => ron::to_string(t).map(|s| s.into_bytes()).map_err(|e| e.to_string()),
        Json => serde_json::to_vec(t).map_err(|e| e.to_string()),
        Post => postcard::to_allocvec(t).map_err(|e| e.to_string()),
    }
}

fn de<T: DeserializeOwned>(b: &[u8], f: Fmt) -> Result<T, String> {
    match f {
        Ron => ron::de::from_bytes(b).map_err(|e| e.to_string()),
        Json => serde_json::from_slice(b).map_err(|e| e.to_string()),
        Post => postcard::from_bytes(b).map_err(|e| e.to_string()),
    }
}

type V = (u64, u64);
type OI = Option<u128>;

/// What an arena is made of, by index
#[derive(Clone, Debug, PartialEq)]
pub enum Ir {
    Arena(Vec<(u128, V)>),
    Chain(Vec<(u128, OI, OI, V)>),
    /// keys: index, previous, next, key, value index; values: index, value, key count
    Surject(Vec<(u128, OI, OI, V, u128)>, Vec<(u128, V, u64)>),
    Ord(Vec<(u64, V)>),
}

impl Ir {
    /// if this describes an arena
    fn valid(&self, inx_max: u128) -> Result<(), &'static str> {
        fn indexes(v: impl Iterator<Item = u128>, max: u128) -> Result<HSet<u128>, &'static str> {
            let mut s = HSet::default();
            for i in v {
                if i == 0 || i > max {
                    return Err("index out of range")
                }
                if !s.insert(i) {
                    return Err("duplicate index")
                }
            }
            Ok(s)
        }
        fn links(v: &[(u128, OI, OI)]) -> Result<(), &'static str> {
            let m: HMap<u128, (OI, OI)> = v.iter().map(|x| (x.0, (x.1, x.2))).collect();
            for (i, p, n) in v {
                if let Some(p) = p {
                    if m.get(p).map(|x| x.1) != Some(Some(*i)) {
                        return Err("one-sided interlink")
                    }
                }
                if let Some(n) = n {
                    if m.get(n).map(|x| x.0) != Some(Some(*i)) {
                        return Err("one-sided interlink")
                    }
                }
            }
            Ok(())
        }
        match self {
            Ir::Arena(v) => {
                indexes(v.iter().map(|x| x.0), inx_max)?;
            }
            Ir::Chain(v) => {
                indexes(v.iter().map(|x| x.0), inx_max)?;
                links(&v.iter().map(|x| (x.0, x.1, x.2)).collect::<Vec<_>>())?;
            }
            Ir::Surject(k, v) => {
                let ks = indexes(k.iter().map(|x| x.0), inx_max)?;
                indexes(v.iter().map(|x| x.0), inx_max)?;
                links(&k.iter().map(|x| (x.0, x.1, x.2)).collect::<Vec<_>>())?;
                let next: HMap<u128, (OI, u128)> = k.iter().map(|x| (x.0, (x.2, x.4))).collect();
                let mut todo = ks;
                let mut counts: HMap<u128, u64> = HMap::default();
                for (i, ..) in k {
                    if !todo.contains(i) {
                        continue
                    }
                    let val = next[i].1;
                    let mut x = *i;
                    let mut n = 0;
                    loop {
                        todo.remove(&x);
                        n += 1;
                        if next[&x].1 != val {
                            return Err("mixed key set")
                        }
                        match next[&x].0 {
                            None => return Err("key set is not cyclic"),
                            Some(y) if y == *i => break,
                            Some(y) => x = y,
                        }
                    }
                    if counts.insert(val, n).is_some() {
                        return Err("two key sets with one value")
                    }
                }
                for (i, _, c) in v {
                    if counts.remove(i) != Some(*c) {
                        return Err("wrong key count")
                    }
                }
                if !counts.is_empty() {
                    return Err("no such value")
                }
            }
            Ir::Ord(v) => {
                if v.len() as u128 > inx_max {
                    return Err("too many")
                }
            }
        }
        Ok(())
    }

    fn max_index(&self) -> u128 {
        match self {
            Ir::Arena(v) => v.iter().map(|x| x.0).max().unwrap_or(0),
            Ir::Chain(v) => v.iter().map(|x| x.0).max().unwrap_or(0),
            Ir::Surject(k, v) => k.iter().map(|x| x.0).chain(v.iter().map(|x| x.0)).max().unwrap_or(0),
            Ir::Ord(v) => v.len() as u128,
        }
    }

    /// written out in a format, independently of the serializers. `wide`: the index is more than a byte
    fn write(&self, f: Fmt, wide: bool) -> Vec<u8> {
        let mut o = Out {
            f,
            wide,
            b: vec![],
        };
        match self {
            Ir::Arena(v) => o.map(v, |o, x| {
                o.index_key(x.0);
                o.colon();
                o.val(x.1)
            }),
            Ir::Chain(v) => o.map(v, |o, x| {
                o.index_key(x.0);
                o.colon();
                o.open();
                o.opt(x.1);
                o.comma();
                o.opt(x.2);
                o.comma();
                o.val(x.3);
                o.close();
            }),
            Ir::Surject(k, v) => {
                o.open();
                o.map(k, |o, x| {
                    o.index_key(x.0);
                    o.colon();
                    o.open();
                    o.opt(x.1);
                    o.comma();
                    o.opt(x.2);
                    o.comma();
                    o.open();
                    o.val(x.3);
                    o.comma();
                    o.index(x.4);
                    o.close();
                    o.close();
                });
                o.comma();
                o.map(v, |o, x| {
                    o.index_key(x.0);
                    o.colon();
                    o.open();
                    o.val(x.1);
                    o.comma();
                    o.num(x.2 as u128);
                    o.close();
                });
                o.close();
            }
            Ir::Ord(v) => o.map(v, |o, x| {
                if o.f == Json {
                    o.txt(&format!("\"{}\"", x.0));
                } else {
                    o.num(x.0 as u128);
                }
                o.colon();
                o.val(x.1)
            }),
        }
        o.b
    }
}

struct Out {
    f: Fmt,
    wide: bool,
    b: Vec<u8>,
}

impl Out {
    fn txt(&mut self, s: &str) {
        self.b.extend_from_slice(s.as_bytes());
    }

    fn varint(&mut self, mut x: u128) {
        while x >= 128 {
            self.b.push((x & 127) as u8 | 128);
            x >>= 7;
        }
        self.b.push(x as u8);
    }

    fn num(&mut self, x: u128) {
        if self.f == Post {
            self.varint(x);
        } else {
            self.txt(&x.to_string());
        }
    }

    fn index(&mut self, x: u128) {
        if self.f == Post && !self.wide {
            self.b.push(x as u8);
        } else {
            self.num(x);
        }
    }

    fn index_key(&mut self, x: u128) {
        if self.f == Json {
            self.txt(&format!("\"{x}\""));
        } else {
            self.index(x);
        }
    }

    fn opt(&mut self, x: OI) {
        match (self.f, x) {
            (Post, None) => self.b.push(0),
            (Post, Some(x)) => {
                self.b.push(1);
                self.index(x);
            }
            (Json, None) => self.txt("null"),
            (Json, Some(x)) => self.num(x),
            (Ron, None) => self.txt("None"),
            (Ron, Some(x)) => self.txt(&format!("Some({x})")),
        }
    }

    fn open(&mut self) {
        match self.f {
            Post => (),
            Json => self.txt("["),
            Ron => self.txt("("),
        }
    }

    fn close(&mut self) {
        match self.f {
            Post => (),
            Json => self.txt("]"),
            Ron => self.txt(")"),
        }
    }

    fn comma(&mut self) {
        if self.f != Post {
            self.txt(",");
        }
    }

    fn colon(&mut self) {
        if self.f != Post {
            self.txt(":");
        }
    }

    fn val(&mut self, v: V) {
        self.open();
        self.num(v.0 as u128);
        self.comma();
        self.num(v.1 as u128);
        self.close();
    }

    fn map<X>(&mut self, v: &[X], mut f: impl FnMut(&mut Self, &X)) {
        if self.f == Post {
            self.varint(v.len() as u128);
        } else {
            self.txt("{");
        }
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.comma();
            }
            f(self, x);
        }
        if self.f != Post {
            self.txt("}");
        }
    }
}

/// An arena type with its engine
trait Sub<P: TP>: Sized {
    type A: Serialize + DeserializeOwned + 'static;
    const PRIMARY: Tags;
    fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self>;
    fn step(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, full: bool) -> R;
    fn arena(&mut self) -> &mut Self::A;
    /// what the model says is in the first arena
    fn ir(&self) -> Ir;
    /// reads everything through the public interface
    fn observe(a: &Self::A) -> Ir;
    /// the first arena is now this one, which holds what `ir` says
    fn adopt(&mut self, cx: &mut Cx, a: Self::A, ir: &Ir, t: Tags) -> R;
    fn full(&mut self, cx: &mut Cx, rng: &mut Rng, t: Tags) -> R;
    /// if it can be serialized as it is
    fn ready(&self) -> bool {
        true
    }
    fn compress(&mut self) {}
    /// can hold no more
    fn exhausted(&self) -> bool;
}

fn v(t: &Tok) -> V {
    (t.val, t.mark)
}
fn tv(t: &TR) -> V {
    (t.val, t.mark)
}

macro_rules! common {
    ($w:ident) => {
        fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self> {
            let mut w = $w::W::new(cx, rng)?;
            w.cfg.target = w.cfg.target.min(40);
            Ok(w)
        }

        fn step(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, full: bool) -> R {
            let i = i % self.s.len();
            let op = self.cfg.next_op(rng, self.s[i].m.len());
            $w::W::step(self, cx, rng, i, op, full)
        }

        fn arena(&mut self) -> &mut Self::A {
            &mut self.s[0].a
        }

        fn full(&mut self, cx: &mut Cx, rng: &mut Rng, t: Tags) -> R {
            self.s[0].full(cx, rng, t)
        }

        fn exhausted(&self) -> bool {
            self.s[0].b.blocked()
        }
    };
}

/// the old `Ptr`s are not valid in the new arena, except if they are equal to new ones
fn book<P: TP>(old: &Book<P>, live: &[P], now: &[P], cap: usize, gen: u128) -> Book<P> {
    let mut b = Book::new(old.ptag);
    b.cap = cap;
    b.gen = gen;
    for p in now {
        b.issued.insert(*p);
    }
    for p in old.dead.iter().rev().take(50).chain(live.iter()) {
        if !b.issued.contains(p) && P::HG {
            b.dead.push(*p);
        }
    }
    b
}

impl<P: TP + Serialize + DeserializeOwned> Sub<P> for e_arena::W<P> {
    type A = Arena<P, Tok>;

    const PRIMARY: Tags = C02;

    common!(e_arena);

    fn ir(&self) -> Ir {
        let m = &self.s[0].m;
        Ir::Arena(m.order.iter().map(|p| (p.i() as u128, tv(m.get(*p).unwrap()))).collect())
    }

    fn observe(a: &Self::A) -> Ir {
        Ir::Arena(a.iter().map(|(p, t)| (p.i() as u128, v(t))).collect())
    }

    fn adopt(&mut self, cx: &mut Cx, a: Self::A, ir: &Ir, t: Tags) -> R {
        let Ir::Arena(ir) = ir else { unreachable!() };
        let s = &mut self.s[0];
        let now: Vec<P> = ir.iter().map(|x| P::make(x.0 as usize, 2)).collect();
        s.b = book(&s.b, &s.m.order.clone(), &now, a.capacity(), P::gnum(a.generation()));
        s.a = a;
        s.m.clear();
        for (p, x) in now.iter().zip(ir) {
            let Some(y) = s.a.get(*p) else {
                chk!(cx, t, false, "{p:?} is not valid after deserialization");
                continue
            };
            chk!(cx, t, v(y) == x.1, "{p:?} holds {:?} after deserialization instead of {:?}", v(y), x.1);
            s.m.insert(*p, y.rec());
        }
        chk!(cx, t, s.a.len() == ir.len(), "{} elements after deserialization instead of {}", s.a.len(), ir.len());
        Ok(())
    }
}

impl<P: TP + Serialize + DeserializeOwned, A: CA<P> + Serialize + DeserializeOwned + 'static> Sub<P> for e_chain::W<P, A> {
    type A = A;

    const PRIMARY: Tags = C03;

    common!(e_chain);

    fn ir(&self) -> Ir {
        let s = &self.s[0];
        let f = |p: Option<&P>| p.map(|p| p.i() as u128);
        Ir::Chain(s.m.order.iter().map(|p| (p.i() as u128, f(s.prev.get(p)), f(s.next.get(p)), tv(s.m.get(*p).unwrap()))).collect())
    }

    fn observe(a: &A) -> Ir {
        let f = |x: e_chain::IL| x.map(|x| x.0 as u128);
        Ir::Chain(
            a.all(0)
                .into_iter()
                .map(|(p, _)| {
                    let p = p.unwrap();
                    let (l, t) = a.link(p).unwrap();
                    (p.i() as u128, f(l.0), f(l.1), v(t))
                })
                .collect(),
        )
    }

    fn adopt(&mut self, cx: &mut Cx, a: A, ir: &Ir, t: Tags) -> R {
        let Ir::Chain(ir) = ir else { unreachable!() };
        let s = &mut self.s[0];
        let mk = |i: u128| P::make(i as usize, 2);
        let now: Vec<P> = ir.iter().map(|x| mk(x.0)).collect();
        s.b = book(&s.b, &s.m.order.clone(), &now, a.cap(), a.gn());
        s.a = a;
        s.m.clear();
        s.next.clear();
        s.prev.clear();
        for (p, x) in now.iter().zip(ir) {
            let Some(y) = s.a.get(0, *p) else {
                chk!(cx, t, false, "{p:?} is not valid after deserialization");
                continue
            };
            chk!(cx, t, v(y) == x.3, "{p:?} holds {:?} after deserialization instead of {:?}", v(y), x.3);
            let r = y.rec();
            s.m.insert(*p, r);
            if let Some(i) = x.1 {
                s.prev.insert(*p, mk(i));
            }
            if let Some(i) = x.2 {
                s.next.insert(*p, mk(i));
            }
        }
        chk!(cx, t, s.a.len() == ir.len(), "{} elements after deserialization instead of {}", s.a.len(), ir.len());
        Ok(())
    }
}

impl<P: TP + Serialize + DeserializeOwned> Sub<P> for e_surject::W<P> {
    type A = SA<P>;

    const PRIMARY: Tags = C04;

    common!(e_surject);

    /// the order of the keys in a set is taken from the arena
    fn ir(&self) -> Ir {
        let s = &self.s[0];
        let f = |p: Option<P::Inx>| p.map(|p| e_surject::inum::<P>(p) as u128);
        let mut vals = vec![];
        let mut no = HMap::default();
        for (i, (id, (ks, v))) in s.sets.iter().enumerate() {
            no.insert(*id, i as u128 + 1);
            vals.push((i as u128 + 1, tv(v), ks.len() as u64));
        }
        let keys = s
            .m
            .order
            .iter()
            .map(|p| {
                let (k, id) = s.m.get(*p).unwrap();
                let l = s.a.get_link_no_gen(p.inx()).unwrap().1;
                (p.i() as u128, f(l.prev()), f(l.next()), tv(k), no[id])
            })
            .collect();
        Ir::Surject(keys, vals)
    }

    fn observe(a: &SA<P>) -> Ir {
        let f = |p: Option<P::Inx>| p.map(|p| e_surject::inum::<P>(p) as u128);
        let mut vals: Vec<(u128, V, u64)> = vec![];
        let mut at: HMap<*const Tok, u128> = HMap::default();
        let mut keys = vec![];
        for (p, k, t) in a.iter() {
            let i = *at.entry(t as *const Tok).or_insert_with(|| {
                vals.push((vals.len() as u128 + 1, v(t), a.len_key_set(p).map(|x| x.get()).unwrap_or(0) as u64));
                vals.len() as u128
            });
            let l = a.get_link_no_gen(p.inx()).unwrap().1;
            keys.push((p.i() as u128, f(l.prev()), f(l.next()), v(k), i));
        }
        Ir::Surject(keys, vals)
    }

    fn adopt(&mut self, cx: &mut Cx, a: SA<P>, ir: &Ir, t: Tags) -> R {
        let Ir::Surject(keys, vals) = ir else { unreachable!() };
        let s = &mut self.s[0];
        let now: Vec<P> = keys.iter().map(|x| P::make(x.0 as usize, 2)).collect();
        s.b = book(&s.b, &s.m.order.clone(), &now, a.capacity_keys(), P::gnum(a.generation()));
        s.capv = a.capacity_vals();
        s.a = a;
        s.m.clear();
        s.sets.clear();
        s.ids += 1000;
        let base = s.ids;
        s.ids += vals.len() as u64 + 1;
        let f = |p: Option<P::Inx>| p.map(|p| e_surject::inum::<P>(p) as u128);
        let no: HMap<u128, usize> = vals.iter().enumerate().map(|(i, x)| (x.0, i)).collect();
        for (p, x) in now.iter().zip(keys) {
            let Some((k, y)) = s.a.get(*p) else {
                chk!(cx, t, false, "{p:?} is not valid after deserialization");
                continue
            };
            let vi = no[&x.4];
            chk!(cx, t, v(k) == x.3 && v(y) == vals[vi].1, "{p:?} holds {:?} and {:?} after deserialization instead of {:?} and {:?}", v(k), v(y), x.3, vals[vi].1);
            let l = s.a.get_link_no_gen(p.inx()).unwrap().1;
            chk!(cx, t, (f(l.prev()), f(l.next())) == (x.1, x.2), "the key order around {p:?} changed in deserialization");
            let id = base + vi as u64;
            s.sets.entry(id).or_insert((vec![], y.rec())).0.push(*p);
            s.m.insert(*p, (k.rec(), id));
        }
        chk!(cx, t, s.a.len_keys() == keys.len() && s.a.len_vals() == vals.len(), "{} keys and {} values after deserialization instead of {} and {}", s.a.len_keys(), s.a.len_vals(), keys.len(), vals.len());
        Ok(())
    }
}

impl<P: TP + Serialize + DeserializeOwned> Sub<P> for e_ord::W<P> {
    type A = OA<P>;

    const PRIMARY: Tags = C05;

    common!(e_ord);

    fn ir(&self) -> Ir {
        let s = &self.s[0];
        Ir::Ord(s.seq.iter().map(|p| s.e(*p)).map(|e| (e.k, tv(&e.vr))).collect())
    }

    fn observe(a: &OA<P>) -> Ir {
        Ir::Ord(a.iter().map(|(_, k, t)| (k.k, v(t))).collect())
    }

    fn ready(&self) -> bool {
        self.s[0].seq.iter().enumerate().all(|(i, p)| p.i() == i + 1)
    }

    fn compress(&mut self) {
        let s = &mut self.s[0];
        s.a.compress_and_shrink();
        // the model only needs to know the new Ptrs until it is replaced
        let old = std::mem::take(&mut s.seq);
        let m = std::mem::replace(&mut s.m, Live::new());
        for (p, (q, ..)) in old.into_iter().zip(s.a.iter()) {
            s.b.kill(p);
            s.b.issued.insert(q);
            s.m.insert(q, *m.get(p).unwrap());
            s.seq.push(q);
        }
        s.b.gen = P::gnum(s.a.generation());
        s.b.cap = s.a.capacity();
    }

    fn adopt(&mut self, cx: &mut Cx, a: OA<P>, ir: &Ir, t: Tags) -> R {
        let Ir::Ord(ir) = ir else { unreachable!() };
        let s = &mut self.s[0];
        let now: Vec<P> = (0..ir.len()).map(|x| P::make(x + 1, 2)).collect();
        s.b = book(&s.b, &s.seq.clone(), &now, a.capacity(), P::gnum(a.generation()));
        s.a = a;
        s.m.clear();
        s.seq.clear();
        for (p, x) in now.iter().zip(ir) {
            let Some((k, y)) = s.a.get(*p) else {
                chk!(cx, t, false, "{p:?} is not valid after deserialization");
                continue
            };
            chk!(cx, t, k.k == x.0 && v(y) == x.1, "{p:?} holds {} and {:?} after deserialization instead of {x:?}", k.k, v(y));
            let e = e_ord::E {
                k: k.k,
                kr: k.t.rec(),
                vr: y.rec(),
            };
            s.m.insert(*p, e);
            s.seq.push(*p);
        }
        chk!(cx, t, s.a.len() == ir.len(), "{} entries after deserialization instead of {}", s.a.len(), ir.len());
        Ok(())
    }
}

fn pick_fmt<P: TP>(rng: &mut Rng) -> Fmt {
    // ron has no 128 bit integers without a feature
    if P::INX_MAX > u64::MAX as u128 {
        *rng.pick(&[Json, Post])
    } else {
        *rng.pick(&[Ron, Json, Post])
    }
}

fn round_trip<P: TP + Serialize + DeserializeOwned, W: Sub<P>>(cx: &mut Cx, rng: &mut Rng) -> R {
    cx.primary = W::PRIMARY;
    {
        let mut w = W::new(cx, rng)?;
        let rounds = rng.range(1, 3);
        for _ in 0..rounds {
            let n = rng.range(1, if cx.miri { 8 } else { 60 });
            for j in 0..n {
                let i = if rng.p(3, 4) { 0 } else { rng.n(4) };
                w.step(cx, rng, i, j + 1 == n)?;
            }
            let f = pick_fmt::<P>(rng);
            let before = w.ir();
            let n = before.max_index();
            cx.primary |= C14;
            cx.op(C14, h(&format!("{f:?}{before:?}")), || format!("round trip as {f:?} of {before:?}"));
            if !w.ready() {
                let r = ser(w.arena(), f);
                chk!(cx, C14, r.is_err(), "an uncompressed OrdArena was serialized");
                cx.ev(C14, "uncompressed_reported");
                w.full(cx, rng, C14)?;
                if w.exhausted() {
                    break
                }
                w.compress();
            }
            let b = match ser(w.arena(), f) {
                Ok(b) => b,
                Err(e) => {
                    chk!(cx, C14, false, "serialization as {f:?} failed: {e}");
                    break
                }
            };
            w.full(cx, rng, C14)?;
            // nothing is left behind on a failing target
            let a = match de::<W::A>(&b, f) {
                Ok(a) => a,
                Err(e) => {
                    chk!(cx, C14, false, "deserialization as {f:?} failed: {e}");
                    break
                }
            };
            // read back as something general: the same bytes again
            let again = ser(&a, f);
            chk!(cx, C14, again.as_ref() == Ok(&b), "serializing again gives something else");
            w.adopt(cx, a, &before, C14)?;
            w.full(cx, rng, C14)?;
            cx.ev(C14, match f {
                Ron => "round_trip_ron",
                Json => "round_trip_json",
                Post => "round_trip_postcard",
            });
            if n > 0 {
                cx.ev(C14, "round_trip_nonempty");
            }
            cx.state(h(&format!("{before:?}")));
            cx.taint |= C14;
            cx.primary = W::PRIMARY;
        }
        let n = rng.range(2, if cx.miri { 6 } else { 30 });
        for j in 0..n {
            let i = if rng.p(4, 5) { 0 } else { rng.n(4) };
            w.step(cx, rng, i, j % 3 == 0 || j + 1 == n)?;
        }
        cx.ev(C14, "used_after_round_trip");
    }
    end_of_case(cx)
}

/// `Ptr`s stored as values
fn ptr_values<P: TP + Serialize + DeserializeOwned>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = rng.range(1, 12);
    let mut a: Arena<P, (u64, Vec<P>, Option<P>)> = Arena::new();
    let mut ps = vec![];
    for i in 0..n {
        ps.push(a.insert((i as u64, vec![], None)));
        if rng.p(1, 4) {
            let k = rng.n(ps.len());
            a.remove(ps.swap_remove(k));
        }
    }
    for p in &ps {
        for _ in 0..rng.n(4) {
            let q = *rng.pick(&ps);
            a[*p].1.push(q);
        }
        if rng.p(1, 2) {
            a[*p].2 = Some(*rng.pick(&ps));
        }
    }
    let f = pick_fmt::<P>(rng);
    cx.op(C14, h(&format!("{a:?}")), || format!("round trip as {f:?} of {a:?}"));
    let b = match ser(&a, f) {
        Ok(b) => b,
        Err(e) => {
            chk!(cx, C14, false, "serialization as {f:?} failed: {e}");
            return Ok(())
        }
    };
    let c: Arena<P, (u64, Vec<P>, Option<P>)> = match de(&b, f) {
        Ok(a) => a,
        Err(e) => {
            chk!(cx, C14, false, "deserialization as {f:?} failed: {e}");
            return Ok(())
        }
    };
    let name = |x: &Arena<P, (u64, Vec<P>, Option<P>)>, p: &P| x.get(*p).map(|t| t.0);
    for p in &ps {
        let q = P::make(p.i(), 2);
        let (x, y) = (&a[*p], c.get(q));
        let Some(y) = y else {
            chk!(cx, C14, false, "{q:?} is not valid after deserialization");
            continue
        };
        let l: Vec<Option<u64>> = x.1.iter().map(|p| name(&a, p)).collect();
        let r: Vec<Option<u64>> = y.1.iter().map(|p| name(&c, p)).collect();
        let same = x.0 == y.0 && l == r && x.2.as_ref().map(|p| name(&a, p)) == y.2.as_ref().map(|p| name(&c, p));
        chk!(cx, C14, same, "the Ptrs in {q:?} lead elsewhere after deserialization: {x:?} {y:?}");
    }
    cx.ev(C14, "stored_ptrs_round_trip");
    Ok(())
}

pub fn case<P: TP + Serialize + DeserializeOwned>(cx: &mut Cx, rng: &mut Rng) -> R {
    match rng.n(11) {
        0 | 1 => round_trip::<P, e_arena::W<P>>(cx, rng),
        2 | 3 => round_trip::<P, e_chain::W<P, ChainArena<P, Tok>>>(cx, rng),
        4 | 5 => round_trip::<P, e_chain::W<P, ChainNoGenArena<P, Tok>>>(cx, rng),
        6 | 7 => round_trip::<P, e_surject::W<P>>(cx, rng),
        8 | 9 => round_trip::<P, e_ord::W<P>>(cx, rng),
        _ => ptr_values::<P>(cx, rng),
    }
}

/// a well formed description
fn base(rng: &mut Rng, kind: usize, inx_max: u128) -> Ir {
    let n = *rng.pick(&[0, 1, 1, 2, 3, 4, 6, 9]);
    let max = (if rng.p(1, 3) { n as u128 } else { n as u128 + 4 }).min(inx_max);
    let mut inx: Vec<u128> = (1..=max).collect();
    rng.shuffle(&mut inx);
    inx.truncate(n);
    if rng.p(1, 2) {
        inx.sort();
    }
    let val = |rng: &mut Rng| (rng.n(5) as u64, rng.n(2) as u64);
    // chains over shuffled indexes
    let chains = |rng: &mut Rng, cyclic: bool| {
        let mut order = inx.clone();
        rng.shuffle(&mut order);
        let mut links: HMap<u128, (OI, OI, u128)> = HMap::default();
        let mut groups = vec![];
        while !order.is_empty() {
            let k = rng.range(1, order.len());
            let g: Vec<u128> = order.drain(..k).collect();
            let cyc = cyclic || rng.p(1, 3);
            for (j, x) in g.iter().enumerate() {
                let prev = if j > 0 { Some(g[j - 1]) } else if cyc { g.last().copied() } else { None };
                let next = if j + 1 < g.len() { Some(g[j + 1]) } else if cyc { g.first().copied() } else { None };
                links.insert(*x, (prev, next, groups.len() as u128 + 1));
            }
            groups.push(g);
        }
        (links, groups)
    };
    match kind {
        0 => Ir::Arena(inx.iter().map(|i| (*i, val(rng))).collect()),
        1 | 2 => {
            let (l, _) = chains(rng, false);
            Ir::Chain(inx.iter().map(|i| (*i, l[i].0, l[i].1, val(rng))).collect())
        }
        3 => {
            let (l, g) = chains(rng, true);
            let off = rng.n(3) as u128;
            let keys = inx.iter().map(|i| (*i, l[i].0, l[i].1, val(rng), (l[i].2 + off).min(inx_max))).collect();
            let vals = g.iter().enumerate().map(|(i, g)| (i as u128 + 1 + off, val(rng), g.len() as u64)).collect();
            Ir::Surject(keys, vals)
        }
        _ => {
            let mut k = 0;
            Ir::Ord((0..n).map(|_| {
                k += rng.n(4) as u64;
                (k, val(rng))
            }).collect())
        }
    }
}

/// one semantic disturbance
fn disturb(rng: &mut Rng, ir: &mut Ir, inx_max: u128) -> &'static str {
    let weird = |rng: &mut Rng, m: u128| -> u128 {
        match rng.n(8) {
            0 => 0,
            1 if inx_max < 100000 => inx_max + 1,
            2 if inx_max < 100000 => inx_max + 1 + rng.n(3) as u128,
            3 if inx_max < 100000 => inx_max,
            4 => m + 1 + rng.n(30) as u128,
            _ => 1 + rng.n(m as usize + 1) as u128,
        }
    };
    let m = ir.max_index().min(300);
    let w = weird(rng, m);
    let w2 = weird(rng, m);
    let oi = |rng: &mut Rng| if rng.p(1, 3) { None } else { Some(w) };
    match ir {
        Ir::Arena(v) if !v.is_empty() => {
            let i = rng.n(v.len());
            match rng.n(3) {
                0 => {
                    let x = v[i];
                    let at = rng.n(v.len() + 1);
                    v.insert(at, x);
                    "duplicate"
                }
                1 => {
                    v[i].0 = w;
                    "index changed"
                }
                _ => {
                    v.remove(i);
                    "removed"
                }
            }
        }
        Ir::Chain(v) if !v.is_empty() => {
            let i = rng.n(v.len());
            let j = rng.n(v.len());
            match rng.n(7) {
                0 => {
                    let x = v[i];
                    let at = rng.n(v.len() + 1);
                    v.insert(at, x);
                    "duplicate"
                }
                1 => {
                    v[i].0 = w;
                    "index changed"
                }
                2 => {
                    v.remove(i);
                    "removed"
                }
                3 => {
                    v[i].1 = oi(rng);
                    "previous changed"
                }
                4 => {
                    v[i].2 = oi(rng);
                    "next changed"
                }
                5 => {
                    let t = v[i].2;
                    v[i].2 = v[j].2;
                    v[j].2 = t;
                    "next swapped"
                }
                _ => {
                    // still mutual: a valid exchange of the ends
                    let t = (v[i].1, v[i].2);
                    v[i].1 = t.1;
                    v[i].2 = t.0;
                    "direction of one link changed"
                }
            }
        }
        Ir::Surject(k, v) if !k.is_empty() => {
            let i = rng.n(k.len());
            let j = rng.n(k.len());
            let y = rng.n(v.len().max(1));
            match rng.n(14) {
                0 => {
                    let x = k[i];
                    k.push(x);
                    "duplicate key"
                }
                1 if !v.is_empty() => {
                    let x = v[y];
                    v.push(x);
                    "duplicate value"
                }
                2 => {
                    k[i].0 = w;
                    "key index changed"
                }
                3 if !v.is_empty() => {
                    v[y].0 = w;
                    "value index changed"
                }
                4 => {
                    k.remove(i);
                    "key removed"
                }
                5 if !v.is_empty() => {
                    v.remove(y);
                    "value removed"
                }
                6 => {
                    k[i].1 = oi(rng);
                    "previous changed"
                }
                7 => {
                    k[i].2 = oi(rng);
                    "next changed"
                }
                8 => {
                    k[i].4 = w;
                    "value of key changed"
                }
                9 if !v.is_empty() => {
                    v[y].2 = *rng.pick(&[0, 1, 2, 3, u64::MAX, v[y].2.wrapping_add(1), v[y].2.wrapping_sub(1)]);
                    "count changed"
                }
                10 if !v.is_empty() => {
                    v.push((w2, (0, 0), 1 + rng.n(2) as u64));
                    "value without keys"
                }
                11 => {
                    let t = k[i].4;
                    k[i].4 = k[j].4;
                    k[j].4 = t;
                    "values of keys swapped"
                }
                // two cycles become one or one becomes two, mutual links
                12 => {
                    let (a, b) = (k[i], k[j]);
                    if let (Some(na), Some(nb)) = (a.2, b.2) {
                        k[i].2 = Some(nb);
                        k[j].2 = Some(na);
                        for x in k.iter_mut() {
                            if x.0 == nb {
                                x.1 = Some(a.0);
                            } else if x.0 == na {
                                x.1 = Some(b.0);
                            }
                        }
                    }
                    "cycles crossed"
                }
                _ => {
                    // cut open, mutual
                    if let Some(n) = k[i].2.take() {
                        for x in k.iter_mut() {
                            if x.0 == n {
                                x.1 = None;
                            }
                        }
                    }
                    "cycle opened"
                }
            }
        }
        Ir::Ord(v) => {
            match rng.n(3) {
                0 => {
                    rng.shuffle(v);
                    "keys shuffled"
                }
                1 if inx_max < 300 && rng.p(1, 4) => {
                    let n = inx_max as usize - 1 + rng.n(3);
                    *v = (0..n).map(|i| (i as u64, (0, 0))).collect();
                    "number at the limit"
                }
                _ => {
                    v.push((rng.n(5) as u64, (1, 1)));
                    "entry added"
                }
            }
        }
        _ => "nothing",
    }
}

fn damage(rng: &mut Rng, b: &mut Vec<u8>, f: Fmt) {
    if f == Post && !b.is_empty() && rng.p(1, 8) {
        // an enormous number of entries is announced
        let mut o = Out {
            f,
            wide: true,
            b: vec![],
        };
        let huge = *rng.pick(&[200u128, 4095, 4097, 1 << 20, 1 << 40, u32::MAX as u128, u64::MAX as u128]);
        o.varint(huge);
        b.splice(0..1, o.b);
        return
    }
    for _ in 0..rng.range(1, 3) {
        let n = b.len();
        match rng.n(6) {
            0 => b.truncate(rng.n(n + 1)),
            1 if n > 0 => {
                let i = rng.n(n);
                b[i] ^= 1 << rng.n(8);
            }
            2 if n > 0 => {
                b.remove(rng.n(n));
            }
            3 => {
                let x = if f == Post { rng.u() as u8 } else { *rng.pick(b"0123456789,:{}[]()\"-. nulSome") };
                b.insert(rng.n(n + 1), x);
            }
            4 if n > 1 => {
                let (i, j) = (rng.n(n), rng.n(n));
                let (i, j) = (i.min(j), i.max(j));
                let part: Vec<u8> = b[i..j].to_vec();
                let at = rng.n(n + 1);
                b.splice(at..at, part);
            }
            _ if n > 0 => {
                let i = rng.n(n);
                b[i] = if f == Post { *rng.pick(&[0, 1, 127, 128, 255]) } else { *rng.pick(b"0123456789,:{}") };
            }
            _ => (),
        }
    }
}

fn malformed<P: TP + Serialize + DeserializeOwned, W: Sub<P>>(cx: &mut Cx, rng: &mut Rng, kind: usize) -> R {
    cx.primary = C15;
    {
        // formats in which indexes cannot become huge by accident
        let narrow = P::INX_MAX <= 65535;
        let tries = rng.range(4, 12);
        for _ in 0..tries {
            let f = pick_fmt::<P>(rng);
            let mut ir = base(rng, kind, P::INX_MAX);
            let mut what = String::new();
            for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 3]) {
                let _ = write!(what, "{}; ", disturb(rng, &mut ir, P::INX_MAX));
            }
            // an index of more than a byte cannot be written
            if f == Post && P::INX_MAX == 255 && (ir.max_index() > 255 || format!("{ir:?}").contains("25")) {
                continue
            }
            let mut b = ir.write(f, P::INX_MAX > 255);
            let mut hurt = false;
            if narrow && rng.p(1, 2) {
                let old = b.clone();
                damage(rng, &mut b, f);
                hurt = b != old;
            }
            let show = if f == Post { format!("{b:?}") } else { String::from_utf8_lossy(&b).into_owned() };
            cx.op(C15, h(&(f as u8, &b, kind)), || format!("deserialize {} as {f:?}: {what}{}{show}", std::any::type_name::<W::A>().split('<').next().unwrap(), if hurt { "damaged; " } else { "" }));
            let r = de::<W::A>(&b, f);
            let want = ir.valid(P::INX_MAX);
            if !hurt {
                match (&r, want) {
                    (Ok(_), Err(m)) => chk!(cx, C15, false, "accepted although: {m}"),
                    // a well formed description must be accepted
                    (Err(e), Ok(())) => chk!(cx, C15 | C14, false, "rejected a well formed description: {e}"),
                    _ => (),
                }
                cx.n(C15);
                cx.ev(C15, if want.is_ok() { "well_formed_accepted" } else { "inconsistent_rejected" });
            } else {
                cx.ev(C15, if r.is_ok() { "damaged_accepted" } else { "damaged_rejected" });
            }
            cx.poll()?;
            let Ok(a) = r else {
                let left = reg_alive_count();
                chk!(cx, C08 | C15, left == 0, "{left} values leaked by a failing deserialization");
                continue
            };
            // what was read is an arena in order
            let seen = W::observe(&a);
            if let Err(m) = seen.valid(P::INX_MAX) {
                chk!(cx, C15, false, "the arena that was read is broken: {m}");
            }
            if let Ir::Ord(v) = &seen {
                if v.windows(2).any(|w| w[0].0 > w[1].0) {
                    // only the order of the keys may be wrong, the rest is checked without using it
                    check_tree(cx, &a)?;
                    drop(a);
                    continue
                }
            }
            let old = cx.taint;
            cx.taint |= C15;
            let mut w = W::new(cx, rng)?;
            w.adopt(cx, a, if hurt || kind == 3 { &seen } else { &ir }, C15)?;
            w.full(cx, rng, C15)?;
            for j in 0..rng.n(8) {
                w.step(cx, rng, 0, j % 2 == 0)?;
            }
            w.full(cx, rng, C15)?;
            drop(w);
            cx.taint = old;
            cx.ev(C15, "used_after_deserialization");
        }
    }
    end_of_case(cx)
}

/// structure of an `OrdArena` without using its keys
fn check_tree<A: 'static>(cx: &mut Cx, a: &A) -> R {
    fn go<P: TP>(cx: &mut Cx, a: &OA<P>) -> R {
        let seq: Vec<P> = a.iter().map(|x| x.0).collect();
        let n = seq.len();
        let at: HMap<P, usize> = seq.iter().enumerate().map(|(i, p)| (*p, i)).collect();
        chk!(cx, C15, n == a.len() && at.len() == n, "iteration shows {n} of {} entries", a.len());
        for (i, p) in seq.iter().enumerate() {
            let mut calls = 0;
            let r = a.find_with(|q, _, _| {
                calls += 1;
                at.get(&q).map(|j| i.cmp(j)).unwrap_or(Ordering::Equal)
            });
            chk!(cx, C15, r == Some(*p) && calls <= e_ord::bound(n), "the search for entry {i} of {n} leads to {r:?} in {calls} steps");
        }
        cx.ev(C15, "unordered_structure_checked");
        Ok(())
    }
    let x: &dyn std::any::Any = a;
    if let Some(a) = x.downcast_ref::<OA<PA>>() {
        return go(cx, a)
    }
    if let Some(a) = x.downcast_ref::<OA<PB>>() {
        return go(cx, a)
    }
    if let Some(a) = x.downcast_ref::<OA<PC>>() {
        return go(cx, a)
    }
    if let Some(a) = x.downcast_ref::<OA<PD>>() {
        return go(cx, a)
    }
    if let Some(a) = x.downcast_ref::<OA<PE>>() {
        return go(cx, a)
    }
    if let Some(a) = x.downcast_ref::<OA<PF>>() {
        return go(cx, a)
    }
    Ok(())
}

pub fn case_malformed<P: TP + Serialize + DeserializeOwned>(cx: &mut Cx, rng: &mut Rng) -> R {
    let k = rng.n(5);
    match k {
        0 => malformed::<P, e_arena::W<P>>(cx, rng, k),
        1 => malformed::<P, e_chain::W<P, ChainArena<P, Tok>>>(cx, rng, k),
        2 => malformed::<P, e_chain::W<P, ChainNoGenArena<P, Tok>>>(cx, rng, k),
        3 => malformed::<P, e_surject::W<P>>(cx, rng, k),
        _ => malformed::<P, e_ord::W<P>>(cx, rng, k),
    }
}
