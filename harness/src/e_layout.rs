//! Engine for element layouts: the arenas with elements that are zero sized, over-aligned, odd
//! sized, large or own heap memory. Meant for interpreters and sanitizers, so that the model is
//! light.
use std::{cell::Cell, fmt::Debug};

use triple_arena::{
    utils::{ChainNoGenArena, LinkNoGen},
    Advancer, Arena, ChainArena, Link, OrdArena, SurjectArena,
};

use crate::{cx::*, ptrs::*, rng::*};

thread_local! {
    static ALIVE: Cell<i64> = const { Cell::new(0) };
}
fn born() {
    ALIVE.with(|x| x.set(x.get() + 1));
}
fn died() {
    ALIVE.with(|x| x.set(x.get() - 1));
}

pub trait El: Clone + Debug + PartialEq + Eq + PartialOrd + Ord + 'static {
    fn mk(x: u64) -> Self;
    /// what it was made from, if it can hold that much
    fn id(&self) -> Option<u64>;
    fn set(&mut self, x: u64);
    const NAME: &'static str;
    /// bits it can hold
    const MASK: u64;
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Zst;
impl El for Zst {
    const MASK: u64 = 0;
    const NAME: &'static str = "zero sized";

    fn mk(_: u64) -> Self {
        Zst
    }

    fn id(&self) -> Option<u64> {
        None
    }

    fn set(&mut self, _: u64) {}
}

/// zero sized with a high alignment and a destructor
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(32))]
pub struct ZstD(());
impl El for ZstD {
    const MASK: u64 = 0;
    const NAME: &'static str = "zero sized with destructor";

    fn mk(_: u64) -> Self {
        born();
        ZstD(())
    }

    fn id(&self) -> Option<u64> {
        assert!((self as *const Self as usize) % 32 == 0, "misaligned reference");
        None
    }

    fn set(&mut self, _: u64) {}
}
impl Clone for ZstD {
    fn clone(&self) -> Self {
        Self::mk(0)
    }
}
impl Drop for ZstD {
    fn drop(&mut self) {
        died();
    }
}

impl El for u8 {
    const MASK: u64 = 255;
    const NAME: &'static str = "byte";

    fn mk(x: u64) -> Self {
        x as u8
    }

    fn id(&self) -> Option<u64> {
        Some(*self as u64)
    }

    fn set(&mut self, x: u64) {
        *self = x as u8;
    }
}

impl El for u64 {
    const MASK: u64 = u64::MAX;
    const NAME: &'static str = "word";

    fn mk(x: u64) -> Self {
        x
    }

    fn id(&self) -> Option<u64> {
        Some(*self)
    }

    fn set(&mut self, x: u64) {
        *self = x;
    }
}

impl El for [u8; 3] {
    const MASK: u64 = 0xffff;
    const NAME: &'static str = "three bytes";

    fn mk(x: u64) -> Self {
        [x as u8, (x >> 8) as u8, (x ^ 0x5a) as u8]
    }

    fn id(&self) -> Option<u64> {
        assert!(self[2] == self[0] ^ 0x5a, "torn element");
        Some(self[0] as u64 | (self[1] as u64) << 8)
    }

    fn set(&mut self, x: u64) {
        *self = Self::mk(x);
    }
}

/// over-aligned, with a destructor
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(64))]
pub struct Al(u64, u8);
impl El for Al {
    const MASK: u64 = u64::MAX;
    const NAME: &'static str = "over-aligned";

    fn mk(x: u64) -> Self {
        born();
        Al(x, x as u8)
    }

    fn id(&self) -> Option<u64> {
        assert!((self as *const Self as usize) % 64 == 0, "misaligned reference");
        assert!(self.1 == self.0 as u8, "torn element");
        Some(self.0)
    }

    fn set(&mut self, x: u64) {
        self.0 = x;
        self.1 = x as u8;
    }
}
impl Clone for Al {
    fn clone(&self) -> Self {
        Self::mk(self.0)
    }
}
impl Drop for Al {
    fn drop(&mut self) {
        assert!(self.1 == self.0 as u8, "torn element");
        died();
    }
}

impl El for Box<u64> {
    const MASK: u64 = u64::MAX;
    const NAME: &'static str = "box";

    fn mk(x: u64) -> Self {
        Box::new(x)
    }

    fn id(&self) -> Option<u64> {
        Some(**self)
    }

    fn set(&mut self, x: u64) {
        **self = x;
    }
}

impl El for (String, Vec<u16>) {
    const MASK: u64 = u64::MAX;
    const NAME: &'static str = "string and vector";

    fn mk(x: u64) -> Self {
        (x.to_string(), vec![x as u16; (x % 3) as usize])
    }

    fn id(&self) -> Option<u64> {
        let x: u64 = self.0.parse().unwrap();
        assert!(self.1.len() as u64 == x % 3 && self.1.iter().all(|y| *y == x as u16), "torn element");
        Some(x)
    }

    fn set(&mut self, x: u64) {
        self.0.clear();
        self.0.push_str(&x.to_string());
        self.1.resize((x % 3) as usize, 0);
        self.1.fill(x as u16);
    }
}

impl El for [u64; 33] {
    const MASK: u64 = u64::MAX;
    const NAME: &'static str = "large";

    fn mk(x: u64) -> Self {
        [x; 33]
    }

    fn id(&self) -> Option<u64> {
        assert!(self[32] == self[0] && self[17] == self[0], "torn element");
        Some(self[0])
    }

    fn set(&mut self, x: u64) {
        *self = [x; 33];
    }
}

/// has invalid bit patterns
impl El for Option<Box<bool>> {
    const MASK: u64 = 1;
    const NAME: &'static str = "niches";

    fn mk(x: u64) -> Self {
        if x & 1 == 1 { Some(Box::new(x & 2 == 2)) } else { None }
    }

    fn id(&self) -> Option<u64> {
        Some(self.is_some() as u64)
    }

    fn set(&mut self, x: u64) {
        *self = Self::mk(x);
    }
}

fn ok<T: El>(t: &T, x: u64) -> bool {
    match t.id() {
        None => true,
        Some(y) => y == x & T::MASK,
    }
}

struct Ctx<'a> {
    cx: &'a mut Cx,
    rng: &'a mut Rng,
    x: u64,
    n: usize,
}

impl Ctx<'_> {
    fn new_id(&mut self) -> u64 {
        self.x += 1;
        self.x
    }

    fn cap(&mut self) -> usize {
        self.rng.n(5)
    }
}

fn pick<P: Copy>(rng: &mut Rng, m: &[(P, u64)]) -> Option<usize> {
    if m.is_empty() {
        None
    } else {
        Some(rng.n(m.len()))
    }
}

fn arena<P: TP, T: El>(c: &mut Ctx) -> R {
    let mut a: Arena<P, T> = if c.rng.p(1, 2) { Arena::new() } else { Arena::with_capacity(c.cap()) };
    let mut m: Vec<(P, u64)> = vec![];
    let mut dead: Vec<P> = vec![];
    for _ in 0..c.n {
        let mut op = c.rng.n(26);
        if m.len() < 2 && c.rng.p(1, 2) {
            op = 0;
        }
        c.cx.op(C09, op as u64 ^ (T::MASK ^ T::NAME.len() as u64) << 8, || format!("arena of {} op {op} on {}", T::NAME, m.len()));
        match op {
            0..=3 => {
                let x = c.new_id();
                let p = match c.rng.n(4) {
                    0 => a.insert(T::mk(x)),
                    1 => a.insert_with(|_| T::mk(x)),
                    2 => match a.try_insert(T::mk(x)) {
                        Ok(p) => p,
                        Err(t) => a.insert(t),
                    },
                    _ => match a.try_insert_with(|_| T::mk(x)) {
                        Ok(p) => p,
                        Err(f) => a.insert_with(f),
                    },
                };
                m.push((p, x));
            }
            4 | 5 => {
                if let Some(i) = pick(c.rng, &m) {
                    let (p, x) = m.swap_remove(i);
                    let t = a.remove(p);
                    chk!(c.cx, C09, t.is_some_and(|t| ok(&t, x)), "removed something else than {x}");
                    dead.push(p);
                }
            }
            6 => {
                if let (Some(i), Some(j)) = (pick(c.rng, &m), pick(c.rng, &m)) {
                    let (x, y) = (c.new_id(), c.new_id());
                    if let Some((s, t)) = a.get2_mut(m[i].0, m[j].0) {
                        s.set(x);
                        t.set(y);
                        std::mem::swap(s, t);
                        s.set(x);
                        chk!(c.cx, C09, i != j && ok(t, x) && (T::MASK == 0 || ok(s, x)), "paired references alias");
                        t.set(y);
                        m[i].1 = x;
                        m[j].1 = y;
                    }
                }
            }
            7 => {
                if let (Some(i), Some(j)) = (pick(c.rng, &m), pick(c.rng, &m)) {
                    if a.swap(m[i].0, m[j].0).is_some() {
                        let t = m[i].1;
                        m[i].1 = m[j].1;
                        m[j].1 = t;
                    }
                }
            }
            8 | 9 => {
                // all references at once, used in another order
                let mut v: Vec<(Option<P>, &mut T)> = match c.rng.n(3) {
                    0 => a.iter_mut().map(|(p, t)| (Some(p), t)).collect(),
                    1 => a.vals_mut().map(|t| (None, t)).collect(),
                    _ => (&mut a).into_iter().map(|(p, t)| (Some(p), t)).collect(),
                };
                c.rng.shuffle(&mut v);
                let mut wrote = vec![];
                for (p, t) in v.iter_mut() {
                    let x = c.x + 1;
                    if p.is_some() {
                        c.x += 1;
                        t.set(x);
                        wrote.push((*p, x));
                    } else {
                        let y = t.id();
                        if let Some(y) = y {
                            t.set(y);
                        }
                    }
                }
                for (p, t) in v.iter().rev() {
                    let _ = (p, t.id());
                }
                for (p, x) in wrote {
                    if let Some(e) = m.iter_mut().find(|e| Some(e.0) == p) {
                        e.1 = x;
                    }
                }
            }
            10 => {
                let k = c.rng.n(4);
                for (i, t) in a.vals().enumerate() {
                    let _ = t.id();
                    if i == k {
                        break
                    }
                }
                chk!(c.cx, C09, a.iter().count() == m.len() && (&a).into_iter().count() == m.len() && a.ptrs().count() == m.len(), "iteration is incomplete");
            }
            11 => {
                let k = c.rng.n(m.len() + 2);
                {
                    let mut d = a.drain();
                    let mut got = vec![];
                    for _ in 0..k {
                        match d.next() {
                            Some(x) => got.push(x),
                            None => break,
                        }
                    }
                    drop(d);
                    for (p, t) in got {
                        let e = m.iter().find(|e| e.0 == p);
                        chk!(c.cx, C09, e.is_some_and(|e| ok(&t, e.1)), "drained something else");
                    }
                }
                m.clear();
            }
            12 => {
                let k = c.rng.n(m.len() + 2);
                let b = std::mem::replace(&mut a, Arena::new());
                dead.clear();
                let got: Vec<(P, T)> = if c.rng.p(1, 2) { b.into_iter().take(k).collect() } else { b.capacity_drain().take(k).collect() };
                for (p, t) in got {
                    let e = m.iter().find(|e| e.0 == p);
                    chk!(c.cx, C09, e.is_some_and(|e| ok(&t, e.1)), "drained something else");
                }
                m.clear();
            }
            13 => {
                let b = a.clone();
                if c.rng.p(1, 2) {
                    a = b;
                }
            }
            14 => {
                let mut b: Arena<P, T> = Arena::new();
                for _ in 0..c.rng.n(4) {
                    b.insert(T::mk(0));
                }
                if c.rng.p(1, 2) {
                    b.clone_from(&a);
                } else {
                    b.clone_from_with(&a, |_, t| t.clone());
                }
                if c.rng.p(1, 2) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            15 => {
                let mut new: HMap<P, P> = HMap::default();
                a.compress_and_shrink_with(|p, _, q| {
                    new.insert(p, q);
                });
                for e in m.iter_mut() {
                    chk!(c.cx, C09, new.contains_key(&e.0), "lost in compression");
                    e.0 = new[&e.0];
                }
            }
            16 => {
                let n = c.rng.n(6);
                a.reserve(n);
            }
            17 => {
                if c.rng.p(1, 2) {
                    a.clear();
                } else {
                    a.clear_and_shrink();
                }
                m.clear();
            }
            18 => {
                let k = c.rng.range(1, 3) as u64;
                let mut i = 0;
                let mut gone: Vec<P> = vec![];
                a.remove_by(|p, t| {
                    let _ = t.id();
                    i += 1;
                    let r = i % k == 0;
                    if r {
                        gone.push(p);
                    }
                    r
                });
                m.retain(|e| !gone.contains(&e.0));
            }
            19 => {
                if let Some(i) = pick(c.rng, &m) {
                    let x = c.new_id();
                    match a.replace_and_update_gen(m[i].0, T::mk(x)) {
                        Ok((t, p)) => {
                            chk!(c.cx, C09, ok(&t, m[i].1), "replaced something else");
                            m[i] = (p, x);
                        }
                        Err(_) => chk!(c.cx, C09, false, "not replaced"),
                    }
                }
            }
            20 => {
                if let Some(i) = pick(c.rng, &m) {
                    let x = c.new_id();
                    match a.replace_and_keep_gen(m[i].0, T::mk(x)) {
                        Ok(t) => {
                            chk!(c.cx, C09, ok(&t, m[i].1), "replaced something else");
                            m[i].1 = x;
                        }
                        Err(_) => chk!(c.cx, C09, false, "not replaced"),
                    }
                }
            }
            21 => {
                if let Some(i) = pick(c.rng, &m) {
                    if let Some(p) = a.invalidate(m[i].0) {
                        m[i].0 = p;
                    }
                }
            }
            22 => {
                let mut adv = a.advancer();
                let mut n = 0;
                while let Some(p) = adv.advance(&a) {
                    n += 1;
                    let t = &mut a[p];
                    if let Some(y) = t.id() {
                        t.set(y);
                    }
                    if c.rng.p(1, 5) && n < 20 {
                        let x = c.new_id();
                        m.push((a.insert(T::mk(x)), x));
                    }
                }
            }
            23 => {
                for p in dead.iter().filter(|_| P::HG).take(3) {
                    chk!(c.cx, C09, a.get(*p).is_none() && a.get_mut(*p).is_none() && a.remove(*p).is_none(), "stale Ptr accepted");
                }
            }
            24 => {
                if let Some(i) = pick(c.rng, &m) {
                    let x = c.new_id();
                    let inx = m[i].0.inx();
                    if let Some((_, t)) = a.get_no_gen_mut(inx) {
                        t.set(x);
                        m[i].1 = x;
                    }
                    let _ = (a.get_inx_unwrap(inx).id(), a.get_inx_mut_unwrap(inx).id(), a.get_no_gen(inx).is_some());
                }
            }
            _ => {
                // a recaster is an arena of Ptrs
                let r = a.compress_and_shrink_recaster();
                for e in m.iter_mut() {
                    chk!(c.cx, C09, r.get(e.0).is_some(), "lost in compression");
                    e.0 = r[e.0];
                }
                let _ = format!("{a:?}");
            }
        }
        if let Some(i) = pick(c.rng, &m) {
            let (p, x) = m[i];
            chk!(c.cx, C09, a.get(p).is_some_and(|t| ok(t, x)) && ok(&a[p], x), "{p:?} does not hold {x}");
        }
        chk!(c.cx, C09, a.len() == m.len(), "{} elements instead of {}", a.len(), m.len());
    }
    for (p, x) in &m {
        chk!(c.cx, C09, a.get_mut(*p).is_some_and(|t| ok(t, *x)), "{p:?} does not hold {x}");
    }
    Ok(())
}

macro_rules! chain {
    ($name:ident, $arena:ident, $link:ident, $p:expr) => {
        fn $name<P: TP, T: El>(c: &mut Ctx) -> R {
            let mut a: $arena<P, T> = if c.rng.p(1, 2) { $arena::new() } else { $arena::with_capacity(c.cap()) };
            let mut m: Vec<(P, u64)> = vec![];
            let arg = $p;
            for _ in 0..c.n {
                let mut op = c.rng.n(22);
                if m.len() < 2 && c.rng.p(1, 2) {
                    op = 0;
                }
                c.cx.op(C09, op as u64 ^ (T::MASK ^ T::NAME.len() as u64) << 8, || format!("{} of {} op {op} on {}", stringify!($arena), T::NAME, m.len()));
                let i = pick(c.rng, &m);
                let j = pick(c.rng, &m);
                match op {
                    0..=5 => {
                        let x = c.new_id();
                        let r = match (c.rng.n(7), i) {
                            (0, _) | (_, None) => Ok(a.insert_new(T::mk(x))),
                            (1, _) => Ok(a.insert_new_cyclic(T::mk(x))),
                            (2, Some(i)) => a.insert_start(m[i].0, T::mk(x)),
                            (3, Some(i)) => a.insert_end(m[i].0, T::mk(x)),
                            (4, Some(i)) => a.insert((Some(arg(m[i].0)), None), T::mk(x)),
                            (5, Some(i)) => a.insert((None, Some(arg(m[i].0))), T::mk(x)),
                            (_, Some(_)) => Ok(a.insert_new_with(|_| T::mk(x))),
                        };
                        if let Ok(p) = r {
                            m.push((p, x));
                        }
                    }
                    6 | 7 => {
                        if let Some(i) = i {
                            let (p, x) = m.swap_remove(i);
                            chk!(c.cx, C09, a.remove(p).is_some_and(|l| ok(&l.t, x)), "removed something else than {x}");
                        }
                    }
                    8 => {
                        if let (Some(i), Some(j)) = (i, j) {
                            let (x, y) = (c.new_id(), c.new_id());
                            if let Some((l, k)) = a.get2_link_mut(m[i].0, m[j].0) {
                                l.t.set(x);
                                k.t.set(y);
                                chk!(c.cx, C09, i != j && ok(l.t, x) && ok(k.t, y), "paired references alias");
                                m[i].1 = x;
                                m[j].1 = y;
                            }
                        }
                    }
                    9 => {
                        if let (Some(i), Some(j)) = (i, j) {
                            let _ = a.connect(m[i].0, m[j].0);
                            if a.swap(m[i].0, m[j].0).is_some() {
                                let t = m[i].1;
                                m[i].1 = m[j].1;
                                m[j].1 = t;
                            }
                            let _ = a.exchange_next(m[i].0, m[j].0);
                        }
                    }
                    10 | 11 => {
                        let v: Vec<(Option<P>, &mut T)> = match c.rng.n(3) {
                            0 => a.iter_mut().map(|(p, l)| (Some(p), l.t)).collect(),
                            1 => a.vals_mut().map(|l| (None, l.t)).collect(),
                            _ => (&mut a).into_iter().map(|(p, l)| (Some(p), l.t)).collect(),
                        };
                        let mut wrote: Vec<(P, u64)> = vec![];
                        let mut v = v;
                        c.rng.shuffle(&mut v);
                        for (p, t) in v.iter_mut() {
                            if let Some(p) = p {
                                c.x += 1;
                                t.set(c.x);
                                wrote.push((*p, c.x));
                            } else if let Some(y) = t.id() {
                                t.set(y);
                            }
                        }
                        for (_, t) in v.iter().rev() {
                            let _ = t.id();
                        }
                        for (p, x) in wrote {
                            if let Some(e) = m.iter_mut().find(|e| e.0 == p) {
                                e.1 = x;
                            }
                        }
                    }
                    12 => {
                        if let Some(i) = i {
                            let n = a.iter_chain(arg(m[i].0)).map(|x| x.1.t.id()).count();
                            chk!(c.cx, C09, n > 0 && n <= m.len(), "a chain of {n}");
                        }
                    }
                    13 => {
                        let k = c.rng.n(m.len() + 2);
                        let mut d = a.drain();
                        for _ in 0..k {
                            if let Some((p, l)) = d.next() {
                                let e = m.iter().find(|e| e.0 == p);
                                chk!(c.cx, C09, e.is_some_and(|e| ok(&l.t, e.1)), "drained something else");
                            }
                        }
                        drop(d);
                        m.clear();
                    }
                    14 => {
                        let b = a.clone();
                        if c.rng.p(1, 2) {
                            a = b;
                        } else {
                            let mut d: $arena<P, T> = $arena::new();
                            d.insert_new(T::mk(0));
                            d.clone_from_with(&b, |_, l| l.t.clone());
                            a.clone_from(&d);
                        }
                    }
                    15 => {
                        let mut new: HMap<P, P> = HMap::default();
                        a.compress_and_shrink_with(|p, _, q| {
                            new.insert(p, q);
                        });
                        for e in m.iter_mut() {
                            chk!(c.cx, C09, new.contains_key(&e.0), "lost in compression");
                            e.0 = new[&e.0];
                        }
                    }
                    16 => {
                        if let Some(i) = i {
                            let n = a.remove_chain(m[i].0);
                            m.retain(|e| a.contains(e.0));
                            chk!(c.cx, C09, n.is_some() && a.len() == m.len(), "remove_chain");
                        }
                    }
                    17 => {
                        if let Some(i) = i {
                            let x = c.new_id();
                            match a.replace_and_update_gen(m[i].0, T::mk(x)) {
                                Ok((t, p)) => {
                                    chk!(c.cx, C09, ok(&t, m[i].1), "replaced something else");
                                    m[i] = (p, x);
                                }
                                Err(_) => chk!(c.cx, C09, false, "not replaced"),
                            }
                        }
                    }
                    18 => {
                        if c.rng.p(1, 3) {
                            a.clear();
                            m.clear();
                        } else {
                            let n = c.rng.n(5);
                            a.reserve(n);
                        }
                    }
                    19 => {
                        if let Some(i) = i {
                            let x = c.new_id();
                            a.get_mut(m[i].0).unwrap().set(x);
                            m[i].1 = x;
                            let _ = a.get_link_mut(m[i].0).unwrap().t.id();
                            let _ = a.get_no_gen_mut(m[i].0.inx()).unwrap().1.t.id();
                        }
                    }
                    20 => {
                        let mut b: Arena<P, T> = Arena::new();
                        a.clone_to_arena(&mut b, |_, l| l.t.clone());
                        chk!(c.cx, C09, b.len() == a.len(), "clone_to_arena");
                        let mut d: Arena<P, $link<P, T>> = Arena::new();
                        a.clone_to_arena(&mut d, |_, l| l.clone());
                        a = $arena::from_arena(d).unwrap();
                    }
                    _ => {
                        if let Some(i) = i {
                            let mut adv = a.advancer_chain(arg(m[i].0));
                            while let Some(p) = adv.advance(&a) {
                                let _ = (p, c.rng.u());
                            }
                        }
                        let mut adv = a.advancer();
                        while let Some(p) = adv.advance(&a) {
                            if c.rng.p(1, 4) {
                                let _ = a.break_next(p);
                            }
                            let t = &mut a[p];
                            if let Some(y) = t.id() {
                                t.set(y);
                            }
                        }
                    }
                }
                if let Some(i) = pick(c.rng, &m) {
                    let (p, x) = m[i];
                    chk!(c.cx, C09, a.get(p).is_some_and(|t| ok(t, x)), "{p:?} does not hold {x}");
                }
                chk!(c.cx, C09, a.len() == m.len(), "{} elements instead of {}", a.len(), m.len());
            }
            Ok(())
        }
    };
}
chain!(chain_gen, ChainArena, Link, |p: P| p);
chain!(chain_nogen, ChainNoGenArena, LinkNoGen, |p: P| p.inx());

fn surject<P: TP, K: El, V: El>(c: &mut Ctx) -> R {
    let mut a: SurjectArena<P, K, V> = if c.rng.p(1, 2) { SurjectArena::new() } else { SurjectArena::with_capacity(c.cap(), c.cap()) };
    let mut m: Vec<(P, u64)> = vec![];
    for _ in 0..c.n {
        let mut op = c.rng.n(20);
        if m.len() < 2 && c.rng.p(1, 2) {
            op = 0;
        }
        c.cx.op(C09, op as u64 ^ (K::MASK ^ V::MASK ^ (K::NAME.len() * 64 + V::NAME.len()) as u64) << 8, || format!("surject arena of {} and {} op {op} on {}", K::NAME, V::NAME, m.len()));
        let i = pick(c.rng, &m);
        let j = pick(c.rng, &m);
        let x = c.new_id();
        match op {
            0..=2 => m.push((a.insert(K::mk(x), V::mk(x)), x)),
            3..=5 => {
                if let Some(i) = i {
                    if let Ok(p) = a.insert_key(m[i].0, K::mk(x)) {
                        m.push((p, x));
                    }
                }
            }
            6 | 7 => {
                if let (Some(i), Some(j)) = (i, j) {
                    if let Some((v, _)) = a.union(m[i].0, m[j].0) {
                        let _ = v.id();
                    }
                }
            }
            8 => {
                if let Some(i) = i {
                    let (p, x) = m.swap_remove(i);
                    chk!(c.cx, C09, a.remove_key(p).is_some_and(|(k, v)| ok(&k, x) && v.is_none_or(|v| v.id().is_some() || V::MASK == 0)), "removed something else than {x}");
                }
            }
            9 => {
                if let Some(i) = i {
                    let _ = a.remove(m[i].0).map(|v| v.id());
                    m.retain(|e| a.contains(e.0));
                }
            }
            10 => {
                if let (Some(i), Some(j)) = (i, j) {
                    let y = c.new_id();
                    if let Some(((k0, v0), (k1, v1))) = a.get2_mut(m[i].0, m[j].0) {
                        k0.set(x);
                        k1.set(y);
                        v0.set(x);
                        v1.set(y);
                        chk!(c.cx, C09, i != j && ok(k0, x) && ok(v0, x) && ok(k1, y) && ok(v1, y), "paired references alias");
                        m[i].1 = x;
                        m[j].1 = y;
                    } else if let Some((k0, k1)) = a.get2_key_mut(m[i].0, m[j].0) {
                        k0.set(x);
                        k1.set(y);
                        chk!(c.cx, C09, i != j && ok(k0, x) && ok(k1, y), "paired references alias");
                        m[i].1 = x;
                        m[j].1 = y;
                    }
                    if let Some((v0, v1)) = a.get2_val_mut(m[i].0, m[j].0) {
                        v0.set(x);
                        v1.set(y);
                        chk!(c.cx, C09, ok(v0, x) && ok(v1, y), "paired references alias");
                    }
                }
            }
            11 => {
                if let (Some(i), Some(j)) = (i, j) {
                    let _ = a.swap_vals(m[i].0, m[j].0);
                    if a.swap_keys(m[i].0, m[j].0).is_some() {
                        let t = m[i].1;
                        m[i].1 = m[j].1;
                        m[j].1 = t;
                    }
                }
            }
            12 => {
                let mut v: Vec<&mut K> = a.keys_mut().collect();
                c.rng.shuffle(&mut v);
                for k in v.iter_mut() {
                    if let Some(y) = k.id() {
                        k.set(y);
                    }
                }
                for k in v.iter().rev() {
                    let _ = k.id();
                }
            }
            13 => {
                let mut v: Vec<&mut V> = a.vals_mut().collect();
                c.rng.shuffle(&mut v);
                for t in v.iter_mut() {
                    t.set(c.x);
                }
                for t in v.iter().rev() {
                    chk!(c.cx, C09, ok(*t, c.x), "mutable references alias");
                }
            }
            14 => {
                let n = a.iter().map(|(_, k, v)| (k.id(), v.id())).count();
                chk!(c.cx, C09, n == m.len(), "iteration is incomplete");
                if let Some(i) = i {
                    let n = a.iter_surject(m[i].0).map(|(_, k, v)| (k.id(), v.id())).count();
                    chk!(c.cx, C09, n <= m.len() && n > 0, "iteration of a set");
                }
                let _ = format!("{a:?}");
            }
            15 => {
                let b = a.clone();
                if c.rng.p(1, 2) {
                    a.clone_from(&b);
                } else {
                    let mut d: SurjectArena<P, K, V> = SurjectArena::new();
                    d.insert(K::mk(0), V::mk(0));
                    d.clone_from_with(&a, |_, k| k.clone(), |_, v| v.clone());
                    a = d;
                }
            }
            16 => {
                let mut new: HMap<P, P> = HMap::default();
                a.compress_and_shrink_with(|p, _, _, q| {
                    new.insert(p, q);
                });
                for e in m.iter_mut() {
                    chk!(c.cx, C09, new.contains_key(&e.0), "lost in compression");
                    e.0 = new[&e.0];
                }
            }
            17 => {
                if c.rng.p(1, 3) {
                    a.clear();
                    m.clear();
                } else {
                    a.reserve_keys(c.rng.n(5));
                    a.reserve_vals(c.rng.n(5));
                }
            }
            18 => {
                if let Some(i) = i {
                    let mut adv = a.advancer_surject(m[i].0);
                    while let Some(p) = adv.advance(&a) {
                        if let Some((k, v)) = a.get_mut(p) {
                            let (y, z) = (k.id(), v.id());
                            y.map(|y| k.set(y));
                            z.map(|z| v.set(z));
                        }
                    }
                }
            }
            _ => {
                if let Some(i) = i {
                    if let Some(p) = a.invalidate(m[i].0) {
                        m[i].0 = p;
                    }
                }
            }
        }
        if let Some(i) = pick(c.rng, &m) {
            let (p, x) = m[i];
            chk!(c.cx, C09, a.get_key(p).is_some_and(|t| ok(t, x)), "{p:?} does not hold {x}");
        }
        chk!(c.cx, C09, a.len_keys() == m.len(), "{} keys instead of {}", a.len_keys(), m.len());
    }
    Ok(())
}

fn ord<P: TP, V: El, K: El>(c: &mut Ctx) -> R {
    let mut a: OrdArena<P, K, V> = if c.rng.p(1, 2) { OrdArena::new() } else { OrdArena::with_capacity(c.cap()) };
    let mut m: Vec<(P, u64)> = vec![];
    for _ in 0..c.n {
        let mut op = c.rng.n(18);
        if m.len() < 3 && c.rng.p(1, 2) {
            op = 0;
        }
        c.cx.op(C09, op as u64 ^ (K::MASK ^ V::MASK ^ (K::NAME.len() * 64 + V::NAME.len()) as u64) << 8, || format!("ordered arena of {} and {} op {op} on {}", K::NAME, V::NAME, m.len()));
        let i = pick(c.rng, &m);
        let j = pick(c.rng, &m);
        let x = c.new_id();
        match op {
            0..=4 => {
                let k = K::mk(c.rng.n(40) as u64);
                if c.rng.p(1, 2) {
                    m.push((a.insert_nonhereditary(k, V::mk(x)), x));
                } else {
                    let (p, old) = a.insert(k, V::mk(x));
                    match old {
                        Some((k, v)) => {
                            let _ = k.id();
                            let e = m.iter_mut().find(|e| e.0 == p);
                            chk!(c.cx, C09, e.as_ref().is_some_and(|e| ok(&v, e.1)), "displaced something else");
                            if let Some(e) = e {
                                e.1 = x;
                            }
                        }
                        None => m.push((p, x)),
                    }
                }
            }
            5 | 6 => {
                if let Some(i) = i {
                    let (p, x) = m.swap_remove(i);
                    chk!(c.cx, C09, a.remove(p).is_some_and(|(_, v)| ok(&v, x)), "removed something else than {x}");
                }
            }
            7 => {
                if let (Some(i), Some(j)) = (i, j) {
                    let y = c.new_id();
                    if let Some((s, t)) = a.get2_val_mut(m[i].0, m[j].0) {
                        s.set(x);
                        t.set(y);
                        chk!(c.cx, C09, i != j && ok(s, x) && ok(t, y), "paired references alias");
                        m[i].1 = x;
                        m[j].1 = y;
                    }
                    if a.swap_vals(m[i].0, m[j].0).is_some() {
                        let t = m[i].1;
                        m[i].1 = m[j].1;
                        m[j].1 = t;
                    }
                }
            }
            8 | 9 => {
                let mut v: Vec<&mut V> = a.vals_mut().collect();
                c.rng.shuffle(&mut v);
                for t in v.iter_mut() {
                    t.set(x);
                }
                for t in v.iter().rev() {
                    chk!(c.cx, C09, ok(*t, x), "mutable references alias");
                }
                drop(v);
                for e in m.iter_mut() {
                    e.1 = x;
                }
            }
            10 => {
                let k = K::mk(c.rng.n(40) as u64);
                let _ = (a.find_key(&k), a.find_similar_key(&k));
                if let Some(i) = i {
                    let _ = a.find_key_linear(m[i].0, 2, &k);
                    let _ = a.get_link(m[i].0).unwrap().t.1.id();
                }
                let n = a.iter().map(|(_, k, v)| (k.id(), v.id())).count();
                chk!(c.cx, C09, n == m.len() && a.keys().count() == n && a.vals().count() == n, "iteration is incomplete");
            }
            11 => {
                let k = c.rng.n(m.len() + 2);
                let mut d = a.drain();
                for _ in 0..k {
                    if let Some((p, k, v)) = d.next() {
                        let _ = k.id();
                        let e = m.iter().find(|e| e.0 == p);
                        chk!(c.cx, C09, e.is_some_and(|e| ok(&v, e.1)), "drained something else");
                    }
                }
                drop(d);
                m.clear();
            }
            12 => {
                let b = a.clone();
                if c.rng.p(1, 2) {
                    a = b;
                } else {
                    let mut d: OrdArena<P, K, V> = OrdArena::new();
                    let _ = d.insert(K::mk(0), V::mk(0));
                    d.clone_from_with(&b, |_, v| v.clone());
                    a.clone_from(&d);
                }
            }
            13 => {
                let mut new: HMap<P, P> = HMap::default();
                a.compress_and_shrink_with(|p, _, _, q| {
                    new.insert(p, q);
                });
                for e in m.iter_mut() {
                    chk!(c.cx, C09, new.contains_key(&e.0), "lost in compression");
                    e.0 = new[&e.0];
                }
            }
            14 => {
                if c.rng.p(1, 3) {
                    a.clear_and_shrink();
                    m.clear();
                } else {
                    a.reserve(c.rng.n(5));
                }
            }
            15 => {
                if let Some(i) = i {
                    match a.replace_val_and_update_gen(m[i].0, V::mk(x)) {
                        Ok((v, p)) => {
                            chk!(c.cx, C09, ok(&v, m[i].1), "replaced something else");
                            m[i] = (p, x);
                        }
                        Err(_) => chk!(c.cx, C09, false, "not replaced"),
                    }
                }
            }
            16 => {
                let mut b: ChainArena<P, V> = ChainArena::new();
                a.clone_to_chain_arena(&mut b, |_, _, v| v.clone());
                let n = b.iter().map(|(_, l)| l.t.id()).count();
                chk!(c.cx, C09, n == m.len(), "clone_to_chain_arena");
            }
            _ => {
                let mut adv = a.advancer();
                while let Some(p) = adv.advance(&a) {
                    if let Some((k, v)) = a.get_mut(p) {
                        let _ = k.id();
                        if let Some(y) = v.id() {
                            v.set(y);
                        }
                    }
                }
                let b = std::mem::replace(&mut a, OrdArena::new());
                let mut n = 0;
                for (p, _, v) in b {
                    n += 1;
                    let e = m.iter().find(|e| e.0 == p);
                    chk!(c.cx, C09, e.is_some_and(|e| ok(&v, e.1)), "consumed something else");
                    if n == 4 {
                        break
                    }
                }
                m.clear();
            }
        }
        if let Some(i) = pick(c.rng, &m) {
            let (p, x) = m[i];
            chk!(c.cx, C09, a.get_val(p).is_some_and(|t| ok(t, x)), "{p:?} does not hold {x}");
        }
        chk!(c.cx, C09, a.len() == m.len(), "{} entries instead of {}", a.len(), m.len());
    }
    Ok(())
}

type SV = (String, Vec<u16>);

macro_rules! by_type {
    ($c:expr, $f:ident $(, $k:ty)*) => {
        match $c.rng.n(10) {
            0 => $f::<P, Zst $(, $k)*>($c),
            1 => $f::<P, ZstD $(, $k)*>($c),
            2 => $f::<P, u8 $(, $k)*>($c),
            3 => $f::<P, u64 $(, $k)*>($c),
            4 => $f::<P, [u8; 3] $(, $k)*>($c),
            5 => $f::<P, Al $(, $k)*>($c),
            6 => $f::<P, Box<u64> $(, $k)*>($c),
            7 => $f::<P, SV $(, $k)*>($c),
            8 => $f::<P, [u64; 33] $(, $k)*>($c),
            _ => $f::<P, Option<Box<bool>> $(, $k)*>($c),
        }
    };
}

/// what auto traits a type has, found by method resolution
struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait Without {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Without for Probe<T> {}
struct ProbeSend<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> Without for ProbeSend<T> {}
impl<T: ?Sized + Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}

/// Containers of elements that must stay on one thread must stay there themselves, otherwise safe
/// code could make data races.
fn thread_safety(cx: &mut Cx) -> R {
    use std::{cell::Cell, rc::Rc, sync::MutexGuard};
    macro_rules! confined {
        ($($t:ty),*) => {
            $(
                chk!(cx, C09, !ProbeSend::<$t>::SEND, "{} is Send", stringify!($t));
                chk!(cx, C09, !Probe::<$t>::SYNC, "{} is Sync", stringify!($t));
            )*
        };
    }
    macro_rules! half {
        ($($t:ty),*) => {
            $(
                chk!(cx, C09, !Probe::<$t>::SYNC, "{} is Sync", stringify!($t));
            )*
        };
    }
    macro_rules! guard {
        ($($t:ty),*) => {
            $(
                chk!(cx, C09, !ProbeSend::<$t>::SEND, "{} is Send", stringify!($t));
            )*
        };
    }
    type Rcu = Rc<u8>;
    type Cel = Cell<u8>;
    type Grd = MutexGuard<'static, u8>;
    confined!(
        Arena<PA, Rcu>,
        ChainArena<PA, Rcu>,
        ChainNoGenArena<PA, Rcu>,
        SurjectArena<PA, Rcu, u8>,
        SurjectArena<PA, u8, Rcu>,
        OrdArena<PA, Rcu, u8>,
        OrdArena<PA, u8, Rcu>,
        Link<PA, Rcu>,
        LinkNoGen<PA, Rcu>,
        triple_arena::arena_iterators::Iter<'static, PA, Rcu>,
        triple_arena::arena_iterators::IterMut<'static, PA, Rcu>,
        triple_arena::arena_iterators::Drain<'static, PA, Rcu>,
        triple_arena::arena_iterators::CapacityDrain<PA, Rcu>
    );
    half!(
        Arena<PA, Cel>,
        ChainArena<PA, Cel>,
        ChainNoGenArena<PA, Cel>,
        SurjectArena<PA, Cel, u8>,
        SurjectArena<PA, u8, Cel>,
        OrdArena<PA, Cel, u8>,
        OrdArena<PA, u8, Cel>
    );
    guard!(
        Arena<PA, Grd>,
        ChainArena<PA, Grd>,
        ChainNoGenArena<PA, Grd>,
        SurjectArena<PA, Grd, u8>,
        SurjectArena<PA, u8, Grd>,
        OrdArena<PA, Grd, u8>,
        OrdArena<PA, u8, Grd>
    );
    // the probes work
    assert!(ProbeSend::<Box<u8>>::SEND && Probe::<Box<u8>>::SYNC);
    cx.ev(C09, "thread_confinement_checked");
    Ok(())
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    ALIVE.with(|x| x.set(0));
    thread_safety(cx)?;
    let n = if cx.miri { rng.range(4, 24) } else { rng.range(4, 50) };
    let kind = rng.n(8);
    let a0 = crate::alloc::live();
    {
        let mut c = Ctx {
            cx,
            rng,
            x: 0,
            n,
        };
        let c = &mut c;
        match kind {
            0 | 1 => by_type!(c, arena),
            2 => by_type!(c, chain_gen),
            3 => by_type!(c, chain_nogen),
            4 => by_type!(c, surject, Al),
            5 => match c.rng.n(3) {
                0 => surject::<P, Zst, Box<u64>>(c),
                1 => surject::<P, u8, Al>(c),
                _ => surject::<P, SV, ZstD>(c),
            },
            6 => by_type!(c, ord, u8),
            _ => match c.rng.n(3) {
                0 => ord::<P, Zst, SV>(c),
                1 => ord::<P, Al, Box<u64>>(c),
                _ => ord::<P, u8, [u8; 3]>(c),
            },
        }?;
    }
    let left = ALIVE.with(|x| x.get());
    chk!(cx, C09 | C08, left == 0, "{left} elements are left over");
    let a1 = crate::alloc::live();
    // the trace allocates
    chk!(cx, C09, cx.tracing || a1 == a0, "{} blocks of memory are left over", a1 - a0);
    cx.ev(C09, "layout_case_completed");
    cx.ev(C08, "values_accounted");
    cx.poll()
}
