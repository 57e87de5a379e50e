//! Engine for size: few operations, each on arenas with hundreds to some hundred thousand elements,
//! chains and key sets, compared completely with plain lists and maps
use std::collections::BTreeMap;

use triple_arena::{utils::ChainNoGenArena, Advancer, Arena, ChainArena, OrdArena, Ptr, SurjectArena};

use crate::{cx::*, ptrs::*, rng::*};

fn size(cx: &Cx, rng: &mut Rng) -> usize {
    let t = [260, 520, 1030, 2060, 4100, 8200, 17000, 33000, 66000, 133000];
    let w: [u32; 10] = if cx.miri {
        [1, 0, 0, 0, 0, 0, 0, 0, 0, 0]
    } else {
        [3, 3, 4, 4, 4, 3, 2, 2, 2, 1]
    };
    let n = t[rng.weighted(&w)];
    n + rng.n(n / 8 + 1)
}

/// Ptrs that are no longer valid, of the newest arena that knows them
struct Dead<P> {
    v: Vec<P>,
    n: usize,
}

impl<P: TP> Dead<P> {
    fn new() -> Self {
        Dead { v: vec![], n: 0 }
    }

    fn kill(&mut self, p: P) {
        self.n += 1;
        if self.v.len() < 3000 {
            self.v.push(p);
        } else if self.n % 7 == 0 {
            let i = (self.n / 7) % 3000;
            self.v[i] = p;
        }
    }

    fn check(&self, cx: &mut Cx, what: &str, contains: impl Fn(P) -> bool) -> R {
        if P::HG {
            for p in &self.v {
                chk!(cx, C01, !contains(*p), "{what}: the stale {p:?} is accepted");
            }
            cx.ev(C01, "stale_rejected_at_scale");
        }
        Ok(())
    }
}

fn gen_is<P: TP>(cx: &mut Cx, what: &str, op: &str, old: u128, new: u128, d: u128) -> R {
    if P::HG {
        chks!(cx, C23, new == old + d, "{what}: generation went from {old} to {new} in {op}");
        cx.ev(C23, "generation_at_scale");
    }
    Ok(())
}

fn cap_ins(cx: &mut Cx, what: &str, c0: usize, c1: usize, full: bool) -> R {
    if full {
        chks!(cx, C18, c1 > c0 && c1 <= (4 * c0).max(64), "{what}: capacity grew from {c0} to {c1}");
    } else {
        chks!(cx, C18, c1 == c0, "{what}: capacity went from {c0} to {c1} although there was room");
    }
    cx.ev(C18, "capacity_at_scale");
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn arena_full<P: TP>(cx: &mut Cx, a: &Arena<P, u64>, m: &HMap<P, u64>, what: &str, t: Tags) -> R {
    chk!(cx, C02 | t, a.len() == m.len() && a.is_empty() == m.is_empty(), "arena: len {} instead of {} after {what}", a.len(), m.len());
    for (p, v) in m {
        chk!(cx, C01 | C02 | t, a.get(*p) == Some(v), "arena: {p:?} is {:?} instead of {v} after {what}", a.get(*p));
    }
    let mut n = 0;
    for (p, v) in a.iter() {
        n += 1;
        chk!(cx, C11 | C02 | t, m.get(&p) == Some(v), "arena: the iterator gives {p:?} with {v} after {what}");
    }
    chk!(cx, C11 | C02 | t, n == m.len(), "arena: the iterator gives {n} of {} elements after {what}", m.len());
    if let Err(e) = Arena::_check_invariants(a) {
        chk!(cx, C02 | t, false, "arena: {e} after {what}");
    }
    cx.ev(C02 | C11 | t, "compared_at_scale");
    cx.state(h(&(1, a.len(), a.capacity(), P::gnum(a.generation()))));
    Ok(())
}

fn arena<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    let mut a: Arena<P, u64> = Arena::new();
    let mut m: HMap<P, u64> = HMap::default();
    let mut dead = Dead::<P>::new();
    let mut x = 0u64;
    for step in 0..rng.range(4, 9) {
        let k = if step == 0 { 0 } else { rng.n(11) };
        let g0 = P::gnum(a.generation());
        let c0 = a.capacity();
        cx.op(C02, mix2(k as u64, n as u64), || format!("arena: operation {k} with {} elements, capacity {c0}", m.len()));
        match k {
            0 | 1 => {
                let to = if k == 0 { n } else { n + rng.n(n / 4 + 1) };
                while m.len() < to {
                    x += 1;
                    let (c, full) = (a.capacity(), a.len() == a.capacity());
                    let p = match rng.n(3) {
                        0 => a.insert_with(|_| x),
                        _ => a.insert(x),
                    };
                    cap_ins(cx, "arena", c, a.capacity(), full)?;
                    chk!(cx, C01 | C02, m.insert(p, x).is_none(), "arena: {p:?} was handed out although it is in use");
                    chks!(cx, C23, !P::HG || p.g() == g0, "arena: {p:?} was issued in generation {g0}");
                }
                gen_is::<P>(cx, "arena", "insertions", g0, P::gnum(a.generation()), 0)?;
                arena_full(cx, &a, &m, "insertions", 0)?;
            }
            2 => {
                let mut v: Vec<P> = m.keys().copied().collect();
                v.sort();
                rng.shuffle(&mut v);
                v.truncate(*rng.pick(&[v.len() / 2, v.len() / 10, v.len().saturating_sub(3), 300.min(v.len())]));
                for p in &v {
                    let r = a.remove(*p);
                    chk!(cx, C02, r == m.remove(p), "arena: removing {p:?} gives {r:?}");
                    dead.kill(*p);
                }
                gen_is::<P>(cx, "arena", "removals", g0, P::gnum(a.generation()), v.len() as u128)?;
                chks!(cx, C18, a.capacity() == c0, "arena: removals changed the capacity from {c0} to {}", a.capacity());
                arena_full(cx, &a, &m, "removals", 0)?;
            }
            3 => {
                let (d, r) = (rng.n(5) as u64 + 2, rng.n(2) as u64);
                a.remove_by(|_, v| *v % d == r);
                m.retain(|p, v| {
                    if *v % d == r {
                        dead.kill(*p);
                        false
                    } else {
                        true
                    }
                });
                gen_is::<P>(cx, "arena", "remove_by", g0, P::gnum(a.generation()), 1)?;
                arena_full(cx, &a, &m, "remove_by", 0)?;
            }
            4 => {
                let b = a.clone();
                arena_full(cx, &b, &m, "cloning", C12)?;
                chk!(cx, C19, a == b, "arena: a clone is not equal");
                if rng.p(1, 2) {
                    a = b;
                } else if let Some((p, _)) = m.iter().next() {
                    let mut b = b;
                    *b.get_mut(*p).unwrap() += 1;
                    chk!(cx, C19, a != b, "arena: arenas that differ in one element are equal");
                }
                cx.ev(C19, "compared_arenas_at_scale");
            }
            5 => {
                let mut b: Arena<P, u64> = Arena::new();
                for i in 0..rng.n(2 * n) {
                    b.insert(i as u64);
                }
                let cb = b.capacity();
                if rng.p(1, 2) {
                    b.clone_from(&a);
                } else {
                    b.clone_from_with(&a, |_, v| *v);
                }
                chks!(cx, C18 | C12, b.capacity() <= cb.max(c0), "arena: cloning into {cb} from {c0} gives capacity {}", b.capacity());
                arena_full(cx, &b, &m, "cloning into", C12)?;
                a = b;
            }
            6 => {
                let mut map: Vec<(P, u64, P)> = vec![];
                a.compress_and_shrink_with(|p, v, q| map.push((p, *v, q)));
                chk!(cx, C13, map.len() == m.len(), "arena: compression reported {} of {} elements", map.len(), m.len());
                let mut m2 = HMap::default();
                for (p, v, q) in &map {
                    chk!(cx, C13, m.remove(p) == Some(*v), "arena: compression reported {p:?} with {v}");
                    chk!(cx, C13, m2.insert(*q, *v).is_none(), "arena: compression reported the new {q:?} twice");
                    dead.kill(*p);
                }
                m = m2;
                chks!(cx, C13 | C18, a.capacity() == a.len(), "arena: capacity {} for {} after compression", a.capacity(), a.len());
                gen_is::<P>(cx, "arena", "compression", g0, P::gnum(a.generation()), 1)?;
                arena_full(cx, &a, &m, "compression", C13)?;
            }
            7 => {
                let t = (*rng.pick(&[0, 1, m.len() / 2, m.len()])).min(m.len());
                let mut d = a.drain();
                for _ in 0..t {
                    let r = d.next();
                    let ok = r.is_some_and(|(p, v)| m.remove(&p) == Some(v));
                    chk!(cx, C11, ok, "arena: the drain gave {r:?}");
                    dead.kill(r.unwrap().0);
                }
                drop(d);
                for p in m.keys() {
                    dead.kill(*p);
                }
                m.clear();
                chks!(cx, C11 | C18, a.capacity() == c0, "arena: a drain changed the capacity from {c0} to {}", a.capacity());
                arena_full(cx, &a, &m, "draining", C11)?;
            }
            8 => {
                // removes behind, ahead and itself
                let mut v: Vec<P> = m.keys().copied().collect();
                v.sort();
                let mut adv = a.advancer();
                let mut seen: HSet<P> = HSet::default();
                let mut gone: HSet<P> = HSet::default();
                while let Some(p) = adv.advance(&a) {
                    chk!(cx, C10, m.contains_key(&p), "arena: the advancer gave {p:?}");
                    chk!(cx, C10, seen.insert(p), "arena: the advancer gave {p:?} twice");
                    if rng.p(1, 3) {
                        let q = *rng.pick(&v);
                        if m.remove(&q).is_some() {
                            a.remove(q);
                            dead.kill(q);
                            gone.insert(q);
                        }
                    }
                }
                for p in &v {
                    chk!(cx, C10, gone.contains(p) || seen.contains(p), "arena: the advancer left {p:?} out");
                }
                cx.ev(C10, "advanced_at_scale");
                arena_full(cx, &a, &m, "an advancer loop", C10)?;
            }
            9 => {
                let v: Vec<P> = m.keys().copied().collect();
                for _ in 0..v.len().min(500) {
                    let (p, q) = (*rng.pick(&v), *rng.pick(&v));
                    let (x, y) = (m[&p], m[&q]);
                    chk!(cx, C02, a.swap(p, q).is_some(), "arena: swapping {p:?} and {q:?} failed");
                    m.insert(p, y);
                    m.insert(q, x);
                }
                arena_full(cx, &a, &m, "swaps", 0)?;
            }
            _ => {
                #[cfg(feature = "serde")]
                if m.len() < 40_000 {
                    let s = serde_json::to_string(&a).unwrap();
                    let r: Result<Arena<P, u64>, _> = serde_json::from_str(&s);
                    chk!(cx, C14, r.is_ok(), "arena: {} elements do not deserialize: {:?}", m.len(), r.as_ref().err());
                    let b = r.unwrap();
                    chk!(cx, C14, b.len() == m.len(), "arena: {} of {} elements after a round trip", b.len(), m.len());
                    for (p, v) in &m {
                        let q = P::make(p.i(), 2);
                        chk!(cx, C14, b.get(q) == Some(v), "arena: {q:?} is {:?} instead of {v} after a round trip", b.get(q));
                    }
                    cx.ev(C14, "round_trip_at_scale");
                }
            }
        }
        dead.check(cx, "arena", |p| a.contains(p))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

trait Lk<P: TP>: Clone + PartialEq {
    const NAME: &'static str;
    fn make() -> Self;
    fn count(&self) -> usize;
    fn caps(&self) -> usize;
    fn gener(&self) -> u128;
    fn has(&self, p: P) -> bool;
    fn ins_new(&mut self, x: u64) -> P;
    fn ins_end(&mut self, p: P, x: u64) -> Option<P>;
    fn ins_start(&mut self, p: P, x: u64) -> Option<P>;
    fn ins_after(&mut self, p: P, x: u64) -> Option<P>;
    fn val(&self, p: P) -> Option<u64>;
    fn pn(&self, p: P) -> Option<(Option<usize>, Option<usize>)>;
    fn rem(&mut self, p: P) -> Option<u64>;
    fn rem_chain(&mut self, p: P) -> Option<usize>;
    fn conn(&mut self, p: P, q: P) -> bool;
    fn brk(&mut self, p: P) -> bool;
    fn exch(&mut self, p: P, q: P) -> bool;
    fn compress(&mut self) -> Vec<(P, u64, P)>;
    fn walk(&self, p: P, max: usize) -> Vec<P>;
    fn all(&self) -> Vec<(P, u64)>;
    fn copy_into(&self, o: &mut Self);
    fn inv(&self) -> Result<(), &'static str>;
    #[cfg(feature = "serde")]
    fn trip(&self) -> Result<Self, String>;
}

macro_rules! lk {
    ($t:ident, $name:literal, |$p:ident| $inx:expr, |$q:ident| $num:expr) => {
        impl<P: TP> Lk<P> for $t<P, u64> {
            const NAME: &'static str = $name;
            fn make() -> Self { $t::new() }
            fn count(&self) -> usize { self.len() }
            fn caps(&self) -> usize { self.capacity() }
            fn gener(&self) -> u128 { P::gnum(self.generation()) }
            fn has(&self, p: P) -> bool { self.contains(p) }
            fn ins_new(&mut self, x: u64) -> P { self.insert_new(x) }
            fn ins_end(&mut self, p: P, x: u64) -> Option<P> { self.insert_end(p, x).ok() }
            fn ins_start(&mut self, p: P, x: u64) -> Option<P> { self.insert_start(p, x).ok() }
            fn ins_after(&mut self, $p: P, x: u64) -> Option<P> { self.insert((Some($inx), None), x).ok() }
            fn val(&self, p: P) -> Option<u64> { self.get(p).copied() }
            fn pn(&self, p: P) -> Option<(Option<usize>, Option<usize>)> {
                self.get_link(p).map(|l| (l.prev().map(|$q| $num), l.next().map(|$q| $num)))
            }
            fn rem(&mut self, p: P) -> Option<u64> { self.remove(p).map(|l| l.t) }
            fn rem_chain(&mut self, p: P) -> Option<usize> { self.remove_chain(p) }
            fn conn(&mut self, p: P, q: P) -> bool { self.connect(p, q).is_some() }
            fn brk(&mut self, p: P) -> bool { self.break_next(p).is_some() }
            fn exch(&mut self, p: P, q: P) -> bool { self.exchange_next(p, q).is_some() }
            fn compress(&mut self) -> Vec<(P, u64, P)> {
                let mut v = vec![];
                self.compress_and_shrink_with(|p, x, q| v.push((p, *x, q)));
                v
            }
            fn walk(&self, $p: P, max: usize) -> Vec<P> {
                let mut v = vec![];
                let mut adv = self.advancer_chain($inx);
                while let Some(p) = adv.advance(self) {
                    v.push(p);
                    if v.len() > max {
                        break
                    }
                }
                v
            }
            fn all(&self) -> Vec<(P, u64)> { self.iter().map(|(p, l)| (p, l.t)).collect() }
            fn copy_into(&self, o: &mut Self) { o.clone_from(self) }
            fn inv(&self) -> Result<(), &'static str> { $t::_check_invariants(self) }
            #[cfg(feature = "serde")]
            fn trip(&self) -> Result<Self, String> {
                serde_json::from_str(&serde_json::to_string(self).unwrap()).map_err(|e| e.to_string())
            }
        }
    };
}
lk!(ChainArena, "chain", |p| p, |q| q.i());
lk!(ChainNoGenArena, "chain_nogen", |p| p.inx(), |q| P::Inx::get(q).get());

use triple_arena::utils::PtrInx;

struct Ch<P> {
    l: Vec<(P, u64)>,
    cyclic: bool,
}

fn chain_full<P: TP, A: Lk<P>>(cx: &mut Cx, a: &A, cs: &[Ch<P>], what: &str, t: Tags) -> R {
    let n: usize = cs.iter().map(|c| c.l.len()).sum();
    chk!(cx, C03 | t, a.count() == n, "{}: len {} instead of {n} after {what}", A::NAME, a.count());
    for c in cs {
        let k = c.l.len();
        for (i, (p, x)) in c.l.iter().enumerate() {
            chk!(cx, C01 | C03 | t, a.val(*p) == Some(*x), "{}: {p:?} is {:?} instead of {x} after {what}", A::NAME, a.val(*p));
            let prev = if i > 0 { Some(c.l[i - 1].0.i()) } else if c.cyclic { Some(c.l[k - 1].0.i()) } else { None };
            let next = if i + 1 < k { Some(c.l[i + 1].0.i()) } else if c.cyclic { Some(c.l[0].0.i()) } else { None };
            let r = a.pn(*p);
            chk!(cx, C03 | t, r == Some((prev, next)), "{}: link {i} of {k} has the interlinks {r:?} instead of {:?} after {what}", A::NAME, (prev, next));
        }
    }
    if let Err(e) = a.inv() {
        chk!(cx, C03 | t, false, "{}: {e} after {what}", A::NAME);
    }
    cx.ev(C03 | t, "compared_at_scale");
    cx.state(h(&(2, n, cs.len(), a.gener())));
    Ok(())
}

fn chain<P: TP, A: Lk<P>>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    let mut a = A::make();
    let mut cs: Vec<Ch<P>> = vec![];
    let mut dead = Dead::<P>::new();
    let mut x = 0u64;
    for step in 0..rng.range(5, 12) {
        let k = if step == 0 { 0 } else { rng.n(12) };
        let g0 = a.gener();
        let c0 = a.caps();
        let total: usize = cs.iter().map(|c| c.l.len()).sum();
        cx.op(C03, mix2(k as u64, n as u64), || format!("{}: operation {k} with {total} links in {} chains", A::NAME, cs.len()));
        match k {
            0 | 1 => {
                // new chains
                let parts = *rng.pick(&[1, 1, 2, 5, 40]);
                for _ in 0..parts {
                    let len = (n.saturating_sub(total) / parts).max(1 + rng.n(4));
                    x += 1;
                    let p = a.ins_new(x);
                    let mut l = std::collections::VecDeque::from([(p, x)]);
                    let fwd = rng.p(2, 3);
                    for _ in 1..len {
                        x += 1;
                        if fwd {
                            let p = l.back().unwrap().0;
                            let Some(q) = a.ins_end(p, x) else {
                                chk!(cx, C03, false, "{}: insert_end at {p:?} failed", A::NAME);
                                break
                            };
                            l.push_back((q, x));
                        } else {
                            let p = l[0].0;
                            let Some(q) = a.ins_start(p, x) else {
                                chk!(cx, C03, false, "{}: insert_start at {p:?} failed", A::NAME);
                                break
                            };
                            l.push_front((q, x));
                        }
                    }
                    cs.push(Ch { l: l.into(), cyclic: false });
                }
                gen_is::<P>(cx, A::NAME, "insertions", g0, a.gener(), 0)?;
            }
            2 => {
                for _ in 0..rng.range(1, 60) {
                    let c = rng.n(cs.len());
                    let c = &mut cs[c];
                    let i = rng.n(c.l.len());
                    x += 1;
                    let r = a.ins_after(c.l[i].0, x);
                    chk!(cx, C03, r.is_some(), "{}: insertion after {:?} failed", A::NAME, c.l[i].0);
                    c.l.insert(i + 1, (r.unwrap(), x));
                }
            }
            3 => {
                let mut d = 0;
                for _ in 0..rng.range(1, 200) {
                    if cs.is_empty() {
                        break
                    }
                    let j = rng.n(cs.len());
                    let c = &mut cs[j];
                    let i = rng.n(c.l.len());
                    let (p, x) = c.l.remove(i);
                    let r = a.rem(p);
                    chk!(cx, C03, r == Some(x), "{}: removing {p:?} gave {r:?}", A::NAME);
                    dead.kill(p);
                    d += 1;
                    if c.l.is_empty() {
                        cs.swap_remove(j);
                    }
                }
                gen_is::<P>(cx, A::NAME, "removals", g0, a.gener(), d)?;
            }
            4 => {
                // break in two, or open a cycle
                for _ in 0..rng.range(1, 6) {
                    let j = rng.n(cs.len());
                    let c = &mut cs[j];
                    let i = rng.n(c.l.len());
                    let r = a.brk(c.l[i].0);
                    let ex = c.cyclic || i + 1 < c.l.len();
                    chk!(cx, C03, r == ex, "{}: break_next of link {i} of {} gave {r}", A::NAME, c.l.len());
                    if c.cyclic {
                        let m = (i + 1) % c.l.len();
                        c.l.rotate_left(m);
                        c.cyclic = false;
                    } else if ex {
                        let l = c.l.split_off(i + 1);
                        cs.push(Ch { l, cyclic: false });
                    }
                }
                gen_is::<P>(cx, A::NAME, "breaking", g0, a.gener(), 0)?;
            }
            5 | 6 => {
                // connect two, or close to a cycle
                for _ in 0..rng.range(1, 6) {
                    let (i, j) = (rng.n(cs.len()), rng.n(cs.len()));
                    let ex = !cs[i].cyclic && !cs[j].cyclic;
                    let (p, q) = (cs[i].l.last().unwrap().0, cs[j].l[0].0);
                    let r = a.conn(p, q);
                    chk!(cx, C03, r == ex, "{}: connecting {p:?} to {q:?} gave {r}", A::NAME);
                    if ex && i == j {
                        cs[i].cyclic = true;
                    } else if ex {
                        let l = std::mem::take(&mut cs[j].l);
                        cs[i].l.extend(l);
                        cs.swap_remove(j);
                    }
                }
            }
            7 => {
                let j = rng.n(cs.len());
                let c = &cs[j];
                let p = c.l[rng.n(c.l.len())].0;
                let r = a.rem_chain(p);
                chk!(cx, C03, r == Some(c.l.len()), "{}: removing a chain of {} gave {r:?}", A::NAME, c.l.len());
                for (p, _) in &c.l {
                    dead.kill(*p);
                }
                cs.swap_remove(j);
                gen_is::<P>(cx, A::NAME, "remove_chain", g0, a.gener(), 1)?;
            }
            8 => {
                let v = a.compress();
                chk!(cx, C13, v.len() == total, "{}: compression reported {} of {total} links", A::NAME, v.len());
                let mut m: HMap<P, (u64, P)> = HMap::default();
                for (p, x, q) in &v {
                    chk!(cx, C13, m.insert(*p, (*x, *q)).is_none(), "{}: compression reported {p:?} twice", A::NAME);
                }
                for c in &mut cs {
                    let (mut lo, mut hi) = (usize::MAX, 0);
                    for (p, x) in &mut c.l {
                        let r = m.get(p).copied();
                        chk!(cx, C13, r.is_some_and(|r| r.0 == *x), "{}: compression reported {r:?} for {p:?} with {x}", A::NAME);
                        dead.kill(*p);
                        *p = r.unwrap().1;
                        lo = lo.min(p.i());
                        hi = hi.max(p.i());
                    }
                    chk!(cx, C13, hi - lo + 1 == c.l.len(), "{}: a chain of {} takes the indexes {lo} to {hi} after compression", A::NAME, c.l.len());
                }
                chks!(cx, C13 | C18, a.caps() == total, "{}: capacity {} for {total} after compression", A::NAME, a.caps());
                gen_is::<P>(cx, A::NAME, "compression", g0, a.gener(), 1)?;
                cx.ev(C13, "compressed_at_scale");
            }
            9 => {
                for _ in 0..3 {
                    let c = &cs[rng.n(cs.len())];
                    let k = c.l.len();
                    let i = match rng.n(3) {
                        0 => 0,
                        1 => k - 1,
                        _ => rng.n(k),
                    };
                    let v = a.walk(c.l[i].0, k + 1);
                    chk!(cx, C10 | C11, v.len() == k, "{}: an advancer over a chain of {k} gives {} links", A::NAME, v.len());
                    let mut v = v;
                    let mut w: Vec<P> = c.l.iter().map(|x| x.0).collect();
                    v.sort();
                    w.sort();
                    chk!(cx, C10 | C11, v == w, "{}: an advancer over a chain of {k} gives wrong links", A::NAME);
                    cx.ev(C10 | C11, "advanced_at_scale");
                }
                let mut v = a.all();
                let mut w: Vec<(P, u64)> = cs.iter().flat_map(|c| c.l.iter().copied()).collect();
                v.sort();
                w.sort();
                chk!(cx, C11, v == w, "{}: the iterator gives {} links of {total}, or wrong ones", A::NAME, v.len());
            }
            10 => {
                let mut b = A::make();
                if rng.p(1, 2) {
                    b = a.clone();
                } else {
                    for i in 0..rng.n(n) {
                        b.ins_new(i as u64);
                    }
                    let cb = b.caps();
                    a.copy_into(&mut b);
                    chks!(cx, C18 | C12, b.caps() <= cb.max(c0), "{}: cloning into {cb} from {c0} gives {}", A::NAME, b.caps());
                }
                chain_full(cx, &b, &cs, "cloning", C12)?;
                chk!(cx, C19, a == b, "{}: a clone is not equal", A::NAME);
                let c = &cs[rng.n(cs.len())];
                let p = c.l[rng.n(c.l.len())].0;
                if b.brk(p) {
                    chk!(cx, C19, a != b, "{}: arenas that differ in one interlink are equal", A::NAME);
                    cx.ev(C19, "compared_arenas_at_scale");
                } else {
                    a = b;
                }
            }
            _ => {
                // exchange between different chains
                if cs.len() > 1 {
                    let i = rng.n(cs.len());
                    let j = (i + 1 + rng.n(cs.len() - 1)) % cs.len();
                    let (s, t) = (rng.n(cs[i].l.len()), rng.n(cs[j].l.len()));
                    let ex = (cs[i].cyclic || s + 1 < cs[i].l.len()) && (cs[j].cyclic || t + 1 < cs[j].l.len());
                    let r = a.exch(cs[i].l[s].0, cs[j].l[t].0);
                    chk!(cx, C03, r == ex, "{}: exchange_next gave {r}", A::NAME);
                    if ex {
                        match (cs[i].cyclic, cs[j].cyclic) {
                            (false, false) => {
                                let x = cs[i].l.split_off(s + 1);
                                let y = cs[j].l.split_off(t + 1);
                                cs[i].l.extend(y);
                                cs[j].l.extend(x);
                            }
                            (ci, _) => {
                                // the cycle becomes part of the other one
                                let (lin, ls, cyc, ct) = if ci { (j, t, i, s) } else { (i, s, j, t) };
                                let m = (ct + 1) % cs[cyc].l.len();
                                cs[cyc].l.rotate_left(m);
                                let mid = std::mem::take(&mut cs[cyc].l);
                                let tail = cs[lin].l.split_off(ls + 1);
                                cs[lin].l.extend(mid);
                                cs[lin].l.extend(tail);
                                cs.swap_remove(cyc);
                            }
                        }
                    }
                }
                #[cfg(feature = "serde")]
                if total < 40_000 && cx.prop & C14 != 0 {
                    let r = a.trip();
                    chk!(cx, C14, r.is_ok(), "{}: {total} links do not deserialize: {:?}", A::NAME, r.as_ref().err());
                    let b = r.ok().unwrap();
                    let c2: Vec<Ch<P>> = cs
                        .iter()
                        .map(|c| Ch { l: c.l.iter().map(|(p, x)| (P::make(p.i(), 2), *x)).collect(), cyclic: c.cyclic })
                        .collect();
                    chain_full(cx, &b, &c2, "a round trip", C14)?;
                }
            }
        }
        if cs.is_empty() {
            x += 1;
            let p = a.ins_new(x);
            cs.push(Ch { l: vec![(p, x)], cyclic: false });
        }
        chain_full(cx, &a, &cs, &format!("operation {k}"), 0)?;
        dead.check(cx, A::NAME, |p| a.has(p))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

type SA<P> = SurjectArena<P, u64, u64>;

struct Set<P> {
    k: Vec<(P, u64)>,
    v: u64,
}

fn surject_full<P: TP>(cx: &mut Cx, a: &SA<P>, ss: &[Set<P>], what: &str, t: Tags) -> R {
    let n: usize = ss.iter().map(|s| s.k.len()).sum();
    chk!(cx, C04 | t, a.len_keys() == n && a.len_vals() == ss.len() && a.is_empty() == (n == 0),
        "surject: {} keys and {} values instead of {n} and {} after {what}", a.len_keys(), a.len_vals(), ss.len());
    for (j, s) in ss.iter().enumerate() {
        for (p, k) in &s.k {
            chk!(cx, C01 | C04 | t, a.get(*p) == Some((k, &s.v)), "surject: {p:?} is {:?} instead of {:?} after {what}", a.get(*p), (k, s.v));
            chk!(cx, C04 | t, a.len_key_set(*p).map(|n| n.get()) == Some(s.k.len()), "surject: {p:?} is said to be in a set of {:?} instead of {} after {what}", a.len_key_set(*p), s.k.len());
        }
        let (p, q) = (s.k[0].0, s.k[s.k.len() / 2].0);
        chk!(cx, C04 | t, a.in_same_set(p, q) == Some(true), "surject: {p:?} and {q:?} are not in the same set after {what}");
        if j > 0 {
            let q = ss[j - 1].k[0].0;
            chk!(cx, C04 | t, a.in_same_set(p, q) == Some(false), "surject: {p:?} and {q:?} are in the same set after {what}");
        }
    }
    // the sets as the interlinks show them
    for s in ss.iter().take(20) {
        let mut v = vec![];
        let mut adv = a.advancer_surject(s.k[0].0);
        while let Some(p) = adv.advance(a) {
            v.push(p);
            if v.len() > s.k.len() {
                break
            }
        }
        chk!(cx, C10 | C04 | C11 | t, v.len() == s.k.len(), "surject: an advancer over a set of {} gives {} keys after {what}", s.k.len(), v.len());
        let mut w: Vec<P> = s.k.iter().map(|x| x.0).collect();
        v.sort();
        w.sort();
        chk!(cx, C10 | C04 | C11 | t, v == w, "surject: an advancer over a set of {} gives wrong keys after {what}", s.k.len());
        cx.ev(C10, "advanced_at_scale");
    }
    let c = a.iter().count();
    chk!(cx, C11 | t, c == n, "surject: the iterator gives {c} of {n} keys after {what}");
    let c = a.vals().count();
    chk!(cx, C11 | t, c == ss.len(), "surject: the iterator gives {c} of {} values after {what}", ss.len());
    if let Err(e) = SurjectArena::_check_invariants(a) {
        chk!(cx, C04 | t, false, "surject: {e} after {what}");
    }
    cx.ev(C04 | C11 | t, "compared_at_scale");
    cx.state(h(&(3, n, ss.len(), P::gnum(a.generation()))));
    Ok(())
}

fn surject<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    let mut a: SA<P> = SurjectArena::new();
    let mut ss: Vec<Set<P>> = vec![];
    let mut dead = Dead::<P>::new();
    let mut x = 0u64;
    for step in 0..rng.range(4, 10) {
        let k = if step == 0 { rng.n(2) } else { rng.n(10) };
        let g0 = P::gnum(a.generation());
        let total: usize = ss.iter().map(|s| s.k.len()).sum();
        cx.op(C04, mix2(k as u64, n as u64), || format!("surject: operation {k} with {total} keys in {} sets", ss.len()));
        match k {
            0 => {
                for _ in total..n.max(total + 3) {
                    x += 1;
                    let p = a.insert(x, x + 7);
                    ss.push(Set { k: vec![(p, x)], v: x + 7 });
                }
                gen_is::<P>(cx, "surject", "insertions", g0, P::gnum(a.generation()), 0)?;
            }
            1 => {
                // one or more big sets
                let parts = *rng.pick(&[1, 1, 2, 9]);
                for _ in 0..parts {
                    x += 1;
                    let p = a.insert(x, x + 7);
                    let mut s = Set { k: vec![(p, x)], v: x + 7 };
                    for _ in 0..n.saturating_sub(total) / parts + rng.n(3) {
                        x += 1;
                        let q = if rng.p(1, 2) { p } else { s.k[rng.n(s.k.len())].0 };
                        let r = a.insert_key(q, x);
                        chk!(cx, C04, r.is_ok(), "surject: insert_key failed at {q:?}");
                        s.k.push((r.unwrap(), x));
                    }
                    ss.push(s);
                }
            }
            2 | 3 => {
                // unions, all if few
                let m = if rng.p(1, 2) { ss.len().saturating_sub(1) } else { rng.n(ss.len()) };
                for _ in 0..m {
                    let i = rng.n(ss.len());
                    let j = (i + 1 + rng.n(ss.len() - 1)) % ss.len();
                    let (p, q) = (ss[i].k[rng.n(ss[i].k.len())].0, ss[j].k[rng.n(ss[j].k.len())].0);
                    let (keep, lose, pk) = if ss[i].k.len() < ss[j].k.len() { (j, i, q) } else { (i, j, p) };
                    let r = a.union(p, q);
                    let ex = Some((ss[lose].v, pk));
                    chk!(cx, C04, r == ex, "surject: union of sets of {} and {} gave {r:?} instead of {ex:?}", ss[i].k.len(), ss[j].k.len());
                    let l = std::mem::take(&mut ss[lose].k);
                    ss[keep].k.extend(l);
                    ss.swap_remove(lose);
                }
                gen_is::<P>(cx, "surject", "unions", g0, P::gnum(a.generation()), 0)?;
            }
            4 | 5 => {
                let mut d = 0;
                let m = *rng.pick(&[total / 2, 300, total.saturating_sub(2)]);
                for _ in 0..m {
                    if ss.is_empty() {
                        break
                    }
                    let j = rng.n(ss.len());
                    let i = rng.n(ss[j].k.len());
                    let (p, k) = ss[j].k.swap_remove(i);
                    let r = a.remove_key(p);
                    let ex = Some((k, if ss[j].k.is_empty() { Some(ss[j].v) } else { None }));
                    chk!(cx, C04, r == ex, "surject: remove_key({p:?}) gave {r:?} instead of {ex:?}");
                    dead.kill(p);
                    d += 1;
                    if ss[j].k.is_empty() {
                        ss.swap_remove(j);
                    }
                }
                gen_is::<P>(cx, "surject", "removals", g0, P::gnum(a.generation()), d)?;
            }
            6 => {
                if !ss.is_empty() {
                    let j = rng.n(ss.len());
                    let p = ss[j].k[rng.n(ss[j].k.len())].0;
                    let r = a.remove(p);
                    chk!(cx, C04, r == Some(ss[j].v), "surject: removing a set of {} gave {r:?}", ss[j].k.len());
                    for (p, _) in &ss[j].k {
                        dead.kill(*p);
                    }
                    ss.swap_remove(j);
                    gen_is::<P>(cx, "surject", "remove", g0, P::gnum(a.generation()), 1)?;
                }
            }
            7 => {
                let mut m: HMap<P, (u64, u64, P)> = HMap::default();
                let mut twice = None;
                a.compress_and_shrink_with(|p, k, v, q| {
                    if m.insert(p, (*k, *v, q)).is_some() {
                        twice = Some(p);
                    }
                });
                chk!(cx, C13, twice.is_none() && m.len() == total, "surject: compression reported {} of {total} keys, twice: {twice:?}", m.len());
                for s in &mut ss {
                    let (mut lo, mut hi) = (usize::MAX, 0);
                    for (p, k) in &mut s.k {
                        let r = m.get(p).copied();
                        chk!(cx, C13, r.is_some_and(|r| r.0 == *k && r.1 == s.v), "surject: compression reported {r:?} for {p:?}");
                        dead.kill(*p);
                        *p = r.unwrap().2;
                        lo = lo.min(p.i());
                        hi = hi.max(p.i());
                    }
                    chk!(cx, C13, hi - lo + 1 == s.k.len(), "surject: a set of {} takes the indexes {lo} to {hi}", s.k.len());
                }
                chks!(cx, C13 | C18, a.capacity_keys() == total && a.capacity_vals() == ss.len(), "surject: capacities {} and {} for {total} and {} after compression", a.capacity_keys(), a.capacity_vals(), ss.len());
                gen_is::<P>(cx, "surject", "compression", g0, P::gnum(a.generation()), 1)?;
                cx.ev(C13, "compressed_at_scale");
            }
            8 => {
                let mut b: SA<P> = SurjectArena::new();
                if rng.p(1, 2) {
                    b = a.clone();
                } else {
                    for i in 0..rng.n(n) {
                        b.insert(i as u64, 1);
                    }
                    b.clone_from(&a);
                }
                surject_full(cx, &b, &ss, "cloning", C12)?;
                chk!(cx, C19, a == b, "surject: a clone is not equal");
                cx.ev(C19, "compared_arenas_at_scale");
                if ss.len() > 1 && rng.p(1, 2) {
                    let (p, q) = (ss[0].k[0].0, ss[1].k[0].0);
                    b.union(p, q);
                    chk!(cx, C19, a != b, "surject: arenas with different sets are equal");
                } else {
                    a = b;
                }
            }
            _ => {
                #[cfg(feature = "serde")]
                if total < 40_000 && cx.prop & C14 != 0 {
                    let s = serde_json::to_string(&a).unwrap();
                    let r: Result<SA<P>, _> = serde_json::from_str(&s);
                    chk!(cx, C14, r.is_ok(), "surject: {total} keys do not deserialize: {:?}", r.as_ref().err());
                    let s2: Vec<Set<P>> = ss
                        .iter()
                        .map(|s| Set { k: s.k.iter().map(|(p, k)| (P::make(p.i(), 2), *k)).collect(), v: s.v })
                        .collect();
                    surject_full(cx, &r.unwrap(), &s2, "a round trip", C14)?;
                }
            }
        }
        if ss.is_empty() {
            x += 1;
            let p = a.insert(x, x);
            ss.push(Set { k: vec![(p, x)], v: x });
        }
        surject_full(cx, &a, &ss, &format!("operation {k}"), 0)?;
        dead.check(cx, "surject", |p| a.contains(p))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

type OA<P> = OrdArena<P, u64, u64>;

fn ord_full<P: TP>(cx: &mut Cx, rng: &mut Rng, a: &OA<P>, m: &BTreeMap<u64, (P, u64)>, what: &str, t: Tags) -> R {
    chk!(cx, C05 | t, a.len() == m.len() && a.is_empty() == m.is_empty(), "ord: len {} instead of {} after {what}", a.len(), m.len());
    let mut it = a.iter();
    for (k, (p, v)) in m {
        let r = it.next();
        chk!(cx, C05 | C11 | t, r == Some((*p, k, v)), "ord: the iterator gives {r:?} instead of {:?} after {what}", (p, k, v));
    }
    let r = it.next();
    chk!(cx, C05 | C11 | t, r.is_none(), "ord: the iterator gives {r:?} at the end after {what}");
    let all = m.len() < 5000;
    for (k, (p, v)) in m {
        if all || rng.p(1, 8) {
            let r = a.find_key(k);
            chk!(cx, C05 | t, r == Some(*p), "ord: find_key({k}) gives {r:?} instead of {p:?} after {what}");
        }
        chk!(cx, C01 | C05 | t, a.get(*p) == Some((k, v)), "ord: {p:?} is {:?} instead of {:?} after {what}", a.get(*p), (k, v));
    }
    chk!(cx, C05 | t, a.first() == m.first_key_value().map(|x| x.1 .0), "ord: first is {:?} after {what}", a.first());
    chk!(cx, C05 | t, a.last() == m.last_key_value().map(|x| x.1 .0), "ord: last is {:?} after {what}", a.last());
    if let Err(e) = OrdArena::_check_invariants(a) {
        chk!(cx, C05 | C06 | t, false, "ord: {e} after {what}");
    }
    cx.ev(C05 | C11 | t, "compared_at_scale");
    cx.state(h(&(4, a.len(), a.capacity(), P::gnum(a.generation()))));
    Ok(())
}

fn ord<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    let mut a: OA<P> = OrdArena::new();
    let mut m: BTreeMap<u64, (P, u64)> = BTreeMap::new();
    let mut dead = Dead::<P>::new();
    for step in 0..rng.range(4, 9) {
        let k = if step == 0 { 0 } else { rng.n(9) };
        let g0 = P::gnum(a.generation());
        let c0 = a.capacity();
        cx.op(C05, mix2(k as u64, n as u64), || format!("ord: operation {k} with {} entries", m.len()));
        match k {
            0 | 1 => {
                let way = rng.n(4);
                let base = rng.n(1 << 30) as u64 * 1000;
                for i in 0..(n.saturating_sub(m.len()).max(50)) as u64 {
                    let k = match way {
                        0 => base + i,
                        1 => base + (1 << 40) - i,
                        2 => rng.u() >> 20,
                        _ => (i * 0x9e37_79b9) & 0xffff_ffff,
                    };
                    let (c, full) = (a.capacity(), a.len() == a.capacity());
                    let (p, old) = a.insert(k, i);
                    match m.insert(k, (p, i)) {
                        None => {
                            chk!(cx, C05, old.is_none(), "ord: inserting the new key {k} gave {old:?}");
                            cap_ins(cx, "ord", c, a.capacity(), full)?;
                        }
                        Some((q, v)) => {
                            chk!(cx, C05, q == p && old == Some((k, v)), "ord: inserting the known key {k} gave {p:?} and {old:?}");
                        }
                    }
                }
                gen_is::<P>(cx, "ord", "insertions", g0, P::gnum(a.generation()), 0)?;
            }
            2 | 3 => {
                let ks: Vec<u64> = m.keys().copied().collect();
                let l = ks.len();
                let mut v: Vec<u64> = match rng.n(4) {
                    0 => ks[..l / 2].to_vec(),
                    1 => ks[l / 3..].to_vec(),
                    2 => ks.iter().copied().step_by(2).collect(),
                    _ => ks.iter().copied().filter(|_| rng.p(9, 10)).collect(),
                };
                if rng.p(1, 3) {
                    v.reverse();
                } else if rng.p(1, 2) {
                    rng.shuffle(&mut v);
                }
                for k in &v {
                    let (p, v) = m.remove(k).unwrap();
                    let r = a.remove(p);
                    chk!(cx, C05, r == Some((*k, v)), "ord: removing {p:?} gave {r:?}");
                    dead.kill(p);
                }
                gen_is::<P>(cx, "ord", "removals", g0, P::gnum(a.generation()), v.len() as u128)?;
            }
            4 => {
                let mut rep: Vec<(P, u64, u64, P)> = vec![];
                a.compress_and_shrink_with(|p, k, v, q| rep.push((p, *k, *v, q)));
                chk!(cx, C13, rep.len() == m.len(), "ord: compression reported {} of {}", rep.len(), m.len());
                for (p, k, v, q) in rep {
                    let r = m.get(&k).copied();
                    chk!(cx, C13, r == Some((p, v)), "ord: compression reported {p:?} with {k} and {v}");
                    dead.kill(p);
                    m.insert(k, (q, v));
                }
                chks!(cx, C13 | C18, a.capacity() == a.len(), "ord: capacity {} for {} after compression", a.capacity(), a.len());
                gen_is::<P>(cx, "ord", "compression", g0, P::gnum(a.generation()), 1)?;
                cx.ev(C13, "compressed_at_scale");
                #[cfg(feature = "serde")]
                if m.len() < 40_000 && cx.prop & (C14 | C06) != 0 {
                    let s = postcard::to_allocvec(&a).unwrap();
                    let r: Result<OA<P>, _> = postcard::from_bytes(&s);
                    chk!(cx, C14, r.is_ok(), "ord: {} entries do not deserialize: {:?}", m.len(), r.as_ref().err());
                    let m2 = m.iter().map(|(k, (p, v))| (*k, (P::make(p.i(), 2), *v))).collect();
                    ord_full(cx, rng, &r.unwrap(), &m2, "a round trip", C14)?;
                }
            }
            5 => {
                let mut b: OA<P> = OrdArena::new();
                if rng.p(1, 2) {
                    b = a.clone();
                } else {
                    for i in 0..rng.n(n) {
                        b.insert(i as u64, 0);
                    }
                    b.clone_from(&a);
                }
                ord_full(cx, rng, &b, &m, "cloning", C12)?;
                chk!(cx, C19, a == b && a.cmp(&b) == std::cmp::Ordering::Equal, "ord: a clone is not equal");
                if let Some((_, (p, _))) = m.iter().next_back() {
                    b.remove(*p);
                    chk!(cx, C19, a != b && a.cmp(&b) == std::cmp::Ordering::Greater, "ord: without its last entry the clone is not less");
                    cx.ev(C19, "compared_arenas_at_scale");
                }
            }
            6 => {
                let t = *rng.pick(&[1, m.len() / 2, m.len()]);
                let mut d = a.drain();
                for _ in 0..t.min(m.len()) {
                    let (k, (p, v)) = m.pop_first().unwrap();
                    let r = d.next();
                    chk!(cx, C11, r == Some((p, k, v)), "ord: the drain gave {r:?}");
                    dead.kill(p);
                }
                drop(d);
                for (_, (p, _)) in std::mem::take(&mut m) {
                    dead.kill(p);
                }
                chks!(cx, C11 | C18, a.capacity() == c0, "ord: a drain changed the capacity from {c0} to {}", a.capacity());
            }
            7 => {
                // neighbours of absent keys
                for _ in 0..300 {
                    let k = rng.u() >> 20;
                    let r = a.find_similar_key(&k);
                    let lo = m.range(..k).next_back().map(|x| x.1 .0);
                    let hi = m.range(k + 1..).next().map(|x| x.1 .0);
                    let ok = match (m.get(&k), r) {
                        (Some((p, _)), Some((q, o))) => *p == q && o == std::cmp::Ordering::Equal,
                        (None, Some((q, std::cmp::Ordering::Less))) => hi == Some(q),
                        (None, Some((q, std::cmp::Ordering::Greater))) => lo == Some(q),
                        (None, None) => m.is_empty(),
                        _ => false,
                    };
                    chk!(cx, C05, ok, "ord: find_similar_key({k}) gives {r:?} between {lo:?} and {hi:?}");
                }
            }
            _ => {
                let mut adv = a.advancer();
                let ks: Vec<(u64, P)> = m.iter().map(|(k, (p, _))| (*k, *p)).collect();
                let mut i = 0;
                let mut gone: HSet<P> = HSet::default();
                while let Some(p) = adv.advance(&a) {
                    while i < ks.len() && ks[i].1 != p && gone.contains(&ks[i].1) {
                        i += 1;
                    }
                    chk!(cx, C10, i < ks.len() && ks[i].1 == p, "ord: the advancer gave {p:?} as number {i} of {}", ks.len());
                    i += 1;
                    if rng.p(1, 3) {
                        // not the next one
                        let j = rng.n(ks.len());
                        if j != i && gone.insert(ks[j].1) {
                            // the next living one must stay
                            let next = (i..ks.len()).find(|x| !gone.contains(&ks[*x].1) || *x == j);
                            if next == Some(j) {
                                gone.remove(&ks[j].1);
                            } else {
                                m.remove(&ks[j].0);
                                a.remove(ks[j].1);
                                dead.kill(ks[j].1);
                            }
                        }
                    }
                }
                while i < ks.len() && gone.contains(&ks[i].1) {
                    i += 1;
                }
                chk!(cx, C10, i == ks.len(), "ord: the advancer ended after {i} of {}", ks.len());
                cx.ev(C10, "advanced_at_scale");
            }
        }
        ord_full(cx, rng, &a, &m, &format!("operation {k}"), 0)?;
        dead.check(cx, "ord", |p| a.contains(p))?;
    }
    Ok(())
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let only = match cx.profile {
        C02 => 0,
        C03 => 1 + rng.n(2),
        C04 => 3,
        C05 | C06 => 4,
        _ => rng.n(5),
    };
    let (prim, f): (Tags, fn(&mut Cx, &mut Rng) -> R) = match only {
        0 => (C02, arena::<P>),
        1 => (C03, chain::<P, ChainArena<P, u64>>),
        2 => (C03, chain::<P, ChainNoGenArena<P, u64>>),
        3 => (C04, surject::<P>),
        _ => (C05, ord::<P>),
    };
    cx.primary = prim;
    f(cx, rng)
}
