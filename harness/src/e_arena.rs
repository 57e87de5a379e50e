//! Engine for `Arena`: random histories against a map model
use recasting::{Recast, Recaster};
use triple_arena::{Advancer, Arena, ArenaTrait};

use crate::{cx::*, model::*, ptrs::TP, rng::*, tok::*};

pub const TAB: &OpTab = &[
    ("insert", 24, 0, GROW),
    ("insert_with", 8, C20, GROW),
    ("try_insert", 10, C17 | C18 | C16, GROW),
    ("try_insert_with", 6, C17 | C18 | C16, GROW),
    ("trait_insert", 4, 0, GROW),
    ("remove", 22, C01 | C08 | C18, SHRINK),
    ("remove_by", 4, C08 | C23, SHRINK),
    ("invalidate", 8, C01 | C23, NEU),
    ("replace_keep", 6, C08, NEU),
    ("replace_update", 6, C01 | C08 | C23, NEU),
    ("swap", 8, C17, NEU),
    ("get_mut", 6, 0, NEU),
    ("get2_mut", 6, C09 | C17, NEU),
    ("index", 4, 0, NEU),
    ("mut_iters", 3, C11 | C09, NEU),
    ("iters", 4, C11, NEU),
    ("clear", 3, C18 | C08 | C23, RARE),
    ("clear_and_shrink", 3, C18 | C08, RARE),
    ("compress", 4, C13 | C23 | C18, RARE),
    ("recast", 3, C13, RARE),
    ("reserve", 4, C18 | C16, NEU),
    ("clone", 4, C12, RARE),
    ("clone_from", 6, C12 | C18, RARE),
    ("clone_from_with", 4, C12, RARE),
    ("eq", 3, C19, NEU),
    ("drain", 3, C11 | C08 | C16, RARE),
    ("into_iter", 2, C11 | C08, RARE),
    ("advance", 4, C10, NEU),
    ("burn", 1, C16 | C01, NEU),
    ("fill", 1, C16 | C18, RARE),
    ("free_slots", 2, C18, NEU),
];

/// operations for the bodies of advancer loops
const BODY: &[usize] = &[0, 1, 2, 4, 5, 5, 5, 6, 7, 9, 10, 11, 16, 17, 18, 20];

pub struct S<P: TP> {
    pub a: Arena<P, Tok>,
    pub m: Live<P, TR>,
    pub b: Book<P>,
}

/// graph node for recasting
struct PNode<P> {
    val: u64,
    ps: Vec<P>,
}
impl<P: TP> Recast<P> for PNode<P> {
    fn recast<R: Recaster<Item = P>>(&mut self, r: &R) -> Result<(), P> {
        for p in &mut self.ps {
            r.recast_item(p)?;
        }
        Ok(())
    }
}

pub struct W<P: TP> {
    pub s: Vec<S<P>>,
    pub cfg: Cfg,
    vals: u64,
    pub in_body: bool,
}

const MAIN: Tags = C02;

impl<P: TP> S<P> {
    pub fn new(cx: &mut Cx, rng: &mut Rng) -> R<S<P>> {
        let mut b = Book::new(MAIN);
        let a = match rng.n(3) {
            0 => {
                let c = rng.n(12);
                b.cap = c;
                Arena::with_capacity(c)
            }
            1 => <Arena<P, Tok> as ArenaTrait>::new(),
            _ => Arena::new(),
        };
        chk!(cx, C18, a.capacity() == b.cap, "new arena: capacity {} not {}", a.capacity(), b.cap);
        if P::HG {
            chks!(cx, C23, P::gnum(a.generation()) == 2, "new arena: generation {:?}", a.generation());
        }
        Ok(S {
            a,
            m: Live::new(),
            b,
        })
    }

    pub fn rem(&mut self, p: P) -> Option<TR> {
        let r = self.m.remove(p);
        if r.is_some() {
            self.b.kill(p);
        }
        r
    }

    pub fn kill_all(&mut self) {
        for p in std::mem::take(&mut self.m.order) {
            self.b.kill(p);
        }
        self.m.clear();
    }

    /// compares everything observable with the model
    pub fn full(&self, cx: &mut Cx, rng: &mut Rng, t: Tags) -> R {
        let (a, m) = (&self.a, &self.m);
        chk!(cx, MAIN | t, a.len() == m.len(), "len {} but the model has {}", a.len(), m.len());
        chk!(cx, MAIN | t, a.is_empty() == (m.len() == 0), "is_empty wrong");
        chk!(cx, MAIN | C18 | t, a.capacity() >= a.len(), "capacity {} < len {}", a.capacity(), a.len());
        let mut n = 0;
        for (p, v) in a.iter() {
            n += 1;
            chk!(cx, MAIN | C11 | t, n <= m.len(), "iteration yields more than len entries");
            match m.get(p) {
                None => chk!(cx, MAIN | C01 | C11 | t, false, "iteration yields {p:?} which is not live"),
                Some(r) => chk!(cx, MAIN | C01 | C08 | C11 | t, same(v, r), "{p:?} holds {:?} (ok: {}) instead of {r:?}", v.rec(), v.ok()),
            }
        }
        chk!(cx, MAIN | C11 | t, n == m.len(), "iteration yields {n} of {} entries", m.len());
        for p in &m.order {
            let r = m.get(*p).unwrap();
            chk!(cx, MAIN | C01 | t, a.contains(*p), "{p:?} should be valid");
            match a.get(*p) {
                Some(v) => chk!(cx, MAIN | C01 | C08 | t, same(v, r), "{p:?} resolves to {:?} instead of {r:?}", v.rec()),
                None => chk!(cx, MAIN | C01 | t, false, "{p:?} should resolve"),
            }
        }
        self.stale(cx, rng, t)
    }

    pub fn stale(&self, cx: &mut Cx, rng: &mut Rng, t: Tags) -> R {
        let d = &self.b.dead;
        let k = d.len().min(5);
        for j in 0..2 * k {
            let p = if j < k { d[d.len() - 1 - j] } else { *rng.pick(d) };
            let live = self.m.has(p);
            chk!(cx, C01 | t, self.a.contains(p) == live, "stale {p:?}: contains is {}", !live);
            chk!(cx, C01 | t, self.a.get(p).is_some() == live, "stale {p:?}: get disagrees");
            if P::HG {
                cx.ev(C01, "stale_ptr_rejected");
            }
        }
        for p in [P::invalid(), self.b.forge(rng, &self.m.order)] {
            let live = self.m.has(p);
            chk!(cx, C01 | t, self.a.contains(p) == live, "{p:?}: contains is {}", !live);
        }
        Ok(())
    }

    pub fn fingerprint(&self) -> u64 {
        let mut v: Vec<usize> = self.m.order.iter().map(|p| p.i()).collect();
        v.sort();
        h(&(v, self.a.capacity()))
    }

    /// everything after an operation that succeeded or failed
    #[allow(clippy::too_many_arguments)]
    fn post(&mut self, cx: &mut Cx, rng: &mut Rng, dgen: (u128, u128), capx: Cap, len0: usize, t: Tags, full: bool) -> R {
        let (g, c) = (P::gnum(self.a.generation()), self.a.capacity());
        self.b.meta(cx, g, dgen, c, capx, len0, t)?;
        cx.poll()?;
        if full {
            self.full(cx, rng, t)?;
            cx.ev(MAIN, "model_compared");
            let f = self.fingerprint();
            cx.state(f);
        }
        Ok(())
    }
}

impl<P: TP> W<P> {
    pub fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self> {
        let cfg = Cfg::new(cx, rng, TAB);
        let mut s = vec![];
        for _ in 0..cfg.arenas {
            s.push(S::new(cx, rng)?);
        }
        Ok(W {
            s,
            cfg,
            vals: 0,
            in_body: false,
        })
    }

    pub fn tok(&mut self, rng: &mut Rng) -> Tok {
        self.vals += 1;
        // few distinct values, so that arenas can be equal
        Tok::new(if rng.p(1, 2) { rng.n(3) as u64 } else { self.vals + 100 })
    }

    pub fn run(&mut self, cx: &mut Cx, rng: &mut Rng) -> R {
        let n = self.cfg.nops;
        let mut follow = None;
        // not too much time on a single case with tens of thousands of entries
        let mut budget = 700_000usize;
        for k in 0..n {
            let load: usize = self.s.iter().map(|s| s.m.len()).sum();
            if load > budget {
                break
            }
            budget -= load;
            let (i, op) = match follow.take() {
                Some(x) => x,
                None => {
                    let i = if rng.p(2, 3) { 0 } else { rng.n(self.s.len()) };
                    (i, self.cfg.next_op(rng, self.s[i].m.len()))
                }
            };
            follow = self.cfg.follow(rng, op).map(|f| (i, f));
            let full = k % self.cfg.every == 0 || k + 1 == n;
            self.step(cx, rng, i, op, full)?;
        }
        for s in &self.s {
            s.full(cx, rng, 0)?;
        }
        Ok(())
    }

    /// One operation on arena `i`
    pub fn step(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, op: usize, full: bool) -> R {
        let name = TAB[op].0;
        let optag = TAB[op].2;
        let o = rng.n(self.s.len());
        let opick = self.s[o].m.order.clone();
        let s = &self.s[i];
        let p = s.b.pick(rng, &s.m.order, &opick);
        let q = if rng.p(1, 6) { p } else { s.b.pick(rng, &s.m.order, &opick) };
        let len0 = s.m.len();
        let narrow = (P::GEN_MAX <= 65535 && P::HG && s.b.gen + 3 > P::GEN_MAX)
            || (P::INX_MAX <= 65535 && s.b.cap as u128 * 2 >= P::INX_MAX);
        let lt = if narrow { C16 } else { 0 };
        cx.op(MAIN | lt | (optag & (C12 | C13 | C11 | C10)), h(&(op, i, p, q, len0, s.b.cap)), || {
            format!("arena{i}.{name} p={p:?} q={q:?} len={len0} cap={}", s.b.cap)
        });
        if narrow {
            cx.ev(C16, "operation_near_limit");
        }
        let blocked = s.b.blocked();
        let at_max = s.m.len() as u128 == P::INX_MAX;
        let live_p = s.m.has(p);
        let live_q = s.m.has(q);
        let full = full && len0 < 400;
        match name {
            "insert" | "insert_with" | "trait_insert" => {
                let t = self.tok(rng);
                let r = t.rec();
                let s = &mut self.s[i];
                let mut seen = None;
                let mut calls = 0;
                let p = {
                    let a = &mut s.a;
                    cx.lim(at_max, || match name {
                        "insert" => a.insert(t),
                        "insert_with" => a.insert_with(|p| {
                            seen = Some(p);
                            calls += 1;
                            tick(K_CLOSURE);
                            t
                        }),
                        _ => ArenaTrait::insert(a, t),
                    })?
                };
                if let Some(p) = p {
                    if name == "insert_with" {
                        chk!(cx, MAIN, seen == Some(p) && calls == 1, "insert_with: closure got {seen:?} in {calls} calls, result {p:?}");
                    }
                    let g = P::gnum(s.a.generation());
                    let live = s.m.has(p);
                    s.b.issue(cx, p, live, g)?;
                    s.m.insert(p, r);
                    if len0 < s.b.cap {
                        cx.ev(C18, "free_slot_reused");
                    } else {
                        cx.ev(C18, "grown_when_full");
                    }
                    s.post(cx, rng, (0, 0), Cap::Ins, len0, 0, full)?;
                } else {
                    s.b.cap = s.a.capacity();
                    s.post(cx, rng, (0, 0), Cap::Same, len0, C16, full)?;
                }
            }
            "try_insert" | "try_insert_with" => {
                let t = self.tok(rng);
                let r = t.rec();
                let s = &mut self.s[i];
                let has_room = len0 < s.b.cap;
                let mut calls = 0;
                let res = if name == "try_insert" {
                    match s.a.try_insert(t) {
                        Ok(p) => Some(p),
                        Err(t) => {
                            chk!(cx, MAIN | C17 | C08, same(&t, &r), "try_insert gave back {:?} not {r:?}", t.rec());
                            None
                        }
                    }
                } else {
                    let mut seen = None;
                    match s.a.try_insert_with(|p| {
                        seen = Some(p);
                        calls += 1;
                        tick(K_CLOSURE);
                        t
                    }) {
                        Ok(p) => {
                            chk!(cx, MAIN, calls == 1 && seen == Some(p), "closure ran {calls} times with {seen:?}, result {p:?}");
                            Some(p)
                        }
                        Err(f) => {
                            // the closure and with it the value comes back
                            let t = f(p);
                            chk!(cx, C17 | C08, same(&t, &r), "closure gave {:?} not {r:?}", t.rec());
                            drop(t);
                            chk!(cx, C17, calls == 1, "closure of a rejected insertion ran {} times", calls - 1);
                            None
                        }
                    }
                };
                chk!(cx, MAIN | C18 | C17, res.is_some() == has_room, "{name}: success is {} with len {len0} and capacity {}", res.is_some(), s.b.cap);
                if let Some(p) = res {
                    let g = P::gnum(s.a.generation());
                    let live = s.m.has(p);
                    s.b.issue(cx, p, live, g)?;
                    s.m.insert(p, r);
                    cx.ev(C18, "free_slot_reused");
                    s.post(cx, rng, (0, 0), Cap::Same, len0, 0, full)?;
                } else {
                    cx.ev(C17, "rejected_insertion");
                    s.post(cx, rng, (0, 0), Cap::Same, len0, C17, true)?;
                }
            }
            "remove" => {
                let s = &mut self.s[i];
                let b = live_p && blocked;
                let res = {
                    let a = &mut s.a;
                    cx.lim(b, || if full { a.remove(p) } else { ArenaTrait::remove(a, p) })?
                };
                if b {
                    return s.post(cx, rng, (0, 0), Cap::Same, len0, C16, true)
                }
                self.res_val(cx, rng, i, p, res.unwrap(), len0, full)?;
            }
            "remove_by" => {
                let s = &mut self.s[i];
                let salt = rng.u();
                let all = rng.n(8);
                let mut seen: Vec<(P, TR, bool)> = vec![];
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || {
                        a.remove_by(|p, t| {
                            let k = match all {
                                0 => true,
                                1 => false,
                                _ => mix2(salt, p.i() as u64) & 1 == 0,
                            };
                            seen.push((p, t.rec(), k));
                            tick(K_CLOSURE);
                            t.mark += 1;
                            k
                        })
                    })?
                };
                if r.is_none() {
                    chk!(cx, C16, seen.is_empty(), "predicate ran before the limit panic");
                    return s.post(cx, rng, (0, 0), Cap::Same, len0, C16, true)
                }
                chk!(cx, MAIN | C11, seen.len() == len0, "predicate ran {} times for {len0} entries", seen.len());
                for (p, r, k) in seen {
                    match s.m.get_mut(p) {
                        Some(x) => {
                            chk!(cx, MAIN | C01, *x == r, "predicate saw {r:?} for {p:?} instead of {x:?}");
                            x.mark += 1;
                        }
                        None => chk!(cx, MAIN | C01, false, "predicate got {p:?} which is not live (or twice)"),
                    }
                    if k {
                        s.rem(p);
                    }
                }
                s.post(cx, rng, (1, 1), Cap::Same, len0, 0, full)?;
            }
            "invalidate" => {
                let s = &mut self.s[i];
                let b = live_p && blocked;
                let res = {
                    let a = &mut s.a;
                    cx.lim(b, || a.invalidate(p))?
                };
                match res {
                    None => s.post(cx, rng, (0, 0), Cap::Same, len0, C16, true)?,
                    Some(None) => {
                        chk!(cx, MAIN | C01, !live_p, "invalidate({p:?}) of a live Ptr failed");
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, (0, 0), Cap::Same, len0, C17, true)?;
                    }
                    Some(Some(n)) => {
                        chk!(cx, MAIN | C01, live_p, "invalidate({p:?}) of a dead Ptr worked");
                        let r = s.rem(p).unwrap();
                        let g = P::gnum(s.a.generation());
                        let live = s.m.has(n);
                        s.b.issue(cx, n, live, g)?;
                        s.m.insert(n, r);
                        s.post(cx, rng, (1, 1), Cap::Same, len0, 0, full)?;
                    }
                }
            }
            "replace_keep" => {
                let t = self.tok(rng);
                let r = t.rec();
                let s = &mut self.s[i];
                match s.a.replace_and_keep_gen(p, t) {
                    Ok(old) => {
                        chk!(cx, MAIN | C01, live_p, "replace on dead {p:?} worked");
                        let m = s.m.get_mut(p).unwrap();
                        chk!(cx, MAIN | C08, same(&old, m), "replaced value {:?} not {m:?}", old.rec());
                        *m = r;
                        drop(old);
                        s.post(cx, rng, (0, 0), Cap::Same, len0, 0, full)?;
                    }
                    Err(t) => {
                        chk!(cx, MAIN | C01, !live_p, "replace on live {p:?} failed");
                        chk!(cx, C17 | C08, same(&t, &r), "wrong value given back");
                        drop(t);
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, (0, 0), Cap::Same, len0, C17, true)?;
                    }
                }
            }
            "replace_update" => {
                let t = self.tok(rng);
                let r = t.rec();
                let s = &mut self.s[i];
                let b = live_p && blocked;
                let res = {
                    let a = &mut s.a;
                    cx.lim(b, || a.replace_and_update_gen(p, t))?
                };
                match res {
                    None => s.post(cx, rng, (0, 0), Cap::Same, len0, C16, true)?,
                    Some(Ok((old, n))) => {
                        chk!(cx, MAIN | C01, live_p, "replace on dead {p:?} worked");
                        let m = s.rem(p).unwrap();
                        chk!(cx, MAIN | C08, same(&old, &m), "replaced value {:?} not {m:?}", old.rec());
                        drop(old);
                        let g = P::gnum(s.a.generation());
                        let live = s.m.has(n);
                        s.b.issue(cx, n, live, g)?;
                        s.m.insert(n, r);
                        s.post(cx, rng, (1, 1), Cap::Same, len0, 0, full)?;
                    }
                    Some(Err(t)) => {
                        chk!(cx, MAIN | C01, !live_p, "replace on live {p:?} failed");
                        chk!(cx, C17 | C08, same(&t, &r), "wrong value given back");
                        drop(t);
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, (0, 0), Cap::Same, len0, C17, true)?;
                    }
                }
            }
            "swap" => {
                let s = &mut self.s[i];
                let res = s.a.swap(p, q);
                let ok = live_p && live_q;
                chk!(cx, MAIN | C01 | C17, res.is_some() == ok, "swap({p:?}, {q:?}) gives {res:?}");
                if ok {
                    let x = *s.m.get(p).unwrap();
                    let y = *s.m.get(q).unwrap();
                    *s.m.get_mut(p).unwrap() = y;
                    *s.m.get_mut(q).unwrap() = x;
                    s.post(cx, rng, (0, 0), Cap::Same, len0, 0, full)?;
                } else {
                    cx.ev(C17, "rejected");
                    s.post(cx, rng, (0, 0), Cap::Same, len0, C17, true)?;
                }
            }
            "get_mut" => {
                let s = &mut self.s[i];
                let via = rng.n(3);
                let r = match via {
                    0 => s.a.get_mut(p),
                    1 => ArenaTrait::get_mut(&mut s.a, p),
                    _ => s.a.get_no_gen_mut(p.inx()).and_then(|(g, t)| if g == p.generation() { Some(t) } else { None }),
                };
                chk!(cx, MAIN | C01, r.is_some() == live_p, "get_mut({p:?}) is_some {}", r.is_some());
                if let Some(t) = r {
                    let m = s.m.get_mut(p).unwrap();
                    chk!(cx, MAIN | C01, same(t, m), "get_mut({p:?}) gives {:?} not {m:?}", t.rec());
                    t.mark += 1;
                    m.mark += 1;
                }
                s.post(cx, rng, (0, 0), Cap::Same, len0, 0, full)?;
            }
            "get2_mut" => {
                let s = &mut self.s[i];
                let ok = live_p && live_q && p != q;
                let r = s.a.get2_mut(p, q);
                chk!(cx, MAIN | C01 | C09 | C17, r.is_some() == ok, "get2_mut({p:?}, {q:?}) is_some {}", r.is_some());
                if let Some((x, y)) = r {
                    chk!(cx, C09 | MAIN, !std::ptr::eq(x, y), "get2_mut({p:?}, {q:?}) aliases");
                    let (mx, my) = (s.m.get(p).unwrap(), s.m.get(q).unwrap());
                    chk!(cx, MAIN | C01, same(x, mx) && same(y, my), "get2_mut gives {:?} {:?} not {mx:?} {my:?}", x.rec(), y.rec());
                    if rng.p(1, 2) {
                        std::mem::swap(x, y);
                        let (mx, my) = (*mx, *my);
                        *s.m.get_mut(p).unwrap() = my;
                        *s.m.get_mut(q).unwrap() = mx;
                    } else {
                        x.mark += 1;
                        y.mark += 2;
                        s.m.get_mut(p).unwrap().mark += 1;
                        s.m.get_mut(q).unwrap().mark += 2;
                    }
                } else {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, (0, 0), Cap::Same, len0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "index" => {
                let s = &mut self.s[i];
                let r = {
                    let a = &mut s.a;
                    catch(|| {
                        let x = a[p].rec();
                        a[p].mark += 1;
                        x
                    })
                };
                chk!(cx, MAIN | C01, r.is_ok() == live_p, "indexing with {p:?} is_ok {}", r.is_ok());
                if let Ok(x) = r {
                    let m = s.m.get_mut(p).unwrap();
                    chk!(cx, MAIN | C01, x == *m, "indexing {p:?} gives {x:?} not {m:?}");
                    m.mark += 1;
                }
                s.post(cx, rng, (0, 0), Cap::Same, len0, 0, full)?;
            }
            "mut_iters" => {
                let s = &mut self.s[i];
                let via = rng.n(3);
                let mut v: Vec<(Option<P>, &mut Tok)> = match via {
                    0 => s.a.iter_mut().map(|(p, t)| (Some(p), t)).collect(),
                    1 => s.a.vals_mut().map(|t| (None, t)).collect(),
                    _ => (&mut s.a).into_iter().map(|(p, t)| (Some(p), t)).collect(),
                };
                chk!(cx, C11 | MAIN, v.len() == len0, "mutable iteration yields {} of {len0}", v.len());
                // all references are alive at once
                for (_, t) in v.iter_mut() {
                    t.mark += 1;
                }
                let got: Vec<(Option<P>, TR)> = v.iter().map(|(p, t)| (*p, t.rec())).collect();
                for p in s.m.order.clone() {
                    s.m.get_mut(p).unwrap().mark += 1;
                }
                let mut ids = HSet::default();
                for (p, r) in got {
                    chk!(cx, C11 | C09, ids.insert(r.id), "mutable iteration yields value {} twice", r.id);
                    if let Some(p) = p {
                        chk!(cx, C11 | C01, s.m.get(p) == Some(&r), "mutable iteration: {p:?} with {r:?}, model {:?}", s.m.get(p));
                    }
                }
                cx.ev(C11, "mutable_iteration");
                s.post(cx, rng, (0, 0), Cap::Same, len0, C11, true)?;
            }
            "iters" => {
                let s = &self.s[i];
                let via = rng.n(4);
                let v: Vec<(Option<P>, Option<TR>)> = match via {
                    0 => s.a.ptrs().map(|p| (Some(p), None)).collect(),
                    1 => s.a.vals().map(|t| (None, Some(t.rec()))).collect(),
                    2 => s.a.iter().map(|(p, t)| (Some(p), Some(t.rec()))).collect(),
                    _ => (&s.a).into_iter().map(|(p, t)| (Some(p), Some(t.rec()))).collect(),
                };
                chk!(cx, C11 | MAIN, v.len() == len0, "iterator {via} yields {} of {len0}", v.len());
                let (mut ps, mut ids) = (HSet::default(), HSet::default());
                let want: HSet<u64> = s.m.order.iter().map(|p| s.m.get(*p).unwrap().id).collect();
                for (p, r) in v {
                    if let Some(p) = p {
                        chk!(cx, C11 | C01 | MAIN, ps.insert(p) && s.m.has(p), "iterator {via} yields {p:?} twice or stale");
                        if let Some(r) = r {
                            chk!(cx, C11 | MAIN, s.m.get(p) == Some(&r), "iterator {via} pairs {p:?} with {r:?}");
                        }
                    }
                    if let Some(r) = r {
                        chk!(cx, C11 | MAIN, ids.insert(r.id) && want.contains(&r.id), "iterator {via} yields value {r:?} twice or stale");
                    }
                }
                cx.ev(C11, "iteration");
                cx.poll()?;
            }
            "clear" | "clear_and_shrink" => {
                let s = &mut self.s[i];
                let shrink = name == "clear_and_shrink";
                let via = rng.p(1, 4);
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || match (shrink, via) {
                        (false, false) => a.clear(),
                        (true, false) => a.clear_and_shrink(),
                        (false, true) => ArenaTrait::clear(a),
                        (true, true) => ArenaTrait::clear_and_shrink(a),
                    })?
                };
                if r.is_none() {
                    return s.post(cx, rng, (0, 0), Cap::Same, len0, C16, true)
                }
                s.kill_all();
                let c = if shrink { Cap::Exact(0) } else { Cap::Same };
                cx.ev(C18, "cleared");
                s.post(cx, rng, (1, 1), c, len0, 0, true)?;
            }
            "compress" => {
                let s = &mut self.s[i];
                let mut got: Vec<(P, TR, P)> = vec![];
                let with = rng.p(4, 5);
                let before: Vec<P> = s.a.ptrs().collect();
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || {
                        if with {
                            a.compress_and_shrink_with(|p, t, n| {
                                got.push((p, t.rec(), n));
                                tick(K_CLOSURE);
                                t.mark += 1;
                            })
                        } else {
                            a.compress_and_shrink();
                        }
                    })?
                };
                if r.is_none() {
                    chk!(cx, C16, got.is_empty(), "callback ran before the limit panic");
                    return s.post(cx, rng, (0, 0), Cap::Same, len0, C16, true)
                }
                cx.taint |= C13;
                cx.ev(C13, "compression");
                if len0 < s.b.cap {
                    cx.ev(C13, "compression_with_holes");
                }
                let old = s.m.clone();
                s.kill_all();
                if !with {
                    // identify by value
                    let byid: HMap<u64, P> = old.order.iter().map(|p| (old.get(*p).unwrap().id, *p)).collect();
                    for (n, t) in s.a.iter() {
                        match byid.get(&t.id) {
                            Some(p) => got.push((*p, t.rec(), n)),
                            None => chk!(cx, C13, false, "unknown value {:?} after compression", t.rec()),
                        }
                    }
                }
                let mut olds = HSet::default();
                chk!(cx, C13, got.len() == len0, "compression reported {} of {len0} entries", got.len());
                let g = P::gnum(s.a.generation());
                for (p, r, n) in &got {
                    chk!(cx, C13, olds.insert(*p), "compression reported {p:?} twice");
                    match old.get(*p) {
                        Some(m) => chk!(cx, C13, m == r, "compression: {p:?} had {r:?}, model {m:?}"),
                        None => chk!(cx, C13, false, "compression reported {p:?}, which was not valid"),
                    }
                    let live = s.m.has(*n);
                    s.b.issue(cx, *n, live, g)?;
                    let mut r = *r;
                    r.mark += with as u64;
                    s.m.insert(*n, r);
                }
                let _ = before;
                s.post(cx, rng, (1, 1), Cap::Exact(len0), len0, C13, true)?;
            }
            "recast" => self.recast(cx, rng, i)?,
            "reserve" => {
                let s = &mut self.s[i];
                let n = if P::INX_MAX <= 65535 && rng.p(1, 3) {
                    let room = P::INX_MAX as usize - s.b.cap;
                    (room + 1).saturating_sub(rng.n(4)).min(if rng.p(1, 10) { 70000 } else { 300 })
                } else {
                    rng.n(9)
                };
                let must = (len0 + n) as u128 > P::INX_MAX;
                let may = (s.b.cap + n) as u128 > P::INX_MAX;
                let r = {
                    let a = &mut s.a;
                    if must || !may {
                        cx.lim(must, || a.reserve(n))?.is_some()
                    } else {
                        catch(|| a.reserve(n)).is_ok()
                    }
                };
                if !r {
                    s.b.cap = s.a.capacity();
                    s.post(cx, rng, (0, 0), Cap::Same, len0, C16, true)?;
                } else {
                    cx.ev(C18, "reserved");
                    let c = Cap::Range(s.b.cap.max(len0 + n), s.b.cap + n);
                    s.post(cx, rng, (0, 0), c, len0, 0, full)?;
                }
            }
            "clone" | "clone_from" | "clone_from_with" => self.clone_op(cx, rng, i, o, name)?,
            "eq" => self.eq_op(cx, rng, i, o)?,
            "drain" => {
                if blocked && len0 == 0 {
                    return Ok(())
                }
                let s = &mut self.s[i];
                let take = if rng.p(1, 2) { usize::MAX } else { rng.n(len0 + 1) };
                let mut got: Vec<(P, Tok)> = vec![];
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || {
                        let mut d = a.drain();
                        while got.len() < take {
                            match d.next() {
                                Some(x) => got.push(x),
                                None => break,
                            }
                        }
                    })?
                };
                if r.is_none() {
                    return s.post(cx, rng, (0, 0), Cap::Same, len0, C16, true)
                }
                cx.taint |= C11;
                cx.ev(C11, if take == usize::MAX { "full_drain" } else { "partial_drain" });
                chk!(cx, C11, got.len() == take.min(len0), "drain yields {} of {}", got.len(), take.min(len0));
                let mut ps = HSet::default();
                for (p, t) in &got {
                    chk!(cx, C11 | C08, ps.insert(*p), "drain yields {p:?} twice");
                    chk!(cx, C11 | C08 | C01, s.m.get(*p).map(|r| same(t, r)) == Some(true), "drain yields {p:?} with {:?}, model {:?}", t.rec(), s.m.get(*p));
                }
                drop(got);
                s.kill_all();
                let d = if len0 == 0 { (0, 1) } else { (1, 1 + len0 as u128) };
                s.post(cx, rng, d, Cap::Same, len0, C11, true)?;
            }
            "into_iter" => {
                let take = if rng.p(1, 2) { usize::MAX } else { rng.n(len0 + 1) };
                let via = rng.p(1, 2);
                let s = &mut self.s[i];
                let a = std::mem::replace(&mut s.a, Arena::new());
                let mut it = if via { a.into_iter() } else { a.capacity_drain() };
                let mut got = vec![];
                while got.len() < take {
                    match it.next() {
                        Some(x) => got.push(x),
                        None => break,
                    }
                }
                drop(it);
                chk!(cx, C11, got.len() == take.min(len0), "by-value iteration yields {} of {}", got.len(), take.min(len0));
                let mut ps = HSet::default();
                for (p, t) in &got {
                    chk!(cx, C11 | C08, ps.insert(*p), "by-value iteration yields {p:?} twice");
                    chk!(cx, C11 | C08 | C01, s.m.get(*p).map(|r| same(t, r)) == Some(true), "by-value iteration yields {p:?} with {:?}, model {:?}", t.rec(), s.m.get(*p));
                }
                cx.ev(C11, "by_value_iteration");
                // fresh arena from the values
                *s = S {
                    a: Arena::new(),
                    m: Live::new(),
                    b: Book::new(MAIN),
                };
                let n = got.len();
                let recs: HMap<u64, TR> = got.iter().map(|(_, t)| (t.id, t.rec())).collect();
                s.a = Hinted::new(rng, got.into_iter().map(|x| x.1)).collect();
                chk!(cx, C11 | MAIN, s.a.len() == n, "from_iter has {} of {n}", s.a.len());
                let g = P::gnum(s.a.generation());
                let items: Vec<(P, TR)> = s.a.iter().map(|(p, t)| (p, t.rec())).collect();
                for (p, r) in items {
                    chk!(cx, C11 | MAIN, recs.get(&r.id) == Some(&r), "from_iter holds {r:?}");
                    s.b.issue(cx, p, false, g)?;
                    s.m.insert(p, r);
                }
                s.b.cap = s.a.capacity();
                s.post(cx, rng, (0, 0), Cap::Range(n, (4 * n).max(64)), n, 0, true)?;
            }
            "advance" => {
                if !self.in_body {
                    self.in_body = true;
                    let r = self.advance(cx, rng, i);
                    self.in_body = false;
                    r?;
                }
            }
            "burn" => {
                // many invalidations in a row
                let n = burn_count::<P>(cx, rng, self.s[i].b.gen);
                let s = &mut self.s[i];
                if let Some(mut p) = s.m.order.first().copied() {
                    let r = s.m.remove(p).unwrap();
                    s.b.kill(p);
                    for _ in 0..n {
                        if P::HG && s.b.gen == P::GEN_MAX {
                            break
                        }
                        match s.a.invalidate(p) {
                            Some(n) => {
                                let g = P::gnum(s.a.generation());
                                chk!(cx, C23 | C16, !P::HG || g == s.b.gen + 1, "generation {} to {g}", s.b.gen);
                                s.b.gen = g;
                                s.b.issue(cx, n, false, g)?;
                                p = n;
                                s.b.kill(p);
                            }
                            None => chk!(cx, MAIN | C16 | C01, false, "invalidate of live {p:?} failed"),
                        }
                    }
                    s.b.dead.pop();
                    s.m.insert(p, r);
                    if s.b.blocked() {
                        cx.ev(C16, "generation_limit_reached");
                    }
                }
                s.post(cx, rng, (0, 0), Cap::Same, len0, 0, true)?;
            }
            "fill" => {
                // up to the index limit
                if P::INX_MAX > 65535 || (P::INX_MAX > 255 && (cx.miri || !rng.p(1, 25))) {
                    return Ok(())
                }
                let leave = if rng.p(2, 3) { 0 } else { rng.n(3) };
                while (self.s[i].m.len() as u128) < P::INX_MAX - leave as u128 {
                    let t = self.tok(rng);
                    let r = t.rec();
                    let s = &mut self.s[i];
                    let l0 = s.m.len();
                    let p = if rng.p(1, 2) { s.a.insert(t) } else { s.a.insert_with(|_| t) };
                    let g = P::gnum(s.a.generation());
                    let live = s.m.has(p);
                    s.b.issue(cx, p, live, g)?;
                    s.m.insert(p, r);
                    s.post(cx, rng, (0, 0), Cap::Ins, l0, 0, false)?;
                }
                cx.ev(C16, "index_limit_reached");
                self.s[i].full(cx, rng, 0)?;
            }
            "free_slots" => {
                // the number of insertions without growth is exactly the number of free slots
                let s = &self.s[i];
                let n = s.b.cap - len0;
                if n > 40 {
                    return Ok(())
                }
                for k in 0..=n {
                    let t = self.tok(rng);
                    let r = t.rec();
                    let s = &mut self.s[i];
                    let l0 = s.m.len();
                    let res = s.a.try_insert(t);
                    chk!(cx, C18 | MAIN, res.is_ok() == (k < n), "with {n} free slots insertion {k} is_ok {}", res.is_ok());
                    if let Ok(p) = res {
                        let g = P::gnum(s.a.generation());
                        let live = s.m.has(p);
                        s.b.issue(cx, p, live, g)?;
                        s.m.insert(p, r);
                    }
                    s.post(cx, rng, (0, 0), Cap::Same, l0, 0, false)?;
                }
                cx.ev(C18, "free_slots_counted");
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    /// result of a removal of `p`
    #[allow(clippy::too_many_arguments)]
    fn res_val(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, p: P, res: Option<Tok>, len0: usize, full: bool) -> R {
        let s = &mut self.s[i];
        let live_p = s.m.has(p);
        match res {
            Some(t) => {
                chk!(cx, MAIN | C01, live_p, "remove({p:?}) of a dead Ptr worked");
                let m = s.rem(p).unwrap();
                chk!(cx, MAIN | C08 | C01, same(&t, &m), "remove({p:?}) gave {:?} not {m:?}", t.rec());
                drop(t);
                s.post(cx, rng, (1, 1), Cap::Same, len0, 0, full)
            }
            None => {
                chk!(cx, MAIN | C01, !live_p, "remove({p:?}) of a live Ptr failed");
                cx.ev(C17, "rejected");
                s.post(cx, rng, (0, 0), Cap::Same, len0, C17, true)
            }
        }
    }

    fn clone_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, o: usize, name: &str) -> R {
        let salt = rng.n(5) as u64;
        let len = self.s[i].m.len();
        cx.taint |= C12;
        cx.ev(C12, "clone");
        let mut got: Vec<(P, TR)> = vec![];
        let mapped = name == "clone_from_with";
        let fresh = name == "clone" || i == o;
        let old = if fresh {
            let src = &self.s[i].a;
            let a = if mapped {
                let mut a = Arena::new();
                a.clone_from_with(src, |p, t| {
                    tick(K_CLOSURE);
                    got.push((p, t.rec()));
                    Tok::new(t.val + salt)
                });
                a
            } else {
                src.clone()
            };
            // a clone replaces another arena, or becomes a new one
            let s = S {
                a,
                m: Live::new(),
                b: Book::new(MAIN),
            };
            if i == o || self.s.len() < 3 {
                if self.s.len() < 4 {
                    self.s.push(s);
                    None
                } else {
                    let k = self.s.len() - 1;
                    let k = if k == i { 0 } else { k };
                    Some((k, std::mem::replace(&mut self.s[k], s)))
                }
            } else {
                Some((o, std::mem::replace(&mut self.s[o], s)))
            }
        } else {
            cx.ev(C12, "clone_into_existing");
            let (s, d) = two(&mut self.s, i, o);
            if mapped {
                d.a.clone_from_with(&s.a, |p, t| {
                    tick(K_CLOSURE);
                    got.push((p, t.rec()));
                    Tok::new(t.val + salt)
                });
            } else {
                d.a.clone_from(&s.a);
            }
            None
        };
        let di = match (&old, fresh) {
            (Some((k, _)), _) => *k,
            (None, true) => self.s.len() - 1,
            (None, false) => o,
        };
        drop(old);
        if mapped {
            let s = &self.s[i];
            let mut ps = HSet::default();
            chk!(cx, C12, got.len() == len, "the mapping ran {} times for {len} elements", got.len());
            for (p, r) in &got {
                chk!(cx, C12, ps.insert(*p) && s.m.get(*p) == Some(r), "the mapping got {p:?} {r:?}, model {:?}", s.m.get(*p));
            }
        }
        let (s, d) = two(&mut self.s, i, di);
        let (sc, dc) = (s.b.cap, d.b.cap);
        d.m.clear();
        d.b.adopt_clone(&s.b);
        for p in s.m.order.clone() {
            let r = *s.m.get(p).unwrap();
            match d.a.get(p) {
                Some(t) => {
                    let parent_ok = if mapped { t.val == r.val + salt } else { t.val == r.val && t.mark == r.mark && reg_parent(t.id) == r.id };
                    chk!(cx, C12 | C01, parent_ok && t.ok(), "image of {p:?} is {:?} (clone of {}), source {r:?}", t.rec(), reg_parent(t.id) as i64);
                    d.m.insert(p, t.rec());
                }
                None => chk!(cx, C12 | C01, false, "{p:?} is not valid in the clone"),
            }
        }
        d.post(cx, rng, (0, 0), if fresh { Cap::Range(len, sc.max(len)) } else { Cap::Range(len.max(dc), sc.max(dc)) }, len, C12, true)?;
        s.post(cx, rng, (0, 0), Cap::Same, len, C12, true)
    }

    fn eq_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, o: usize) -> R {
        // a copy with at most one difference
        let mut c = self.s[i].a.clone();
        let s = &self.s[i];
        chk!(cx, C19 | C12, s.a == c && c == s.a, "an arena is not equal to its clone");
        #[allow(clippy::eq_op)]
        {
            chk!(cx, C19, s.a == s.a, "an arena is not equal to itself");
        }
        let same_gen_room = !s.b.blocked();
        let mut expect = true;
        let kind = rng.n(7);
        match kind {
            0 => c.reserve(if (s.b.cap as u128 + 3) < P::INX_MAX { 3 } else { 0 }),
            1 if s.m.len() > 0 => {
                let p = *rng.pick(&s.m.order);
                c[p].val += 1;
                expect = false;
            }
            2 if s.m.len() > 0 && same_gen_room => {
                let p = *rng.pick(&s.m.order);
                c.remove(p);
                expect = false;
            }
            3 if s.m.len() > 0 && same_gen_room => {
                let p = *rng.pick(&s.m.order);
                let n = c.invalidate(p).unwrap();
                expect = n == p;
            }
            4 if s.m.len() > 1 => {
                let p = *rng.pick(&s.m.order);
                let q = *rng.pick(&s.m.order);
                expect = c[p] == c[q];
                c.swap(p, q);
            }
            5 if (s.m.len() as u128) < P::INX_MAX => {
                let p = c.insert(Tok::new(5));
                expect = false;
                if P::HG && same_gen_room && rng.p(1, 2) {
                    c.remove(p);
                    expect = true;
                }
            }
            _ => (),
        }
        cx.ev(C19, if expect { "equal_pair" } else { "near_identical_pair" });
        chk!(cx, C19, (s.a == c) == expect, "equality with a copy (variation {kind}) is {} but should be {expect}", s.a == c);
        chk!(cx, C19, (c == s.a) == expect, "reverse equality with a copy (variation {kind}) is {}", c == s.a);
        let d = &self.s[o];
        let s = &self.s[i];
        let want = s.m.len() == d.m.len()
            && s.m.order.iter().all(|p| match (s.m.get(*p), d.m.get(*p)) {
                (Some(x), Some(y)) => x.val == y.val && x.mark == y.mark,
                _ => false,
            });
        chk!(cx, C19, (s.a == d.a) == want && (d.a == s.a) == want, "equality of two arenas is {} / {} but should be {want}", s.a == d.a, d.a == s.a);
        cx.poll()
    }

    fn recast(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize) -> R {
        let s = &self.s[i];
        if s.b.blocked() {
            return Ok(())
        }
        let mut g: Arena<P, PNode<P>> = Arena::new();
        let order = &s.m.order;
        g.clone_from_with(&s.a, |_, t| PNode {
            val: t.id,
            ps: (0..rng.n(3)).map(|_| *rng.pick(order)).collect(),
        });
        let want: HMap<u64, Vec<u64>> = g
            .iter()
            .map(|(_, n)| (n.val, n.ps.iter().map(|p| s.m.get(*p).unwrap().id).collect()))
            .collect();
        let rec = g.compress_and_shrink_recaster();
        chk!(cx, C13, rec.len() == s.m.len(), "recaster has {} of {} entries", rec.len(), s.m.len());
        for p in order {
            match rec.get(*p) {
                Some(n) => match g.get(*n) {
                    Some(node) => chk!(cx, C13, node.val == s.m.get(*p).unwrap().id, "recaster maps {p:?} to {n:?}, another element"),
                    None => chk!(cx, C13, false, "recaster maps {p:?} to {n:?}, which is invalid"),
                },
                None => chk!(cx, C13, false, "recaster does not know {p:?}"),
            }
        }
        cx.ev(C13, "recast");
        let bad = if rng.p(1, 3) && P::HG { s.b.dead.last().copied().filter(|p| !s.m.has(*p)) } else { None };
        if let (Some(bad), Some(at)) = (bad, g.ptrs().next()) {
            g[at].ps.push(bad);
            let r = g.recast(&rec);
            chk!(cx, C13, r == Err(bad), "recasting an unknown {bad:?} gives {r:?}");
            cx.ev(C13, "recast_unknown_ptr");
        } else {
            let r = g.recast(&rec);
            chk!(cx, C13, r.is_ok(), "recast failed with {r:?}");
            for (_, n) in g.iter() {
                let got: Vec<Option<u64>> = n.ps.iter().map(|p| g.get(*p).map(|x| x.val)).collect();
                let w: Vec<Option<u64>> = want[&n.val].iter().map(|x| Some(*x)).collect();
                chk!(cx, C13, got == w, "recast Ptrs lead to {got:?} instead of {w:?}");
            }
        }
        cx.poll()
    }

    fn advance(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize) -> R {
        let s = &self.s[i];
        let mut cont: HMap<P, u64> = s.m.order.iter().map(|p| (*p, s.m.get(*p).unwrap().id)).collect();
        let mut adv = if rng.p(1, 2) { s.a.advancer() } else { ArenaTrait::advancer(&s.a) };
        let mut seen: HSet<(P, u64)> = HSet::default();
        let mut budget = rng.n(24);
        let mut steps = 0usize;
        let quiet = rng.p(1, 6);
        let (start, issues0) = (cont.len(), s.b.issues);
        // without a generation elements are identified by `Ptr` and value
        let key = |s: &S<P>, p: P| (p, if P::HG { 0 } else { s.m.get(p).unwrap().id });
        loop {
            let p = adv.advance(&self.s[i].a);
            steps += 1;
            let Some(p) = p else { break };
            let s = &self.s[i];
            chk!(cx, C10 | C01, s.a.contains(p) && s.m.has(p), "advancer yields {p:?}, which is invalid");
            chk!(cx, C10, seen.insert(key(s, p)), "advancer yields the element of {p:?} twice");
            cx.ev(C10, "advanced");
            let born = s.b.issues - issues0;
            chk!(cx, C10, steps <= start + born + 1, "advancer made {steps} steps with {start} elements at the start and {born} insertions");
            if !quiet {
                let mut k = rng.n(3);
                while k > 0 && budget > 0 {
                    k -= 1;
                    budget -= 1;
                    let op = *rng.pick(BODY);
                    if !P::HG && matches!(TAB[op].0, "swap" | "replace_update") {
                        continue
                    }
                    // removal of what was just yielded is the typical use
                    if op == 5 && rng.p(1, 2) && !self.s[i].b.blocked() && self.s[i].m.has(p) {
                        let len0 = self.s[i].m.len();
                        cx.op(MAIN | C10, 77, || format!("arena{i}.remove({p:?}) of the yielded Ptr"));
                        let r = self.s[i].a.remove(p);
                        self.res_val(cx, rng, i, p, r, len0, true)?;
                    } else {
                        self.step(cx, rng, i, op, true)?;
                    }
                    let s = &self.s[i];
                    cont.retain(|p, id| s.m.get(*p).map(|r| P::HG || r.id == *id) == Some(true));
                    cx.ev(C10, "mutation_during_advance");
                }
            }
        }
        for (p, id) in &cont {
            chk!(cx, C10, seen.contains(&(*p, if P::HG { 0 } else { *id })), "{p:?} was valid during the whole loop but was not visited");
        }
        if start > 0 {
            cx.ev(C10, "complete_loop");
        }
        Ok(())
    }
}

pub fn two<T>(v: &mut [T], i: usize, j: usize) -> (&mut T, &mut T) {
    assert!(i != j);
    if i < j {
        let (a, b) = v.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let mut w: W<P> = W::new(cx, rng)?;
    w.run(cx, rng)?;
    // the arenas go away in any order, then nothing may be left
    cx.op(C08 | C09, 1, || "drop all".to_string());
    while !w.s.is_empty() {
        let k = rng.n(w.s.len());
        drop(w.s.swap_remove(k));
    }
    drop(w);
    end_of_case(cx)
}

/// all values must be gone
pub fn end_of_case(cx: &mut Cx) -> R {
    cx.poll()?;
    let left = reg_alive_count();
    chk!(cx, C08, left == 0, "{left} values were neither dropped nor returned, first ids {:?}", &reg_alive_ids()[..left.min(5) as usize]);
    if reg_born() > 0 {
        cx.ev(C08, "values_accounted");
    }
    Ok(())
}
