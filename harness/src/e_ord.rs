//! Engine for `OrdArena`: random histories with a lawful ordering against a sorted list
use std::cmp::Ordering;

use recasting::{Recast, Recaster};
use triple_arena::{utils::PtrInx, Advancer, Arena, ArenaTrait, ChainArena, OrdArena};

use crate::{
    cx::*,
    e_arena::{end_of_case, two},
    model::*,
    ptrs::*,
    rng::*,
    tok::*,
};

pub type OA<P> = OrdArena<P, Key, Tok>;

pub const TAB: &OpTab = &[
    ("insert", 22, C05 | C06, GROW),
    ("insert_nonhereditary", 8, C05, GROW),
    ("insert_linear", 8, C05, GROW),
    ("insert_nonhereditary_linear", 4, C05, GROW),
    ("insert_manual", 8, C05 | C17, GROW),
    ("insert_empty", 3, C17 | C08, NEU),
    ("remove", 26, C01 | C05 | C06 | C08 | C23, SHRINK),
    ("invalidate", 8, C01 | C05 | C23, NEU),
    ("replace_keep", 5, C17 | C08, NEU),
    ("replace_update", 6, C17 | C08 | C01 | C23, NEU),
    ("swap_vals", 6, C05 | C17, NEU),
    ("get_mut", 5, C05, NEU),
    ("get2_val_mut", 6, C09 | C17, NEU),
    ("find", 10, C05 | C06, NEU),
    ("neighbours", 5, C05 | C01, NEU),
    ("vals_mut", 3, C11 | C09, NEU),
    ("iters", 4, C11, NEU),
    ("drain", 3, C11 | C08 | C16, RARE),
    ("into_iter", 2, C11 | C08, RARE),
    ("clear", 2, C18 | C08 | C23, RARE),
    ("clear_and_shrink", 2, C18 | C08, RARE),
    ("compress", 5, C13 | C23 | C18 | C06, RARE),
    ("recast", 3, C13, RARE),
    ("reserve", 4, C18 | C16, NEU),
    ("clone", 4, C12, RARE),
    ("clone_from", 5, C12 | C18, RARE),
    ("clone_from_with", 4, C12, RARE),
    ("clone_to", 4, C12, NEU),
    ("eq", 5, C19, NEU),
    ("advance", 5, C10, NEU),
    ("burn", 1, C16 | C01, NEU),
    ("fill", 1, C16 | C18, RARE),
    ("trait_view", 3, C05, NEU),
];

const BODY: &[usize] = &[0, 0, 1, 2, 3, 4, 6, 6, 6, 6, 7, 8, 9, 9, 10, 11, 23];
const MAIN: Tags = C05;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct E {
    pub k: u64,
    pub kr: TR,
    pub vr: TR,
}

pub struct S<P: TP> {
    pub a: OA<P>,
    pub m: Live<P, E>,
    /// ascending
    pub seq: Vec<P>,
    pub b: Book<P>,
}

pub struct W<P: TP> {
    pub s: Vec<S<P>>,
    pub cfg: Cfg,
    /// number of different keys
    dom: usize,
    vals: u64,
    in_body: bool,
    /// the body of an ordered walk must not invalidate this
    protect: Option<P>,
}

/// no path is longer than this
pub fn bound(n: usize) -> u64 {
    (2.0 * ((n + 1) as f64).log2()).floor() as u64 + 1
}

struct PN<P>(u64, Vec<P>);
impl<P: TP> Recast<P> for PN<P> {
    fn recast<R: Recaster<Item = P>>(&mut self, r: &R) -> Result<(), P> {
        for p in &mut self.1 {
            r.recast_item(p)?;
        }
        Ok(())
    }
}

fn samek(k: &Key, e: &E) -> bool {
    k.k == e.k && same(&k.t, &e.kr)
}

impl<P: TP> S<P> {
    pub fn blank(a: OA<P>) -> Self {
        S {
            a,
            m: Live::new(),
            seq: vec![],
            b: Book::new(MAIN),
        }
    }

    pub fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self> {
        let s = match rng.n(3) {
            0 => {
                let c = rng.n(12);
                let mut s = S::blank(OrdArena::with_capacity(c));
                s.b.cap = c;
                s
            }
            1 => S::blank(<OA<P> as ArenaTrait>::new()),
            _ => S::blank(OrdArena::new()),
        };
        chk!(cx, C18, s.a.capacity() == s.b.cap, "new arena: capacity {} not {}", s.a.capacity(), s.b.cap);
        if P::HG {
            chks!(cx, C23, P::gnum(s.a.generation()) == 2, "new arena: generation {:?}", s.a.generation());
        }
        Ok(s)
    }

    pub fn e(&self, p: P) -> E {
        *self.m.get(p).unwrap()
    }

    pub fn pos(&self, p: P) -> usize {
        let k = self.e(p).k;
        let (lo, hi) = self.range(k);
        lo + self.seq[lo..hi].iter().position(|x| *x == p).unwrap()
    }

    /// positions of the entries with key `k`
    pub fn range(&self, k: u64) -> (usize, usize) {
        let lo = self.seq.partition_point(|p| self.e(*p).k < k);
        let hi = self.seq.partition_point(|p| self.e(*p).k <= k);
        (lo, hi)
    }

    /// puts a new entry into the model, at the place where the arena has it, which must be right
    fn add(&mut self, cx: &mut Cx, p: P, e: E) -> R {
        let g = P::gnum(self.a.generation());
        let live = self.m.has(p);
        self.b.issue(cx, p, live, g)?;
        let (lo, hi) = self.range(e.k);
        let pos = if lo == hi {
            lo
        } else {
            let Some(l) = self.a.get_link(p) else {
                chk!(cx, MAIN | C01, false, "new {p:?} has no link");
                unreachable!()
            };
            let pos = match l.prev() {
                None => 0,
                Some(x) => match self.seq.iter().position(|y| *y == x) {
                    Some(i) => i + 1,
                    None => {
                        chk!(cx, MAIN, false, "new {p:?} follows unknown {x:?}");
                        unreachable!()
                    }
                },
            };
            chk!(cx, MAIN, lo <= pos && pos <= hi, "new {p:?} with key {} is at position {pos} but equal keys are at {lo}..{hi}", e.k);
            cx.ev(MAIN, "duplicate_key_inserted");
            pos
        };
        self.seq.insert(pos, p);
        self.m.insert(p, e);
        Ok(())
    }

    fn rem(&mut self, p: P) -> E {
        let i = self.pos(p);
        self.seq.remove(i);
        self.b.kill(p);
        self.m.remove(p).unwrap()
    }

    fn rename(&mut self, cx: &mut Cx, p: P, n: P) -> R {
        let g = P::gnum(self.a.generation());
        let i = self.pos(p);
        let e = self.m.remove(p).unwrap();
        self.b.kill(p);
        let live = self.m.has(n);
        self.b.issue(cx, n, live, g)?;
        self.seq[i] = n;
        self.m.insert(n, e);
        Ok(())
    }

    pub fn kill_all(&mut self) {
        for p in std::mem::take(&mut self.seq) {
            self.b.kill(p);
        }
        self.m.clear();
    }

    /// number of key comparisons of a call
    fn cmps<T>(&self, f: impl FnOnce(&OA<P>) -> T) -> (T, u64) {
        let c = count(K_CMP);
        let t = f(&self.a);
        (t, count(K_CMP) - c)
    }

    /// The most comparisons that a search for `k` makes when it starts with up to `num` linear ones
    /// at `init`. `gap` is for searches that also end at the place where a missing key would be.
    fn lin_bound(&self, init: P, num: usize, k: u64, gap: bool) -> u64 {
        // however many are allowed, walking to an end takes no more than this
        let lin = num.min(2 * self.seq.len() + 2) as u64;
        let bnd = bound(self.seq.len()) + lin;
        let (lo, hi) = self.range(k);
        let Some(i) = self.seq.iter().position(|x| *x == init) else {
            return bnd - lin;
        };
        let steps = if lo < hi {
            1 + if i < lo { lo - i } else { i.saturating_sub(hi - 1) }
        } else if !gap {
            return bnd;
        } else if i < lo {
            lo - i + (lo < self.seq.len()) as usize
        } else {
            i - lo + 1 + (lo > 0) as usize
        };
        if steps <= num {
            steps as u64
        } else {
            bnd
        }
    }

    /// all lookups for one key
    fn finds(&self, cx: &mut Cx, rng: &mut Rng, k: u64, t: Tags) -> R {
        let (lo, hi) = self.range(k);
        let eq = &self.seq[lo..hi];
        let key = Key::new(k);
        let n = self.seq.len();
        let bnd = bound(n);
        let hit = |p: Option<P>| match p {
            Some(p) => eq.contains(&p),
            None => eq.is_empty(),
        };
        let sim = |r: Option<(P, Ordering)>| match r {
            None => n == 0,
            Some((p, Ordering::Equal)) => eq.contains(&p),
            Some((p, o)) => {
                eq.is_empty()
                    && match o {
                        Ordering::Less => self.seq.get(lo) == Some(&p),
                        _ => lo > 0 && self.seq[lo - 1] == p,
                    }
            }
        };
        let init = if n > 0 && rng.p(3, 4) {
            if rng.p(1, 2) {
                // nearby
                self.seq[(lo + rng.n(5)).saturating_sub(2).min(n - 1)]
            } else {
                *rng.pick(&self.seq)
            }
        } else {
            self.b.pick(rng, &self.seq, &[])
        };
        let num = *rng.pick(&[0, 1, 2, 3, 5, n + 1, usize::MAX]);
        let (r, c) = self.cmps(|a| a.find_key(&key));
        chk!(cx, MAIN | t, hit(r), "find_key({k}) is {r:?}, entries with that key: {eq:?}");
        chk!(cx, C06, c <= bnd, "find_key with {n} entries made {c} comparisons, bound {bnd}");
        let (r, c) = self.cmps(|a| a.find_similar_key(&key));
        chk!(cx, MAIN | t, sim(r), "find_similar_key({k}) is {r:?}, entries with that key: {eq:?} at position {lo} of {n}");
        chk!(cx, C06, c <= bnd, "find_similar_key with {n} entries made {c} comparisons, bound {bnd}");
        let (r, c) = self.cmps(|a| a.find_key_linear(init, num, &key));
        chk!(cx, MAIN | t, hit(r), "find_key_linear({init:?}, {num}, {k}) is {r:?}, entries with that key: {eq:?}");
        let lb = self.lin_bound(init, num, k, false);
        chk!(cx, C06, c <= lb, "find_key_linear({num}) with {n} entries made {c} comparisons, bound {lb}");
        let (r, c) = self.cmps(|a| a.find_similar_key_linear(init, num, &key));
        chk!(cx, MAIN | t, sim(r), "find_similar_key_linear({init:?}, {num}, {k}) is {r:?}, entries with that key: {eq:?} at position {lo} of {n}");
        let lb = self.lin_bound(init, num, k, true);
        chk!(cx, C06, c <= lb, "find_similar_key_linear({num}) with {n} entries made {c} comparisons, bound {lb}");
        if lb <= num as u64 {
            cx.ev(C06, "linear_search_in_reach");
        }
        // by closure, which must be given matching parts
        let mut bad = None;
        let mut calls = 0;
        let mut f = |p: P, x: &Key, v: &Tok| {
            calls += 1;
            if self.m.get(p).map(|e| samek(x, e) && same(v, &e.vr)) != Some(true) {
                bad = Some(p);
            }
            k.cmp(&x.k)
        };
        let r = self.a.find_with(&mut f);
        chk!(cx, MAIN | t, hit(r), "find_with for {k} is {r:?}, entries with that key: {eq:?}");
        let r = self.a.find_similar_with(&mut f);
        chk!(cx, MAIN | t, sim(r), "find_similar_with for {k} is {r:?}, entries with that key: {eq:?}");
        chk!(cx, MAIN | C01 | t, bad.is_none(), "the comparison closure got {bad:?} with another key or value");
        chk!(cx, C06, calls <= 2 * bnd, "find_with and find_similar_with with {n} entries made {calls} comparisons");
        cx.ev(MAIN | C06, if eq.is_empty() { "lookup_absent" } else { "lookup_present" });
        Ok(())
    }

    pub fn full(&self, cx: &mut Cx, rng: &mut Rng, t: Tags) -> R {
        let (a, m) = (&self.a, &self.m);
        let n = m.len();
        chk!(cx, MAIN | t, a.len() == n, "len {} but the model has {n}", a.len());
        chk!(cx, MAIN | t, a.is_empty() == (n == 0), "is_empty wrong");
        let mut i = 0;
        for (p, k, v) in a.iter() {
            chk!(cx, MAIN | C11 | t, i < n, "iteration yields more than len entries");
            match m.get(p) {
                None => chk!(cx, MAIN | C01 | C11 | t, false, "iteration yields {p:?} which is not live"),
                Some(e) => {
                    chk!(cx, MAIN | C11 | t, self.seq[i] == p, "iteration yields {p:?} (key {}) at position {i} instead of {:?} (key {})", k.k, self.seq[i], self.e(self.seq[i]).k);
                    chk!(cx, MAIN | C01 | C08 | C11 | t, samek(k, e), "{p:?} holds key {:?} instead of {e:?}", k.t.rec());
                    chk!(cx, MAIN | C01 | C08 | C11 | t, same(v, &e.vr), "{p:?} holds value {:?} instead of {e:?}", v.rec());
                }
            }
            i += 1;
        }
        chk!(cx, MAIN | C11 | t, i == n, "iteration yields {i} of {n} entries");
        chk!(cx, MAIN | t, a.first() == self.seq.first().copied(), "first is {:?} not {:?}", a.first(), self.seq.first());
        chk!(cx, MAIN | t, a.last() == self.seq.last().copied(), "last is {:?} not {:?}", a.last(), self.seq.last());
        for (i, p) in self.seq.iter().enumerate() {
            let e = self.e(*p);
            chk!(cx, MAIN | C01 | t, a.contains(*p), "{p:?} should be valid");
            chk!(cx, MAIN | C01 | C08 | t, a.get(*p).map(|(k, v)| samek(k, &e) && same(v, &e.vr)) == Some(true), "get({p:?}) is {:?} instead of {e:?}", a.get(*p));
            chk!(cx, MAIN | C01 | C08 | t, a.get_key(*p).map(|k| samek(k, &e)) == Some(true), "get_key({p:?}) is wrong");
            chk!(cx, MAIN | C01 | C08 | t, a.get_val(*p).map(|v| same(v, &e.vr)) == Some(true), "get_val({p:?}) is wrong");
            let prev = if i > 0 { Some(self.seq[i - 1]) } else { None };
            let next = self.seq.get(i + 1).copied();
            match a.get_link(*p) {
                Some(l) => {
                    chk!(cx, MAIN | C01 | t, l.prev_next() == (prev, next), "neighbours of {p:?} are {:?} instead of {:?}", l.prev_next(), (prev, next));
                    chk!(cx, MAIN | t, samek(l.t.0, &e) && same(l.t.1, &e.vr), "link of {p:?} holds something else");
                }
                None => chk!(cx, MAIN | C01 | t, false, "{p:?} should have a link"),
            }
            match a.get_link_no_gen(p.inx()) {
                Some((g, l)) => chk!(cx, MAIN | C01 | t, l.prev_next() == (prev.map(|p| p.inx()), next.map(|p| p.inx())) && (!P::HG || P::gnum(g) == p.g()) && samek(l.t.0, &e), "get_link_no_gen of {p:?} is wrong"),
                None => chk!(cx, MAIN | C01 | t, false, "{p:?} should have a link"),
            }
        }
        // lookups: all present keys of a small arena, else some
        if n <= 24 {
            for p in self.seq.clone() {
                let k = self.e(p).k;
                let key = Key::new(k);
                let r = a.find_key(&key);
                chk!(cx, MAIN | t, r.map(|r| m.get(r).map(|e| e.k) == Some(k)) == Some(true), "find_key({k}) is {r:?} although {p:?} has that key");
            }
        }
        for _ in 0..2 {
            let k = if n > 0 && rng.p(2, 3) { (self.e(*rng.pick(&self.seq)).k + 1).saturating_sub(rng.n(3) as u64) } else { rng.n(100) as u64 };
            self.finds(cx, rng, k, t)?;
        }
        let d = &self.b.dead;
        let k = d.len().min(5);
        for j in 0..2 * k {
            let p = if j < k { d[d.len() - 1 - j] } else { *rng.pick(d) };
            let live = m.has(p);
            let acc = [a.contains(p), a.get_key(p).is_some(), a.get_val(p).is_some(), a.get(p).is_some(), a.get_link(p).is_some()];
            chk!(cx, C01 | t, acc.iter().all(|x| *x == live), "stale {p:?}: accepted {acc:?}");
            if P::HG {
                cx.ev(C01, "stale_ptr_rejected");
            }
        }
        for p in [P::invalid(), self.b.forge(rng, &m.order)] {
            let live = m.has(p);
            chk!(cx, C01 | t, a.contains(p) == live && a.get_val(p).is_some() == live, "{p:?}: contains is {}", !live);
        }
        Ok(())
    }

    pub fn post(&mut self, cx: &mut Cx, rng: &mut Rng, dgen: (u128, u128), cap: Cap, len0: usize, t: Tags, full: bool) -> R {
        let (g, c) = (P::gnum(self.a.generation()), self.a.capacity());
        self.b.meta(cx, g, dgen, c, cap, len0, t)?;
        cx.poll()?;
        if full {
            self.full(cx, rng, t)?;
            cx.ev(MAIN, "model_compared");
            let v: Vec<usize> = self.seq.iter().map(|p| p.i()).collect();
            cx.state(h(&(v, c)));
        }
        Ok(())
    }
}

impl<P: TP> W<P> {
    pub fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self> {
        let cfg = Cfg::new(cx, rng, TAB);
        let mut s = vec![];
        for _ in 0..cfg.arenas {
            s.push(S::new(cx, rng)?);
        }
        let dom = match rng.n(4) {
            0 => rng.range(1, 4),
            1 | 2 => cfg.target * 2 + 2,
            _ => 1 << 40,
        };
        Ok(W {
            s,
            cfg,
            dom,
            vals: 0,
            in_body: false,
            protect: None,
        })
    }

    pub fn tok(&mut self, rng: &mut Rng) -> Tok {
        self.vals += 1;
        Tok::new(if rng.p(1, 2) { rng.n(3) as u64 } else { self.vals + 100 })
    }

    pub fn key(&mut self, rng: &mut Rng, i: usize) -> u64 {
        let s = &self.s[i];
        match rng.n(8) {
            // sorted runs
            0 if !s.seq.is_empty() => s.e(*s.seq.last().unwrap()).k.saturating_add(1),
            1 if !s.seq.is_empty() => s.e(s.seq[0]).k.saturating_sub(1),
            2 if !s.seq.is_empty() => s.e(*rng.pick(&s.seq)).k,
            _ => 1000 + rng.n(self.dom) as u64,
        }
    }

    pub fn run(&mut self, cx: &mut Cx, rng: &mut Rng) -> R {
        let n = self.cfg.nops;
        let mut follow = None;
        // not too much time on a single case with tens of thousands of entries
        let mut budget = 700_000usize;
        for k in 0..n {
            let load: usize = self.s.iter().map(|s| s.m.len()).sum();
            if load > budget {
                break
            }
            budget -= load;
            let (i, op) = match follow.take() {
                Some(x) => x,
                None => {
                    let i = if rng.p(2, 3) { 0 } else { rng.n(self.s.len()) };
                    (i, self.cfg.next_op(rng, self.s[i].m.len()))
                }
            };
            follow = self.cfg.follow(rng, op).map(|f| (i, f));
            let full = k % self.cfg.every == 0 || k + 1 == n;
            self.step(cx, rng, i, op, full)?;
        }
        for s in &self.s {
            s.full(cx, rng, 0)?;
        }
        Ok(())
    }

    pub fn step(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, op: usize, full: bool) -> R {
        let name = TAB[op].0;
        let optag = TAB[op].2;
        let o = rng.n(self.s.len());
        let opick = self.s[o].seq.clone();
        let s = &self.s[i];
        let mut p = s.b.pick(rng, &s.seq, &opick);
        if !s.seq.is_empty() && rng.p(1, 10) {
            // the ends and the middle are interesting
            p = s.seq[*rng.pick(&[0, s.seq.len() - 1, s.seq.len() / 2])];
        }
        if self.protect == Some(p) && matches!(name, "remove" | "invalidate" | "replace_update") {
            return Ok(())
        }
        let q = if rng.p(1, 8) { p } else { s.b.pick(rng, &s.seq, &opick) };
        let len0 = s.m.len();
        let narrow = (P::GEN_MAX <= 65535 && P::HG && s.b.gen + 3 > P::GEN_MAX) || (P::INX_MAX <= 65535 && s.b.cap as u128 * 2 >= P::INX_MAX);
        let lt = if narrow { C16 } else { 0 };
        let k = self.key(rng, i);
        let s = &self.s[i];
        cx.op(MAIN | lt | (optag & (C12 | C13 | C11 | C10)), h(&(op, i, p, q, k, len0, s.b.cap)), || format!("ord{i}.{name} k={k} p={p:?} q={q:?} len={len0} cap={}", s.b.cap));
        if narrow {
            cx.ev(C16, "operation_near_limit");
        }
        let blocked = s.b.blocked();
        let at_max = s.m.len() as u128 == P::INX_MAX;
        let live_p = s.m.has(p);
        let live_q = s.m.has(q);
        let full = full && len0 < 400;
        const Z: (u128, u128) = (0, 0);
        const SM: Cap = Cap::Same;
        match name {
            "insert" | "insert_linear" | "insert_nonhereditary" | "insert_nonhereditary_linear" => {
                let (key, v) = (Key::new(k), self.tok(rng));
                let e = E {
                    k,
                    kr: key.t.rec(),
                    vr: v.rec(),
                };
                let s = &mut self.s[i];
                let num = *rng.pick(&[0, 1, 2, 4, 100, usize::MAX]);
                let (lo, hi) = s.range(k);
                let nonher = name.starts_with("insert_non");
                let repl = !nonher && lo < hi;
                let bnd = if name.ends_with("linear") {
                    s.lin_bound(p, num, k, true)
                } else {
                    bound(len0)
                };
                let c0 = count(K_CMP);
                let res = {
                    let a = &mut s.a;
                    cx.lim(at_max && !repl, || match name {
                        "insert" => a.insert(key, v),
                        "insert_linear" => a.insert_linear(p, num, key, v),
                        "insert_nonhereditary" => (a.insert_nonhereditary(key, v), None),
                        _ => (a.insert_nonhereditary_linear(p, num, key, v), None),
                    })?
                };
                let c = count(K_CMP) - c0;
                chk!(cx, C06, c <= bnd, "{name} with {len0} entries made {c} comparisons, bound {bnd}");
                match res {
                    Some((n, old)) if repl => {
                        chk!(cx, MAIN | C01, s.seq[lo..hi].contains(&n), "{name} of an existing key gives {n:?}, entries with that key: {:?}", &s.seq[lo..hi]);
                        let m = s.m.get_mut(n).unwrap();
                        match old {
                            Some((k2, v2)) => {
                                chk!(cx, MAIN | C08, samek(&k2, &e), "{name} of an existing key gives back key {:?} instead of the given one", k2.t.rec());
                                chk!(cx, MAIN | C08, same(&v2, &m.vr), "{name} of an existing key gives back value {:?} instead of {:?}", v2.rec(), m.vr);
                            }
                            None => chk!(cx, MAIN | C08, false, "{name} of an existing key gives nothing back"),
                        }
                        m.vr = e.vr;
                        cx.ev(MAIN, "value_replaced");
                        s.post(cx, rng, Z, SM, len0, 0, full)?;
                    }
                    Some((n, old)) => {
                        chk!(cx, MAIN | C08, old.is_none(), "{name} of a new key gives something back");
                        s.add(cx, n, e)?;
                        s.post(cx, rng, Z, Cap::Ins, len0, 0, full)?;
                    }
                    None => {
                        s.b.cap = s.a.capacity();
                        s.post(cx, rng, Z, SM, len0, C16, true)?;
                    }
                }
            }
            "insert_manual" => {
                let v = self.tok(rng);
                let s = &mut self.s[i];
                // the documented meaning of the direction, used such that the order stays lawful
                let here = s.seq.iter().find(|x| x.i() == p.i()).copied();
                let dir = *rng.pick(&[Ordering::Less, Ordering::Equal, Ordering::Greater]);
                let k = match here {
                    Some(x) => {
                        let j = s.pos(x);
                        let kx = s.e(x).k;
                        match dir {
                            Ordering::Less if j > 0 => {
                                let kl = s.e(s.seq[j - 1]).k;
                                kl + (kx - kl) / 2
                            }
                            Ordering::Less => kx.saturating_sub(rng.n(3) as u64),
                            Ordering::Greater if j + 1 < len0 => {
                                let kh = s.e(s.seq[j + 1]).k;
                                kx + (kh - kx) / 2
                            }
                            Ordering::Greater => kx.saturating_add(rng.n(3) as u64),
                            Ordering::Equal => kx,
                        }
                    }
                    None => k,
                };
                let key = Key::new(k);
                let e = E {
                    k,
                    kr: key.t.rec(),
                    vr: v.rec(),
                };
                let c0 = count(K_CMP);
                if here.is_none() {
                    let r = {
                        let a = &mut s.a;
                        catch(|| a.insert_inx_manual_unwrap(p.inx(), dir, key, v))
                    };
                    chk!(cx, MAIN, r.is_err(), "manual insertion at the vacant index of {p:?} worked");
                    cx.ev(C17, "rejected_insertion");
                    return s.post(cx, rng, Z, SM, len0, C17, true)
                }
                let x = here.unwrap();
                let res = {
                    let a = &mut s.a;
                    cx.lim(at_max && dir != Ordering::Equal, || a.insert_inx_manual_unwrap(p.inx(), dir, key, v))?
                };
                chk!(cx, MAIN, count(K_CMP) == c0, "manual insertion compares keys");
                match res {
                    None => {
                        s.b.cap = s.a.capacity();
                        s.post(cx, rng, Z, SM, len0, C16, true)?;
                    }
                    Some((n, old)) if dir == Ordering::Equal => {
                        chk!(cx, MAIN | C01, n == x, "manual replacement at {x:?} gives {n:?}");
                        let m = s.m.get_mut(n).unwrap();
                        chk!(cx, MAIN | C08, old.as_ref().map(|(k2, v2)| samek(k2, &e) && same(v2, &m.vr)) == Some(true), "manual replacement gives back {old:?}");
                        m.vr = e.vr;
                        drop(old);
                        s.post(cx, rng, Z, SM, len0, 0, full)?;
                    }
                    Some((n, old)) => {
                        chk!(cx, MAIN | C08, old.is_none(), "manual insertion gives something back");
                        let g = P::gnum(s.a.generation());
                        let live = s.m.has(n);
                        s.b.issue(cx, n, live, g)?;
                        let j = s.pos(x) + (dir == Ordering::Greater) as usize;
                        s.seq.insert(j, n);
                        s.m.insert(n, e);
                        cx.ev(MAIN, "manual_insertion");
                        s.post(cx, rng, Z, Cap::Ins, len0, 0, full)?;
                    }
                }
            }
            "insert_empty" => {
                let (key, v) = (Key::new(k), self.tok(rng));
                let e = E {
                    k,
                    kr: key.t.rec(),
                    vr: v.rec(),
                };
                let s = &mut self.s[i];
                let r = s.a.insert_empty(key, v);
                chk!(cx, MAIN | C17, r.is_some() == (len0 == 0), "insert_empty with {len0} entries gives {r:?}");
                if let Some(n) = r {
                    s.add(cx, n, e)?;
                    s.post(cx, rng, Z, Cap::Ins, len0, 0, full)?;
                } else {
                    cx.ev(C17, "rejected_insertion");
                    s.post(cx, rng, Z, SM, len0, C17, true)?;
                }
            }
            "remove" => {
                let s = &mut self.s[i];
                let r = {
                    let a = &mut s.a;
                    cx.lim(live_p && blocked, || a.remove(p))?
                };
                match r {
                    None => s.post(cx, rng, Z, SM, len0, C16, true)?,
                    Some(Some((k, v))) => {
                        chk!(cx, MAIN | C01, live_p, "remove of dead {p:?} worked");
                        let e = s.rem(p);
                        chk!(cx, MAIN | C08 | C01, samek(&k, &e) && same(&v, &e.vr), "remove gave {:?} {:?} not {e:?}", k.t.rec(), v.rec());
                        drop((k, v));
                        cx.ev(MAIN, "removed");
                        s.post(cx, rng, (1, 1), SM, len0, 0, full)?;
                    }
                    Some(None) => {
                        chk!(cx, MAIN | C01, !live_p, "remove of live {p:?} failed");
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, SM, len0, C17, true)?;
                    }
                }
            }
            "invalidate" => {
                let s = &mut self.s[i];
                let r = {
                    let a = &mut s.a;
                    cx.lim(live_p && blocked, || a.invalidate(p))?
                };
                match r {
                    None => s.post(cx, rng, Z, SM, len0, C16, true)?,
                    Some(Some(n)) => {
                        chk!(cx, MAIN | C01, live_p, "invalidate of dead {p:?} worked");
                        s.rename(cx, p, n)?;
                        s.post(cx, rng, (1, 1), SM, len0, 0, full)?;
                    }
                    Some(None) => {
                        chk!(cx, MAIN | C01, !live_p, "invalidate of live {p:?} failed");
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, SM, len0, C17, true)?;
                    }
                }
            }
            "replace_keep" | "replace_update" => {
                let v = self.tok(rng);
                let vr = v.rec();
                let s = &mut self.s[i];
                let upd = name == "replace_update";
                let r = {
                    let a = &mut s.a;
                    cx.lim(upd && live_p && blocked, || {
                        if upd {
                            a.replace_val_and_update_gen(p, v).map(|x| (x.0, Some(x.1)))
                        } else {
                            a.replace_val_and_keep_gen(p, v).map(|x| (x, None))
                        }
                    })?
                };
                match r {
                    None => s.post(cx, rng, Z, SM, len0, C16, true)?,
                    Some(Ok((old, n))) => {
                        chk!(cx, MAIN | C01, live_p, "{name} of dead {p:?} worked");
                        let m = s.m.get_mut(p).unwrap();
                        chk!(cx, MAIN | C08 | C01, same(&old, &m.vr), "{name} gave {:?} not {:?}", old.rec(), m.vr);
                        m.vr = vr;
                        drop(old);
                        if let Some(n) = n {
                            s.rename(cx, p, n)?;
                        }
                        s.post(cx, rng, (upd as u128, upd as u128), SM, len0, 0, full)?;
                    }
                    Some(Err(v)) => {
                        chk!(cx, MAIN | C01, !live_p, "{name} of live {p:?} failed");
                        chk!(cx, C17 | C08, same(&v, &vr), "wrong value given back");
                        cx.ev(C17, "rejected_insertion");
                        s.post(cx, rng, Z, SM, len0, C17, true)?;
                    }
                }
            }
            "swap_vals" => {
                let s = &mut self.s[i];
                let r = s.a.swap_vals(p, q);
                let ok = live_p && live_q;
                chk!(cx, MAIN | C01 | C17, r.is_some() == ok, "swap_vals({p:?}, {q:?}) is_some {}", r.is_some());
                if ok {
                    let (x, y) = (s.e(p).vr, s.e(q).vr);
                    s.m.get_mut(p).unwrap().vr = y;
                    s.m.get_mut(q).unwrap().vr = x;
                } else {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, Z, SM, len0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "get_mut" => {
                let s = &mut self.s[i];
                let v = match rng.n(4) {
                    0 => s.a.get_val_mut(p),
                    1 => s.a.get_mut(p).map(|x| x.1),
                    2 => {
                        let a = &mut s.a;
                        let r = catch(|| a[p].val).is_ok();
                        chk!(cx, MAIN | C01, r == live_p, "indexing with {p:?} worked: {r}");
                        if r {
                            Some(&mut s.a[p])
                        } else {
                            None
                        }
                    }
                    _ => ArenaTrait::get_mut(&mut s.a, p).map(|x| x.1),
                };
                chk!(cx, MAIN | C01, v.is_some() == live_p, "mutable access to {p:?} is_some {}", v.is_some());
                if let Some(v) = v {
                    let r = &mut s.m.get_mut(p).unwrap().vr;
                    chk!(cx, MAIN | C01, same(v, r), "mutable value of {p:?} is {:?} not {r:?}", v.rec());
                    v.mark += 1;
                    r.mark += 1;
                }
                s.post(cx, rng, Z, SM, len0, 0, full)?;
            }
            "get2_val_mut" => {
                let s = &mut self.s[i];
                let ok = live_p && live_q && p != q;
                let r = s.a.get2_val_mut(p, q);
                chk!(cx, MAIN | C01 | C17 | C09, r.is_some() == ok, "get2_val_mut({p:?}, {q:?}) is_some {}", r.is_some());
                if let Some((x, y)) = r {
                    chk!(cx, C09 | MAIN, !std::ptr::eq(x, y), "paired values alias");
                    x.mark += 1;
                    y.mark += 2;
                    s.m.get_mut(p).unwrap().vr.mark += 1;
                    s.m.get_mut(q).unwrap().vr.mark += 2;
                    chk!(cx, MAIN, same(x, &s.m.get(p).unwrap().vr) && same(y, &s.m.get(q).unwrap().vr), "paired values are wrong");
                } else {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, Z, SM, len0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "find" => {
                let s = &self.s[i];
                for d in [0u64, 1, 2] {
                    s.finds(cx, rng, (k + 1).saturating_sub(d), 0)?;
                }
                s.finds(cx, rng, *rng.clone().pick(&[0, u64::MAX, 1000]), 0)?;
                cx.poll()?;
            }
            "neighbours" => {
                let s = &self.s[i];
                let w = if live_p {
                    let j = s.pos(p);
                    Some((if j > 0 { Some(s.seq[j - 1]) } else { None }, s.seq.get(j + 1).copied()))
                } else {
                    None
                };
                let g = s.a.get_link(p).map(|l| l.prev_next());
                chk!(cx, MAIN | C01, g == w, "neighbours of {p:?} are {g:?} instead of {w:?}");
                let w = s.seq.iter().find(|x| x.i() == p.i()).copied();
                let g = s.a.get_link_no_gen(p.inx()).map(|(g, l)| (P::gnum(g), l.t.0.t.rec()));
                chk!(cx, MAIN | C01, g.map(|x| x.1) == w.map(|x| s.e(x).kr) && (!P::HG || g.map(|x| x.0) == w.map(|x| x.g())), "get_link_no_gen({p:?}) is {g:?}");
                chk!(cx, MAIN | C01, s.a.contains(p) == live_p && ArenaTrait::contains(&s.a, p) == live_p && ArenaTrait::get(&s.a, p).is_some() == live_p, "{p:?} live {live_p}");
                cx.ev(C01, if live_p { "live_ptr_accepted" } else { "stale_ptr_rejected" });
            }
            "vals_mut" => {
                let s = &mut self.s[i];
                let mut v: Vec<&mut Tok> = s.a.vals_mut().collect();
                for t in v.iter_mut() {
                    t.mark += 1;
                }
                chk!(cx, C11 | MAIN, v.len() == len0, "vals_mut yields {} of {len0}", v.len());
                for (j, t) in v.iter().enumerate() {
                    let p = s.seq[j];
                    let e = s.m.get_mut(p).unwrap();
                    e.vr.mark += 1;
                    chk!(cx, C11 | C09, same(t, &e.vr), "vals_mut yields {:?} at position {j}", t.rec());
                }
                cx.ev(C11, "mutable_iteration");
                s.post(cx, rng, Z, SM, len0, C11, true)?;
            }
            "iters" => {
                let s = &self.s[i];
                let ps: Vec<P> = s.a.ptrs().collect();
                chk!(cx, C11 | C01, ps == s.seq, "ptrs yields {ps:?} instead of {:?}", s.seq);
                let ks: Vec<TR> = s.a.keys().map(|k| k.t.rec()).collect();
                let w: Vec<TR> = s.seq.iter().map(|p| s.e(*p).kr).collect();
                chk!(cx, C11, ks == w, "keys yields {ks:?} instead of {w:?}");
                let vs: Vec<TR> = s.a.vals().map(|k| k.rec()).collect();
                let w: Vec<TR> = s.seq.iter().map(|p| s.e(*p).vr).collect();
                chk!(cx, C11, vs == w, "vals yields {vs:?} instead of {w:?}");
                let mut n = 0;
                for (p, k, v) in &s.a {
                    chk!(cx, C11, n < len0 && s.seq[n] == p && samek(k, &s.e(p)) && same(v, &s.e(p).vr), "iteration gives {p:?} at position {n} with {:?} {:?}", k.t.rec(), v.rec());
                    n += 1;
                }
                chk!(cx, C11, n == len0, "iteration yields {n} of {len0}");
                cx.ev(C11, "iteration");
                cx.poll()?;
            }
            "drain" => {
                if blocked && len0 == 0 {
                    return Ok(())
                }
                let s = &mut self.s[i];
                let take = if rng.p(1, 2) { usize::MAX } else { rng.n(len0 + 1) };
                let mut got: Vec<(P, Key, Tok)> = vec![];
                // draining may take one generation per entry
                let short = P::HG && !blocked && P::GEN_MAX - s.b.gen < len0 as u128;
                let r = {
                    let a = &mut s.a;
                    let f = || {
                        let mut d = a.drain();
                        while got.len() < take {
                            match d.next() {
                                Some(x) => got.push(x),
                                None => break,
                            }
                        }
                    };
                    if short {
                        Some(catch(f).is_ok())
                    } else {
                        cx.lim(blocked, f)?.map(|_| true)
                    }
                };
                let Some(complete) = r else {
                    return s.post(cx, rng, Z, SM, len0, C16, true)
                };
                cx.taint |= C11;
                cx.ev(C11, if take == usize::MAX { "full_drain" } else { "partial_drain" });
                chk!(cx, C11, !complete || got.len() == take.min(len0), "drain yields {} of {}", got.len(), take.min(len0));
                for (j, (p, k, v)) in got.iter().enumerate() {
                    chk!(cx, C11 | C08 | C01, s.seq[j] == *p && samek(k, &s.e(*p)) && same(v, &s.e(*p).vr), "drain yields {p:?} {:?} {:?} at position {j}", k.t.rec(), v.rec());
                }
                drop(got);
                s.kill_all();
                let d = if len0 == 0 { (0, 1) } else { (1, 1 + len0 as u128) };
                s.post(cx, rng, d, SM, len0, C11, true)?;
            }
            "into_iter" => {
                let take = if rng.p(1, 2) { usize::MAX } else { rng.n(len0 + 1) };
                let via = rng.p(1, 2);
                let s = &mut self.s[i];
                let a = std::mem::replace(&mut s.a, OrdArena::new());
                let mut it = if via { a.into_iter() } else { a.capacity_drain() };
                let mut got = vec![];
                while got.len() < take {
                    match it.next() {
                        Some(x) => got.push(x),
                        None => break,
                    }
                }
                drop(it);
                chk!(cx, C11, got.len() == take.min(len0), "by-value iteration yields {} of {}", got.len(), take.min(len0));
                for (j, (p, k, v)) in got.iter().enumerate() {
                    chk!(cx, C11 | C08 | C01, s.seq[j] == *p && samek(k, &s.e(*p)) && same(v, &s.e(*p).vr), "by-value iteration yields {p:?} {:?} {:?} at position {j}", k.t.rec(), v.rec());
                }
                cx.ev(C11, "by_value_iteration");
                *s = S::blank(OrdArena::new());
                // from an iterator, the last value of equal keys stays, with the first key
                rng.shuffle(&mut got);
                let mut want: Vec<E> = vec![];
                for (_, k, v) in &got {
                    match want.iter_mut().find(|e| e.k == k.k) {
                        Some(e) => e.vr = v.rec(),
                        None => want.push(E {
                            k: k.k,
                            kr: k.t.rec(),
                            vr: v.rec(),
                        }),
                    }
                }
                want.sort_by_key(|e| e.k);
                s.a = Hinted::new(rng, got.into_iter().map(|x| (x.1, x.2))).collect();
                let n = want.len();
                chk!(cx, MAIN, s.a.len() == n, "from_iter has {} of {n}", s.a.len());
                let items: Vec<(P, TR, TR)> = s.a.iter().map(|(p, k, v)| (p, k.t.rec(), v.rec())).collect();
                let g = P::gnum(s.a.generation());
                for (j, (p, k, v)) in items.into_iter().enumerate() {
                    chk!(cx, MAIN, j < n && want[j].kr == k && want[j].vr == v, "from_iter holds {k:?} {v:?} at {j}");
                    s.b.issue(cx, p, false, g)?;
                    s.seq.push(p);
                    s.m.insert(p, want[j]);
                }
                s.b.cap = s.a.capacity();
                s.post(cx, rng, Z, Cap::Range(n, (4 * n).max(64)), n, 0, true)?;
            }
            "clear" | "clear_and_shrink" => {
                let s = &mut self.s[i];
                let shrink = name == "clear_and_shrink";
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || if shrink { a.clear_and_shrink() } else { a.clear() })?
                };
                if r.is_none() {
                    return s.post(cx, rng, Z, SM, len0, C16, true)
                }
                s.kill_all();
                cx.ev(C18, "cleared");
                s.post(cx, rng, (1, 1), if shrink { Cap::Exact(0) } else { SM }, len0, 0, true)?;
            }
            "compress" => {
                let s = &mut self.s[i];
                let with = rng.p(4, 5);
                let mut got: Vec<(P, TR, TR, P)> = vec![];
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || {
                        if with {
                            a.compress_and_shrink_with(|p, k, v, n| {
                                got.push((p, k.t.rec(), v.rec(), n));
                                tick(K_CLOSURE);
                                v.mark += 1;
                            })
                        } else {
                            a.compress_and_shrink()
                        }
                    })?
                };
                if r.is_none() {
                    chk!(cx, C16, got.is_empty(), "callback ran before the limit panic");
                    return s.post(cx, rng, Z, SM, len0, C16, true)
                }
                cx.taint |= C13;
                cx.ev(C13 | C06, "compression");
                if len0 < s.b.cap {
                    cx.ev(C13, "compression_with_holes");
                }
                let old = s.m.clone();
                let oldseq = s.seq.clone();
                if !with {
                    for (j, (n, k, v)) in s.a.iter().enumerate() {
                        chk!(cx, C13, j < len0, "too many entries after compression");
                        got.push((oldseq[j], k.t.rec(), v.rec(), n));
                    }
                }
                s.kill_all();
                chk!(cx, C13, got.len() == len0, "compression reported {} of {len0} entries", got.len());
                let g = P::gnum(s.a.generation());
                let mut img: HMap<P, P> = HMap::default();
                for (p, k, v, n) in &got {
                    chk!(cx, C13, old.get(*p).map(|e| e.kr == *k && e.vr == *v) == Some(true), "compression: {p:?} reported with {k:?} {v:?}, model {:?}", old.get(*p));
                    chk!(cx, C13, img.insert(*p, *n).is_none(), "compression reported {p:?} twice");
                    let live = s.m.has(*n);
                    s.b.issue(cx, *n, live, g)?;
                    let mut e = *old.get(*p).unwrap();
                    e.vr.mark += with as u64;
                    s.m.insert(*n, e);
                }
                s.seq = oldseq.iter().map(|p| img[p]).collect();
                s.post(cx, rng, (1, 1), Cap::Exact(len0), len0, C13, true)?;
                for j in 0..len0 {
                    chk!(cx, C13, s.seq[j].i() == j + 1, "compression: entry {j} has index {}", s.seq[j].i());
                }
            }
            "recast" => self.recast(cx, rng, i)?,
            "reserve" => {
                let s = &mut self.s[i];
                let cap = s.b.cap;
                let n = if P::INX_MAX <= 65535 && rng.p(1, 3) { ((P::INX_MAX as usize - cap) + 1).saturating_sub(rng.n(4)).min(300) } else { rng.n(9) };
                let must = (len0 + n) as u128 > P::INX_MAX;
                let may = (cap + n) as u128 > P::INX_MAX;
                let r = {
                    let a = &mut s.a;
                    let f = || a.reserve(n);
                    if must || !may {
                        cx.lim(must, f)?.is_some()
                    } else {
                        catch(f).is_ok()
                    }
                };
                if !r {
                    s.b.cap = s.a.capacity();
                    s.post(cx, rng, Z, SM, len0, C16, true)?;
                } else {
                    cx.ev(C18, "reserved");
                    s.post(cx, rng, Z, Cap::Range(cap.max(len0 + n), cap + n), len0, 0, full)?;
                }
            }
            "clone" | "clone_from" | "clone_from_with" => self.clone_op(cx, rng, i, o, name)?,
            "clone_to" => {
                let s = &self.s[i];
                let salt = rng.u();
                let mut seen: Vec<(P, TR, TR)> = vec![];
                let chain = rng.p(1, 2);
                let f = |p: P, k: &Key, v: &Tok| {
                    seen.push((p, k.t.rec(), v.rec()));
                    k.t.id ^ salt
                };
                let mut img: HMap<P, (u64, Option<P>, Option<P>)> = HMap::default();
                let dead: Vec<P> = s.b.dead.iter().rev().take(4).copied().collect();
                let mut acc = vec![];
                if chain {
                    let mut a: ChainArena<P, u64> = ChainArena::new();
                    if rng.p(1, 2) {
                        a.insert_new(1);
                    }
                    s.a.clone_to_chain_arena(&mut a, f);
                    for (p, l) in &a {
                        img.insert(p, (l.t, l.prev(), l.next()));
                    }
                    acc.extend(dead.iter().map(|p| a.contains(*p)));
                } else {
                    let mut a: Arena<P, u64> = Arena::new();
                    if rng.p(1, 2) {
                        a.insert(1);
                    }
                    s.a.clone_to_arena(&mut a, f);
                    for (p, x) in &a {
                        img.insert(p, (*x, None, None));
                    }
                    acc.extend(dead.iter().map(|p| a.contains(*p)));
                }
                chk!(cx, C12, seen.len() == len0 && img.len() == len0, "conversion (chain {chain}) mapped {} of {len0}, has {}", seen.len(), img.len());
                for (p, k, v) in seen {
                    chk!(cx, C12, s.m.get(p).map(|e| (e.kr, e.vr)) == Some((k, v)), "conversion mapped {p:?} {k:?} {v:?}");
                    let j = s.pos(p);
                    let w = (k.id ^ salt, if chain && j > 0 { Some(s.seq[j - 1]) } else { None }, if chain { s.seq.get(j + 1).copied() } else { None });
                    chk!(cx, C12 | C01, img.get(&p) == Some(&w), "conversion (chain {chain}): {p:?} gives {:?} instead of {w:?}", img.get(&p));
                }
                for (p, a) in dead.iter().zip(acc) {
                    chk!(cx, C12 | C01, a == s.m.has(*p), "conversion (chain {chain}): validity of {p:?}");
                }
                cx.ev(C12, "converted");
                cx.poll()?;
            }
            "eq" => self.eq_op(cx, rng, i, o)?,
            "advance" => {
                if !self.in_body {
                    self.in_body = true;
                    let r = self.advance(cx, rng, i, if rng.clone().p(1, 2) { None } else { Some(p) });
                    self.in_body = false;
                    self.protect = None;
                    r?;
                }
            }
            "burn" => {
                let n = burn_count::<P>(cx, rng, self.s[i].b.gen);
                let s = &mut self.s[i];
                if len0 > 0 {
                    let j = rng.n(len0);
                    let mut p = s.seq[j];
                    let e = s.m.remove(p).unwrap();
                    s.b.kill(p);
                    for _ in 0..n {
                        if P::HG && s.b.gen == P::GEN_MAX {
                            break
                        }
                        match s.a.invalidate(p) {
                            Some(n) => {
                                let g = P::gnum(s.a.generation());
                                chk!(cx, C23 | C16, !P::HG || g == s.b.gen + 1, "generation {} to {g}", s.b.gen);
                                s.b.gen = g;
                                s.b.issue(cx, n, false, g)?;
                                p = n;
                                s.b.kill(p);
                            }
                            None => chk!(cx, MAIN | C16 | C01, false, "invalidate of live {p:?} failed"),
                        }
                    }
                    s.b.dead.pop();
                    s.m.insert(p, e);
                    s.seq[j] = p;
                    if s.b.blocked() {
                        cx.ev(C16, "generation_limit_reached");
                    }
                }
                s.post(cx, rng, Z, SM, len0, 0, true)?;
            }
            "fill" => {
                if P::INX_MAX > 65535 || (P::INX_MAX > 255 && (cx.miri || !rng.p(1, 25))) {
                    return Ok(())
                }
                let leave = if rng.p(2, 3) { 0 } else { rng.n(3) };
                let mut k = self.s[i].seq.last().map(|p| self.s[i].e(*p).k).unwrap_or(0);
                while (self.s[i].m.len() as u128) < P::INX_MAX - leave as u128 {
                    let s = &self.s[i];
                    let l0 = s.m.len();
                    // with narrow index types not only ascending
                    let kk = if P::INX_MAX <= 255 && l0 > 0 && rng.p(1, 2) {
                        s.e(*rng.pick(&s.seq)).k + 1
                    } else {
                        k = k.saturating_add(2);
                        k
                    };
                    let (key, v) = (Key::new(kk), self.tok(rng));
                    let e = E {
                        k: kk,
                        kr: key.t.rec(),
                        vr: v.rec(),
                    };
                    let s = &mut self.s[i];
                    let n = s.a.insert_nonhereditary(key, v);
                    s.add(cx, n, e)?;
                    s.post(cx, rng, Z, Cap::Ins, l0, 0, false)?;
                }
                cx.ev(C16, "index_limit_reached");
                self.s[i].full(cx, rng, 0)?;
            }
            "trait_view" => {
                let (key, v) = (Key::new(k), self.tok(rng));
                let e = E {
                    k,
                    kr: key.t.rec(),
                    vr: v.rec(),
                };
                let s = &mut self.s[i];
                let (lo, hi) = s.range(k);
                if at_max && lo == hi {
                    return Ok(())
                }
                let n = ArenaTrait::insert(&mut s.a, (key, v));
                if lo < hi {
                    chk!(cx, MAIN, s.seq[lo..hi].contains(&n), "trait insertion of an existing key gives {n:?}");
                    s.m.get_mut(n).unwrap().vr = e.vr;
                } else {
                    s.add(cx, n, e)?;
                }
                chk!(cx, MAIN, ArenaTrait::len(&s.a) == s.m.len() && !ArenaTrait::is_empty(&s.a) && ArenaTrait::capacity(&s.a) == s.a.capacity(), "trait len is {}", ArenaTrait::len(&s.a));
                s.post(cx, rng, Z, if lo < hi { SM } else { Cap::Ins }, len0, 0, true)?;
                if !blocked && live_p {
                    let r = ArenaTrait::remove(&mut s.a, p);
                    let e = s.rem(p);
                    chk!(cx, MAIN | C08, r.as_ref().map(|(k, v)| samek(k, &e) && same(v, &e.vr)) == Some(true), "trait removal of {p:?} gives {r:?}");
                    drop(r);
                    let l = s.m.len();
                    s.post(cx, rng, (1, 1), SM, l, 0, true)?;
                }
                let mut adv = ArenaTrait::advancer(&s.a);
                let mut j = 0;
                while let Some(p) = adv.advance(&s.a) {
                    chk!(cx, MAIN | C10, s.seq.get(j) == Some(&p), "trait advancer gives {p:?} at position {j}");
                    j += 1;
                }
                chk!(cx, MAIN | C10, j == s.seq.len(), "trait advancer gives {j} of {}", s.seq.len());
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    fn clone_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, o: usize, name: &str) -> R {
        let salt = rng.n(5) as u64;
        let len = self.s[i].m.len();
        cx.taint |= C12;
        cx.ev(C12 | C06, "clone");
        let mut got: Vec<(P, TR)> = vec![];
        let mapped = name == "clone_from_with";
        let fresh = name == "clone" || i == o;
        let mut fv = |p: P, t: &Tok| {
            tick(K_CLOSURE);
            got.push((p, t.rec()));
            Tok::new(t.val + salt)
        };
        let c0 = count(K_CMP);
        let di;
        if fresh {
            let src = &self.s[i].a;
            let a = if mapped {
                let mut a = OrdArena::new();
                a.clone_from_with(src, &mut fv);
                a
            } else {
                src.clone()
            };
            let s = S::blank(a);
            if self.s.len() < 3 {
                self.s.push(s);
                di = self.s.len() - 1;
            } else {
                di = if o == i { (i + 1) % self.s.len() } else { o };
                self.s[di] = s;
            }
        } else {
            cx.ev(C12, "clone_into_existing");
            di = o;
            let (s, d) = two(&mut self.s, i, o);
            if mapped {
                d.a.clone_from_with(&s.a, &mut fv);
            } else {
                d.a.clone_from(&s.a);
            }
        }
        let _ = c0;
        if mapped {
            let s = &self.s[i];
            let mut ps = HSet::default();
            chk!(cx, C12, got.len() == len, "the mapping ran {} times for {len} entries", got.len());
            for (p, r) in &got {
                chk!(cx, C12, ps.insert(*p) && s.m.get(*p).map(|e| e.vr) == Some(*r), "the mapping got {p:?} {r:?}");
            }
        }
        let (s, d) = two(&mut self.s, i, di);
        let (sc, dc) = (s.b.cap, d.b.cap);
        d.m.clear();
        d.seq = s.seq.clone();
        d.b.adopt_clone(&s.b);
        for p in s.seq.clone() {
            let e = s.e(p);
            match d.a.get(p) {
                Some((k, v)) => {
                    chk!(cx, C12 | C01, k.k == e.k && k.t.ok() && k.t.mark == e.kr.mark && reg_parent(k.t.id) == e.kr.id, "image of the key of {p:?} is {:?}, source {e:?}", k.t.rec());
                    let ok = v.ok() && if mapped { v.val == e.vr.val + salt } else { v.val == e.vr.val && v.mark == e.vr.mark && reg_parent(v.id) == e.vr.id };
                    chk!(cx, C12 | C01, ok, "image of the value of {p:?} is {:?}, source {e:?}", v.rec());
                    d.m.insert(p, E {
                        k: e.k,
                        kr: k.t.rec(),
                        vr: v.rec(),
                    });
                }
                None => chk!(cx, C12 | C01, false, "{p:?} is not valid in the clone"),
            }
        }
        let r = if fresh { Cap::Range(len, sc.max(len)) } else { Cap::Range(len.max(dc), sc.max(dc)) };
        d.post(cx, rng, (0, 0), r, len, C12, true)?;
        s.post(cx, rng, (0, 0), Cap::Same, len, C12, true)
    }

    fn eq_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, o: usize) -> R {
        let s = &self.s[i];
        let mut c = s.a.clone();
        chk!(cx, C19 | C12, s.a == c && c == s.a && s.a.cmp(&c) == Ordering::Equal, "an arena is not equal to its clone");
        let room = !s.b.blocked();
        let kind = rng.n(9);
        let any = |rng: &mut Rng| *rng.pick(&s.seq);
        match kind {
            0 => c.reserve(if (s.b.cap as u128 + 3) < P::INX_MAX { 3 } else { 0 }),
            1 | 2 if s.m.len() > 0 => {
                let v = c.get_val_mut(any(rng)).unwrap();
                if rng.p(1, 2) {
                    v.val += 1
                } else {
                    v.val = v.val.saturating_sub(1)
                }
            }
            3 if s.m.len() > 0 && room => {
                c.remove(any(rng));
            }
            4 if s.m.len() > 0 && room => {
                c.invalidate(any(rng));
            }
            5 if s.m.len() > 1 => {
                c.swap_vals(any(rng), any(rng));
            }
            6 if room => c.compress_and_shrink(),
            7 if (s.m.len() as u128) < P::INX_MAX => {
                let k = if s.seq.is_empty() || rng.p(1, 3) { rng.n(2000) as u64 } else { s.e(any(rng)).k + rng.n(2) as u64 };
                c.insert_nonhereditary(Key::new(k), Tok::new(rng.n(3) as u64));
            }
            8 => {
                // the same list, built differently
                let mut l: Vec<_> = s.a.iter().map(|(_, k, v)| (k.clone(), v.clone())).collect();
                if l.windows(2).all(|w| w[0].0.k < w[1].0.k) {
                    rng.shuffle(&mut l);
                    c = l.into_iter().collect();
                    chk!(cx, C19, s.a == c, "the same entries inserted in another order are not equal");
                }
            }
            _ => (),
        }
        self.compare(cx, &s.a, &c, kind)?;
        self.compare(cx, &s.a, &self.s[o].a, 100)?;
        cx.poll()
    }

    fn compare(&self, cx: &mut Cx, a: &OA<P>, b: &OA<P>, kind: usize) -> R {
        let list = |a: &OA<P>| -> Vec<(u64, u64, u64)> { a.iter().map(|(_, k, v)| (k.k, v.val, v.mark)).collect() };
        let (x, y) = (list(a), list(b));
        cx.ev(C19, if x == y { "equal_pair" } else { "near_identical_pair" });
        chk!(cx, C19, (a == b) == (x == y) && (b == a) == (x == y), "variation {kind}: equality is {} / {} but should be {}", a == b, b == a, x == y);
        let w = x.cmp(&y);
        chk!(cx, C19, a.cmp(b) == w && b.cmp(a) == w.reverse(), "variation {kind}: comparison is {:?} / {:?} but should be {w:?}", a.cmp(b), b.cmp(a));
        chk!(cx, C19, a.partial_cmp(b) == Some(w) && b.partial_cmp(a) == Some(w.reverse()), "variation {kind}: partial comparison is {:?} / {:?} but should be {w:?}", a.partial_cmp(b), b.partial_cmp(a));
        Ok(())
    }

    fn recast(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize) -> R {
        let s = &self.s[i];
        if s.b.blocked() {
            return Ok(())
        }
        let mut lists: HMap<P, Vec<P>> = HMap::default();
        let mut g: OrdArena<P, Key, PN<P>> = OrdArena::new();
        g.clone_from_with(&s.a, |p, v| {
            let l: Vec<P> = (0..rng.n(3)).map(|_| *rng.pick(&s.seq)).collect();
            lists.insert(p, l.clone());
            PN(v.id, l)
        });
        let rec = g.compress_and_shrink_recaster();
        chk!(cx, C13, rec.len() == s.m.len(), "recaster has {} of {} entries", rec.len(), s.m.len());
        for p in &s.seq {
            match rec.get(*p).and_then(|n| g.get_val(*n).map(|x| (n, x))) {
                Some((n, v)) => chk!(cx, C13, v.0 == s.e(*p).vr.id, "recaster maps {p:?} to {n:?}, another entry"),
                None => chk!(cx, C13, false, "recaster does not know {p:?} or maps it to nowhere"),
            }
        }
        cx.ev(C13, "recast");
        let bad = if rng.p(1, 3) && P::HG { s.b.dead.last().copied().filter(|p| !s.m.has(*p)) } else { None };
        let ps: Vec<P> = g.ptrs().collect();
        if let (Some(bad), false) = (bad, ps.is_empty()) {
            g.get_val_mut(*rng.pick(&ps)).unwrap().1.push(bad);
            let r = g.recast(&rec);
            chk!(cx, C13, r == Err(bad), "recasting an unknown {bad:?} gives {r:?}");
            cx.ev(C13, "recast_unknown_ptr");
        } else {
            let r = g.recast(&rec);
            chk!(cx, C13, r.is_ok(), "recast failed with {r:?}");
            for p in &s.seq {
                let v = g.get_val(*rec.get(*p).unwrap()).unwrap();
                let w: Vec<P> = lists[p].iter().map(|x| *rec.get(*x).unwrap()).collect();
                chk!(cx, C13, v.1 == w, "recast Ptrs of a value are {:?}", v.1);
            }
        }
        cx.poll()
    }

    fn advance(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, from: Option<P>) -> R {
        let s = &self.s[i];
        let scope: Vec<P> = match from {
            None => s.seq.clone(),
            Some(p) if s.m.has(p) => s.seq[s.pos(p)..].to_vec(),
            Some(_) => vec![],
        };
        let mut adv = match from {
            None => s.a.advancer(),
            Some(p) => s.a.advancer_starting_from(p),
        };
        // from here to the first advance the start itself must stay
        let mut cont: HMap<P, u64> = scope.iter().map(|p| (*p, s.e(*p).kr.id)).collect();
        let mut seen: HSet<(P, u64)> = HSet::default();
        let mut budget = rng.n(24);
        let mut steps = 0usize;
        let quiet = rng.p(1, 6);
        // what is being walked is changed as well, then only termination and validity are promised
        let wild = !quiet && rng.p(1, 4);
        let mut calm = 0usize;
        let (start, issues0) = (s.m.len(), s.b.issues);
        let mut last = 0;
        loop {
            let p = adv.advance(&self.s[i].a);
            steps += 1;
            let Some(p) = p else { break };
            let s = &self.s[i];
            chk!(cx, C10 | C01, s.a.contains(p) && s.m.has(p), "advancer yields {p:?}, which is invalid");
            let e = s.e(p);
            chk!(cx, C10, seen.insert((p, if P::HG { 0 } else { e.kr.id })) || wild, "advancer yields the entry of {p:?} twice");
            chk!(cx, C10, e.k >= last || wild, "advancer goes from key {last} to {}", e.k);
            if steps == 1 {
                chk!(cx, C10 | C01, scope.first() == Some(&p), "advancer from {from:?} starts with {p:?}");
            }
            last = e.k;
            cx.ev(C10, "advanced");
            let born = s.b.issues - issues0;
            calm += 1;
            if wild {
                chk!(cx, C10, calm <= start + born + 1, "advancer does not end, {calm} steps since the last modification");
            } else {
                chk!(cx, C10, steps <= start + born + 1, "advancer made {steps} steps with {start} entries at the start and {born} insertions");
            }
            if quiet {
                continue
            }
            self.protect = s.seq.get(s.pos(p) + 1).copied().filter(|_| !wild);
            let mut k = rng.n(3);
            while k > 0 && budget > 0 {
                k -= 1;
                budget -= 1;
                let op = *rng.pick(BODY);
                self.step(cx, rng, i, op, true)?;
                let s = &self.s[i];
                cont.retain(|p, id| s.m.get(*p).map(|r| P::HG || r.kr.id == *id) == Some(true));
                calm = 0;
                cx.ev(C10, "mutation_during_advance");
            }
        }
        if wild {
            cx.ev(C10, "loop_over_changing_scope");
            return Ok(())
        }
        for (p, id) in &cont {
            chk!(cx, C10, seen.contains(&(*p, if P::HG { 0 } else { *id })), "{p:?} was valid during the whole loop but was not visited");
        }
        if !scope.is_empty() {
            cx.ev(C10, "complete_ordered_loop");
        }
        Ok(())
    }
}

pub fn inum<P: TP>(i: P::Inx) -> usize {
    PtrInx::get(i).get()
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let mut w: W<P> = W::new(cx, rng)?;
    w.run(cx, rng)?;
    cx.op(C08 | C09, 1, || "drop all".to_string());
    drop(w);
    end_of_case(cx)
}
