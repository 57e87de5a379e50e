//! Engine for `SurjectArena`: random histories against an explicit partition
use recasting::{Recast, Recaster};
use triple_arena::{
    utils::{ChainNoGenArena, PtrInx},
    Advancer, Arena, ArenaTrait, ChainArena, SurjectArena,
};

use crate::{
    cx::*,
    e_arena::{end_of_case, two},
    model::*,
    ptrs::*,
    rng::*,
    tok::*,
};

pub type SA<P> = SurjectArena<P, Tok, Tok>;

pub const TAB: &OpTab = &[
    ("insert", 14, 0, GROW),
    ("insert_with", 5, C20, GROW),
    ("insert_key", 20, C17, GROW),
    ("insert_key_with", 8, C17 | C20, GROW),
    ("union", 20, C04 | C17, NEU),
    ("remove_key", 20, C01 | C04 | C08, SHRINK),
    ("remove", 6, C01 | C04 | C08 | C23, SHRINK),
    ("invalidate", 8, C01 | C04 | C23, NEU),
    ("swap_keys", 6, C04 | C17, NEU),
    ("swap_vals", 6, C04 | C17, NEU),
    ("get_mut", 6, C04, NEU),
    ("get2_mut", 8, C09 | C17 | C04, NEU),
    ("same_set", 6, C04 | C01, NEU),
    ("mut_iters", 3, C11 | C09, NEU),
    ("iters", 4, C11, NEU),
    ("iter_surject", 5, C11 | C10, NEU),
    ("clear", 2, C18 | C08 | C23, RARE),
    ("clear_and_shrink", 2, C18 | C08, RARE),
    ("compress", 5, C13 | C23 | C18, RARE),
    ("recast", 3, C13, RARE),
    ("reserve", 4, C18 | C16, NEU),
    ("clone", 4, C12, RARE),
    ("clone_from", 5, C12 | C18, RARE),
    ("clone_from_with", 4, C12, RARE),
    ("clone_to", 4, C12, NEU),
    ("eq", 4, C19, NEU),
    ("advance", 4, C10, NEU),
    ("advance_surject", 5, C10, NEU),
    ("burn", 1, C16 | C01, NEU),
    ("fill", 1, C16 | C18, RARE),
    ("ring", 3, C04, NEU),
];

const BODY: &[usize] = &[0, 1, 2, 2, 3, 4, 4, 5, 5, 5, 6, 7, 8, 9, 16, 17, 18, 20];
const MAIN: Tags = C04;

pub struct S<P: TP> {
    pub a: SA<P>,
    /// key and the number of its set
    pub m: Live<P, (TR, u64)>,
    pub sets: HMap<u64, (Vec<P>, TR)>,
    pub b: Book<P>,
    pub capv: usize,
    pub ids: u64,
}

pub struct W<P: TP> {
    pub s: Vec<S<P>>,
    pub cfg: Cfg,
    vals: u64,
    in_body: bool,
}

#[derive(Clone, PartialEq, PartialOrd, Eq, Ord)]
struct PN<P>(u64, Vec<P>);
impl<P: TP> Recast<P> for PN<P> {
    fn recast<R: Recaster<Item = P>>(&mut self, r: &R) -> Result<(), P> {
        for p in &mut self.1 {
            r.recast_item(p)?;
        }
        Ok(())
    }
}

pub fn inum<P: TP>(i: P::Inx) -> usize {
    PtrInx::get(i).get()
}

impl<P: TP> S<P> {
    fn blank(a: SA<P>) -> Self {
        S {
            a,
            m: Live::new(),
            sets: HMap::default(),
            b: Book::new(MAIN),
            capv: 0,
            ids: 0,
        }
    }

    pub fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self> {
        let s = if rng.p(1, 3) {
            let (k, v) = (rng.n(10), rng.n(8));
            let mut s = S::blank(SurjectArena::with_capacity(k, v));
            s.b.cap = k;
            s.capv = v;
            s
        } else {
            S::blank(SurjectArena::new())
        };
        chk!(cx, C18, s.a.capacity_keys() == s.b.cap && s.a.capacity_vals() == s.capv, "new arena: capacities {} {}", s.a.capacity_keys(), s.a.capacity_vals());
        if P::HG {
            chks!(cx, C23, P::gnum(s.a.generation()) == 2, "new arena: generation {:?}", s.a.generation());
        }
        Ok(s)
    }

    fn set_of(&self, p: P) -> Option<&(Vec<P>, TR)> {
        self.m.get(p).map(|x| &self.sets[&x.1])
    }

    fn val_of(&mut self, p: P) -> &mut TR {
        let id = self.m.get(p).unwrap().1;
        &mut self.sets.get_mut(&id).unwrap().1
    }

    fn same_set(&self, p: P, q: P) -> bool {
        match (self.m.get(p), self.m.get(q)) {
            (Some(x), Some(y)) => x.1 == y.1,
            _ => false,
        }
    }

    fn add(&mut self, cx: &mut Cx, p: P, k: TR, v: Result<u64, TR>) -> R {
        let g = P::gnum(self.a.generation());
        let live = self.m.has(p);
        self.b.issue(cx, p, live, g)?;
        let id = match v {
            Ok(id) => id,
            Err(v) => {
                self.ids += 1;
                self.sets.insert(self.ids, (vec![], v));
                self.ids
            }
        };
        self.sets.get_mut(&id).unwrap().0.push(p);
        self.m.insert(p, (k, id));
        Ok(())
    }

    /// removes a key, and the set with the last key
    fn rem(&mut self, p: P) -> Option<(TR, Option<TR>)> {
        let (k, id) = self.m.remove(p)?;
        self.b.kill(p);
        let s = self.sets.get_mut(&id).unwrap();
        s.0.retain(|x| *x != p);
        if s.0.is_empty() {
            let v = s.1;
            self.sets.remove(&id);
            Some((k, Some(v)))
        } else {
            Some((k, None))
        }
    }

    fn rename(&mut self, cx: &mut Cx, p: P, n: P) -> R {
        let (k, id) = self.m.remove(p).unwrap();
        self.b.kill(p);
        self.sets.get_mut(&id).unwrap().0.retain(|x| *x != p);
        self.add(cx, n, k, Ok(id))
    }

    pub fn kill_all(&mut self) {
        for p in std::mem::take(&mut self.m.order) {
            self.b.kill(p);
        }
        self.m.clear();
        self.sets.clear();
    }

    pub fn full(&self, cx: &mut Cx, rng: &mut Rng, t: Tags) -> R {
        let (a, m) = (&self.a, &self.m);
        chk!(cx, MAIN | t, a.len_keys() == m.len(), "len_keys {} but the model has {}", a.len_keys(), m.len());
        chk!(cx, MAIN | t, a.len_vals() == self.sets.len(), "len_vals {} but the model has {}", a.len_vals(), self.sets.len());
        chk!(cx, MAIN | t, a.is_empty() == (m.len() == 0), "is_empty wrong");
        let mut n = 0;
        for (p, k, v) in a.iter() {
            n += 1;
            chk!(cx, MAIN | C11 | t, n <= m.len(), "iteration yields more than len_keys entries");
            match m.get(p) {
                None => chk!(cx, MAIN | C01 | C11 | t, false, "iteration yields {p:?} which is not live"),
                Some((r, id)) => {
                    chk!(cx, MAIN | C01 | C08 | C11 | t, same(k, r), "{p:?} holds key {:?} instead of {r:?}", k.rec());
                    let w = &self.sets[id].1;
                    chk!(cx, MAIN | C08 | C11 | t, same(v, w), "{p:?} gives value {:?} instead of {w:?}", v.rec());
                }
            }
        }
        chk!(cx, MAIN | C11 | t, n == m.len(), "iteration yields {n} of {} entries", m.len());
        for p in &m.order {
            let (r, id) = m.get(*p).unwrap();
            let (mem, w) = &self.sets[id];
            chk!(cx, MAIN | C01 | t, a.contains(*p), "{p:?} should be valid");
            chk!(cx, MAIN | C01 | C08 | t, a.get_key(*p).map(|k| same(k, r)) == Some(true), "{p:?} should give key {r:?} but gives {:?}", a.get_key(*p).map(|k| k.rec()));
            chk!(cx, MAIN | C08 | t, a.get_val(*p).map(|k| same(k, w)) == Some(true), "{p:?} should give value {w:?} but gives {:?}", a.get_val(*p).map(|k| k.rec()));
            chk!(cx, MAIN | C08 | t, a.get(*p).map(|(k, v)| same(k, r) && same(v, w)) == Some(true), "get({p:?}) is wrong");
            chk!(cx, MAIN | t, a.len_key_set(*p).map(|x| x.get()) == Some(mem.len()), "len_key_set({p:?}) is {:?} instead of {}", a.len_key_set(*p), mem.len());
        }
        // the links of a set are one cycle over exactly the keys of the set
        for (mem, _) in self.sets.values() {
            let want: HSet<usize> = mem.iter().map(|p| p.i()).collect();
            let start = mem[0];
            let mut x = start.inx();
            for k in 0..mem.len() {
                match a.get_link_no_gen(x) {
                    None => chk!(cx, MAIN | t, false, "key cycle from {start:?} leads to a vacant index"),
                    Some((g, l)) => {
                        chk!(cx, MAIN | t, want.contains(&inum::<P>(x)), "key cycle from {start:?} leads out of its set");
                        if P::HG {
                            chk!(cx, MAIN | C01 | t, m.has(P::make(inum::<P>(x), P::gnum(g))), "wrong generation in key cycle from {start:?}");
                        }
                        let Some(nx) = l.next() else {
                            chk!(cx, MAIN | t, false, "key cycle of {start:?} ends");
                            unreachable!()
                        };
                        match a.get_link_no_gen(nx) {
                            Some((_, l2)) => chk!(cx, MAIN | t, l2.prev() == Some(x), "key cycle of {start:?} is not mutual"),
                            None => chk!(cx, MAIN | t, false, "key cycle from {start:?} leads to a vacant index"),
                        }
                        chk!(cx, MAIN | t, (nx == start.inx()) == (k + 1 == mem.len()), "key cycle of {start:?} closes after {} of {} keys", k + 1, mem.len());
                        x = nx;
                    }
                }
            }
        }
        // same-set queries, sampled
        if m.len() > 0 {
            for _ in 0..6 {
                let (p, q) = (*rng.pick(&m.order), *rng.pick(&m.order));
                let w = self.same_set(p, q);
                chk!(cx, MAIN | t, a.in_same_set(p, q) == Some(w), "in_same_set({p:?}, {q:?}) should be {w}");
            }
        }
        let d = &self.b.dead;
        let k = d.len().min(5);
        for j in 0..2 * k {
            let p = if j < k { d[d.len() - 1 - j] } else { *rng.pick(d) };
            let live = m.has(p);
            let acc = [a.contains(p), a.get_key(p).is_some(), a.get_val(p).is_some(), a.get(p).is_some(), a.len_key_set(p).is_some(), a.in_same_set(p, p).is_some()];
            chk!(cx, C01 | t, acc.iter().all(|x| *x == live), "stale {p:?}: accepted {acc:?}");
            if P::HG {
                cx.ev(C01, "stale_ptr_rejected");
            }
        }
        for p in [P::invalid(), self.b.forge(rng, &m.order)] {
            let live = m.has(p);
            chk!(cx, C01 | t, a.contains(p) == live && a.get_val(p).is_some() == live, "{p:?}: contains is {}", !live);
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn post(&mut self, cx: &mut Cx, rng: &mut Rng, dgen: (u128, u128), capk: Cap, capv: Cap, len0: usize, lenv0: usize, t: Tags, full: bool) -> R {
        let (g, c) = (P::gnum(self.a.generation()), self.a.capacity_keys());
        self.b.meta(cx, g, dgen, c, capk, len0, t)?;
        // values
        let (old, cap) = (self.capv, self.a.capacity_vals());
        self.capv = cap;
        let (lo, hi) = match capv {
            Cap::Same => (old, old),
            Cap::Ins if lenv0 < old => (old, old),
            Cap::Ins => (old + 1, (4 * old).max(64)),
            Cap::Exact(n) => (n, n),
            Cap::Range(a, b) => (a, b),
        };
        chks!(cx, C18 | (t & (C17 | C13)), lo <= cap && cap <= hi, "value capacity went from {old} to {cap}, expected {lo}..={hi}");
        cx.poll()?;
        if full {
            self.full(cx, rng, t)?;
            cx.ev(MAIN, "model_compared");
            let low: HMap<u64, usize> = self.sets.iter().map(|(id, s)| (*id, s.0.iter().map(|p| p.i()).min().unwrap())).collect();
            let mut v: Vec<_> = self.m.order.iter().map(|p| (p.i(), low[&self.m.get(*p).unwrap().1])).collect();
            v.sort();
            cx.state(h(&(v, c, cap)));
        }
        Ok(())
    }
}

impl<P: TP> W<P> {
    pub fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self> {
        let cfg = Cfg::new(cx, rng, TAB);
        let mut s = vec![];
        for _ in 0..cfg.arenas {
            s.push(S::new(cx, rng)?);
        }
        Ok(W {
            s,
            cfg,
            vals: 0,
            in_body: false,
        })
    }

    pub fn tok(&mut self, rng: &mut Rng) -> Tok {
        self.vals += 1;
        Tok::new(if rng.p(1, 2) { rng.n(3) as u64 } else { self.vals + 100 })
    }

    pub fn run(&mut self, cx: &mut Cx, rng: &mut Rng) -> R {
        let n = self.cfg.nops;
        let mut follow = None;
        // not too much time on a single case with tens of thousands of entries
        let mut budget = 700_000usize;
        for k in 0..n {
            let load: usize = self.s.iter().map(|s| s.m.len()).sum();
            if load > budget {
                break
            }
            budget -= load;
            let (i, op) = match follow.take() {
                Some(x) => x,
                None => {
                    let i = if rng.p(2, 3) { 0 } else { rng.n(self.s.len()) };
                    (i, self.cfg.next_op(rng, self.s[i].m.len()))
                }
            };
            follow = self.cfg.follow(rng, op).map(|f| (i, f));
            let full = k % self.cfg.every == 0 || k + 1 == n;
            self.step(cx, rng, i, op, full)?;
        }
        for s in &self.s {
            s.full(cx, rng, 0)?;
        }
        Ok(())
    }

    pub fn step(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, op: usize, full: bool) -> R {
        let name = TAB[op].0;
        let optag = TAB[op].2;
        let o = rng.n(self.s.len());
        let opick = self.s[o].m.order.clone();
        let s = &self.s[i];
        let p = s.b.pick(rng, &s.m.order, &opick);
        let q = match rng.n(8) {
            0 => p,
            1 | 2 if s.m.has(p) => *rng.pick(&s.set_of(p).unwrap().0),
            _ => s.b.pick(rng, &s.m.order, &opick),
        };
        let len0 = s.m.len();
        let lv0 = s.sets.len();
        let narrow = (P::GEN_MAX <= 65535 && P::HG && s.b.gen + 3 > P::GEN_MAX) || (P::INX_MAX <= 65535 && s.b.cap as u128 * 2 >= P::INX_MAX);
        let lt = if narrow { C16 } else { 0 };
        cx.op(MAIN | lt | (optag & (C12 | C13 | C11 | C10)), h(&(op, i, p, q, len0, lv0, s.b.cap)), || format!("surject{i}.{name} p={p:?} q={q:?} keys={len0} vals={lv0} cap={}", s.b.cap));
        if narrow {
            cx.ev(C16, "operation_near_limit");
        }
        let blocked = s.b.blocked();
        let at_max = s.m.len() as u128 == P::INX_MAX;
        let live_p = s.m.has(p);
        let live_q = s.m.has(q);
        let full = full && len0 < 400;
        const Z: (u128, u128) = (0, 0);
        const SM: Cap = Cap::Same;
        match name {
            "insert" | "insert_with" => {
                let (k, v) = (self.tok(rng), self.tok(rng));
                let (kr, vr) = (k.rec(), v.rec());
                let s = &mut self.s[i];
                let with = name == "insert_with";
                let mut seen = vec![];
                let res = {
                    let a = &mut s.a;
                    cx.lim(at_max, || {
                        if with {
                            a.insert_with(|p| {
                                seen.push(p);
                                tick(K_CLOSURE);
                                (k, v)
                            })
                        } else {
                            a.insert(k, v)
                        }
                    })?
                };
                match res {
                    Some(n) => {
                        chk!(cx, MAIN, !with || seen == [n], "closure got {seen:?}, result {n:?}");
                        s.add(cx, n, kr, Err(vr))?;
                        s.post(cx, rng, Z, Cap::Ins, Cap::Ins, len0, lv0, 0, full)?;
                    }
                    None => {
                        s.capv = s.a.capacity_vals();
                        s.b.cap = s.a.capacity_keys();
                        s.post(cx, rng, Z, SM, SM, len0, lv0, C16, true)?;
                    }
                }
            }
            "insert_key" | "insert_key_with" => {
                let k = self.tok(rng);
                let kr = k.rec();
                let s = &mut self.s[i];
                let with = name == "insert_key_with";
                let mut seen = vec![];
                let res = {
                    let a = &mut s.a;
                    cx.lim(live_p && at_max, || {
                        if with {
                            a.insert_key_with(p, |p| {
                                seen.push(p);
                                tick(K_CLOSURE);
                                k
                            })
                            .ok_or(None)
                        } else {
                            a.insert_key(p, k).map_err(Some)
                        }
                    })?
                };
                match res {
                    Some(Ok(n)) => {
                        chk!(cx, MAIN | C01, live_p, "{name} with dead {p:?} worked");
                        chk!(cx, MAIN, !with || seen == [n], "closure got {seen:?}, result {n:?}");
                        let id = s.m.get(p).unwrap().1;
                        s.add(cx, n, kr, Ok(id))?;
                        s.post(cx, rng, Z, Cap::Ins, SM, len0, lv0, 0, full)?;
                    }
                    Some(Err(k)) => {
                        chk!(cx, MAIN | C01, !live_p, "{name} with live {p:?} failed");
                        if let Some(k) = k {
                            chk!(cx, C17 | C08, same(&k, &kr), "wrong key given back");
                        } else {
                            chk!(cx, C17, seen.is_empty(), "the closure of a rejected insertion ran");
                        }
                        cx.ev(C17, "rejected_insertion");
                        s.post(cx, rng, Z, SM, SM, len0, lv0, C17, true)?;
                    }
                    None => {
                        s.b.cap = s.a.capacity_keys();
                        s.post(cx, rng, Z, SM, SM, len0, lv0, C16, true)?;
                    }
                }
            }
            "union" => {
                let s = &mut self.s[i];
                let ok = live_p && live_q && !s.same_set(p, q);
                let r = s.a.union(p, q);
                chk!(cx, MAIN | C01 | C17, r.is_some() == ok, "union({p:?}, {q:?}) is_some {}", r.is_some());
                if let Some((v, kept)) = r {
                    let (ip, iq) = (s.m.get(p).unwrap().1, s.m.get(q).unwrap().1);
                    let (from, to, want) = if s.sets[&ip].0.len() < s.sets[&iq].0.len() { (ip, iq, q) } else { (iq, ip, p) };
                    chk!(cx, MAIN, kept == want, "union({p:?}, {q:?}) keeps {kept:?} instead of {want:?}");
                    let (mem, vr) = s.sets.remove(&from).unwrap();
                    chk!(cx, MAIN | C08, same(&v, &vr), "union gives back value {:?} instead of {vr:?}", v.rec());
                    for x in &mem {
                        s.m.get_mut(*x).unwrap().1 = to;
                    }
                    s.sets.get_mut(&to).unwrap().0.extend(mem);
                    cx.ev(MAIN, "union");
                    drop(v);
                    s.post(cx, rng, Z, SM, SM, len0, lv0, 0, full)?;
                } else {
                    cx.ev(C17, "rejected");
                    s.post(cx, rng, Z, SM, SM, len0, lv0, C17, true)?;
                }
            }
            "remove_key" => {
                let s = &mut self.s[i];
                let r = {
                    let a = &mut s.a;
                    cx.lim(live_p && blocked, || a.remove_key(p))?
                };
                match r {
                    None => s.post(cx, rng, Z, SM, SM, len0, lv0, C16, true)?,
                    Some(Some((k, v))) => {
                        chk!(cx, MAIN | C01, live_p, "remove_key of dead {p:?} worked");
                        let (kr, vr) = s.rem(p).unwrap();
                        chk!(cx, MAIN | C08 | C01, same(&k, &kr), "remove_key gave {:?} not {kr:?}", k.rec());
                        chk!(cx, MAIN | C08, v.is_some() == vr.is_some(), "remove_key: value given back {}, last key {}", v.is_some(), vr.is_some());
                        if let (Some(v), Some(vr)) = (&v, &vr) {
                            chk!(cx, MAIN | C08, same(v, vr), "remove_key gave value {:?} not {vr:?}", v.rec());
                            cx.ev(MAIN, "last_key_removed");
                        } else {
                            cx.ev(MAIN, "key_removed");
                        }
                        drop((k, v));
                        s.post(cx, rng, (1, 1), SM, SM, len0, lv0, 0, full)?;
                    }
                    Some(None) => {
                        chk!(cx, MAIN | C01, !live_p, "remove_key of live {p:?} failed");
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, SM, SM, len0, lv0, C17, true)?;
                    }
                }
            }
            "remove" => {
                let s = &mut self.s[i];
                let r = {
                    let a = &mut s.a;
                    cx.lim(live_p && blocked, || a.remove(p))?
                };
                match r {
                    None => s.post(cx, rng, Z, SM, SM, len0, lv0, C16, true)?,
                    Some(Some(v)) => {
                        chk!(cx, MAIN | C01, live_p, "remove of dead {p:?} worked");
                        let (mem, vr) = s.set_of(p).unwrap().clone();
                        for x in mem {
                            s.rem(x);
                        }
                        chk!(cx, MAIN | C08 | C01, same(&v, &vr), "remove gave {:?} not {vr:?}", v.rec());
                        cx.ev(MAIN, "set_removed");
                        drop(v);
                        s.post(cx, rng, (1, 1), SM, SM, len0, lv0, 0, true)?;
                    }
                    Some(None) => {
                        chk!(cx, MAIN | C01, !live_p, "remove of live {p:?} failed");
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, SM, SM, len0, lv0, C17, true)?;
                    }
                }
            }
            "invalidate" => {
                let s = &mut self.s[i];
                let r = {
                    let a = &mut s.a;
                    cx.lim(live_p && blocked, || a.invalidate(p))?
                };
                match r {
                    None => s.post(cx, rng, Z, SM, SM, len0, lv0, C16, true)?,
                    Some(Some(n)) => {
                        chk!(cx, MAIN | C01, live_p, "invalidate of dead {p:?} worked");
                        s.rename(cx, p, n)?;
                        s.post(cx, rng, (1, 1), SM, SM, len0, lv0, 0, full)?;
                    }
                    Some(None) => {
                        chk!(cx, MAIN | C01, !live_p, "invalidate of live {p:?} failed");
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, SM, SM, len0, lv0, C17, true)?;
                    }
                }
            }
            "swap_keys" | "swap_vals" => {
                let s = &mut self.s[i];
                let keys = name == "swap_keys";
                let r = if keys { s.a.swap_keys(p, q) } else { s.a.swap_vals(p, q) };
                let ok = live_p && live_q;
                chk!(cx, MAIN | C01 | C17, r.is_some() == ok, "{name}({p:?}, {q:?}) is_some {}", r.is_some());
                if ok {
                    if keys {
                        let (x, y) = (s.m.get(p).unwrap().0, s.m.get(q).unwrap().0);
                        s.m.get_mut(p).unwrap().0 = y;
                        s.m.get_mut(q).unwrap().0 = x;
                    } else {
                        let (x, y) = (*s.val_of(p), *s.val_of(q));
                        *s.val_of(p) = y;
                        *s.val_of(q) = x;
                    }
                } else {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, Z, SM, SM, len0, lv0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "get_mut" => {
                let s = &mut self.s[i];
                let how = rng.n(3);
                let (k, v) = match how {
                    0 => {
                        let k = s.a.get_key_mut(p);
                        chk!(cx, MAIN | C01, k.is_some() == live_p, "get_key_mut({p:?}) is_some {}", k.is_some());
                        (k, None)
                    }
                    1 => {
                        let v = s.a.get_val_mut(p);
                        chk!(cx, MAIN | C01, v.is_some() == live_p, "get_val_mut({p:?}) is_some {}", v.is_some());
                        (None, v)
                    }
                    _ => {
                        let r = s.a.get_mut(p);
                        chk!(cx, MAIN | C01, r.is_some() == live_p, "get_mut({p:?}) is_some {}", r.is_some());
                        match r {
                            Some((k, v)) => (Some(k), Some(v)),
                            None => (None, None),
                        }
                    }
                };
                if let Some(k) = k {
                    let r = &mut s.m.get_mut(p).unwrap().0;
                    chk!(cx, MAIN | C01, same(k, r), "mutable key of {p:?} is {:?} not {r:?}", k.rec());
                    k.mark += 1;
                    r.mark += 1;
                }
                if let Some(v) = v {
                    let id = s.m.get(p).unwrap().1;
                    let r = &mut s.sets.get_mut(&id).unwrap().1;
                    chk!(cx, MAIN, same(v, r), "mutable value of {p:?} is {:?} not {r:?}", v.rec());
                    v.mark += 1;
                    r.mark += 1;
                }
                s.post(cx, rng, Z, SM, SM, len0, lv0, 0, full)?;
            }
            "get2_mut" => {
                let s = &mut self.s[i];
                let same_s = s.same_set(p, q);
                let how = rng.n(3);
                let ok = live_p && live_q && p != q && (how == 0 || !same_s);
                let (k, v) = match how {
                    0 => {
                        let r = s.a.get2_key_mut(p, q);
                        chk!(cx, MAIN | C01 | C17 | C09, r.is_some() == ok, "get2_key_mut({p:?}, {q:?}) is_some {}", r.is_some());
                        (r, None)
                    }
                    1 => {
                        let r = s.a.get2_val_mut(p, q);
                        chk!(cx, MAIN | C01 | C17 | C09, r.is_some() == ok, "get2_val_mut({p:?}, {q:?}) is_some {}", r.is_some());
                        (None, r)
                    }
                    _ => {
                        let r = s.a.get2_mut(p, q);
                        chk!(cx, MAIN | C01 | C17 | C09, r.is_some() == ok, "get2_mut({p:?}, {q:?}) is_some {}", r.is_some());
                        match r {
                            Some(((a, b), (c, d))) => (Some((a, c)), Some((b, d))),
                            None => (None, None),
                        }
                    }
                };
                if let Some((x, y)) = k {
                    chk!(cx, C09 | MAIN, !std::ptr::eq(x, y), "paired keys alias");
                    x.mark += 1;
                    y.mark += 2;
                    s.m.get_mut(p).unwrap().0.mark += 1;
                    s.m.get_mut(q).unwrap().0.mark += 2;
                    chk!(cx, MAIN, same(x, &s.m.get(p).unwrap().0) && same(y, &s.m.get(q).unwrap().0), "paired keys are wrong");
                }
                if let Some((x, y)) = v {
                    chk!(cx, C09 | MAIN, !std::ptr::eq(x, y), "paired values alias");
                    x.mark += 1;
                    y.mark += 2;
                    let (ip, iq) = (s.m.get(p).unwrap().1, s.m.get(q).unwrap().1);
                    s.sets.get_mut(&ip).unwrap().1.mark += 1;
                    s.sets.get_mut(&iq).unwrap().1.mark += 2;
                    chk!(cx, MAIN, same(x, &s.sets[&ip].1) && same(y, &s.sets[&iq].1), "paired values are wrong");
                }
                if !ok {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, Z, SM, SM, len0, lv0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "same_set" => {
                let s = &self.s[i];
                let w = if live_p && live_q { Some(s.same_set(p, q)) } else { None };
                chk!(cx, MAIN | C01, s.a.in_same_set(p, q) == w, "in_same_set({p:?}, {q:?}) is {:?} not {w:?}", s.a.in_same_set(p, q));
                let w = s.set_of(p).map(|x| x.0.len());
                chk!(cx, MAIN | C01, s.a.len_key_set(p).map(|x| x.get()) == w, "len_key_set({p:?}) is {:?} not {w:?}", s.a.len_key_set(p));
                let w = s.m.order.iter().find(|x| x.i() == p.i()).copied();
                match (s.a.get_link_no_gen(p.inx()), w) {
                    (Some((g, l)), Some(x)) => {
                        chk!(cx, MAIN | C01, same(l.t, &s.m.get(x).unwrap().0) && (!P::HG || P::gnum(g) == x.g()), "get_link_no_gen({p:?}) gives {:?}", l.t.rec());
                    }
                    (r, w) => chk!(cx, MAIN | C01, r.is_none() && w.is_none(), "get_link_no_gen({p:?}) is_some {}", r.is_some()),
                }
            }
            "mut_iters" => {
                let s = &mut self.s[i];
                let mut ids = HSet::default();
                if rng.p(1, 2) {
                    let mut v: Vec<&mut Tok> = s.a.keys_mut().collect();
                    for t in v.iter_mut() {
                        t.mark += 1;
                    }
                    chk!(cx, C11 | MAIN, v.len() == len0, "keys_mut yields {} of {len0}", v.len());
                    for t in v.iter() {
                        chk!(cx, C11 | C09, ids.insert(t.id), "keys_mut yields a key twice");
                    }
                    for p in s.m.order.clone() {
                        s.m.get_mut(p).unwrap().0.mark += 1;
                    }
                } else {
                    let mut v: Vec<&mut Tok> = s.a.vals_mut().collect();
                    for t in v.iter_mut() {
                        t.mark += 1;
                    }
                    chk!(cx, C11 | MAIN, v.len() == lv0, "vals_mut yields {} of {lv0}", v.len());
                    for t in v.iter() {
                        chk!(cx, C11 | C09, ids.insert(t.id), "vals_mut yields a value twice");
                    }
                    for x in s.sets.values_mut() {
                        x.1.mark += 1;
                    }
                }
                cx.ev(C11, "mutable_iteration");
                s.post(cx, rng, Z, SM, SM, len0, lv0, C11, true)?;
            }
            "iters" => {
                let s = &self.s[i];
                let ps: Vec<P> = s.a.ptrs().collect();
                let ks: Vec<TR> = s.a.keys().map(|k| k.rec()).collect();
                let vs: Vec<TR> = s.a.vals().map(|k| k.rec()).collect();
                let psx: HSet<P> = ps.iter().copied().collect();
                chk!(cx, C11 | C01, ps.len() == len0 && psx.len() == len0 && ps.iter().all(|p| s.m.has(*p)), "ptrs yields {} of {len0} or stale ones", psx.len());
                let want: HMap<u64, TR> = s.m.order.iter().map(|p| s.m.get(*p).unwrap().0).map(|r| (r.id, r)).collect();
                let got: HSet<u64> = ks.iter().map(|k| k.id).collect();
                chk!(cx, C11, ks.len() == len0 && got.len() == len0 && ks.iter().all(|k| want.get(&k.id) == Some(k)), "keys yields {} of {len0} or others", got.len());
                let want: HMap<u64, TR> = s.sets.values().map(|r| (r.1.id, r.1)).collect();
                let got: HSet<u64> = vs.iter().map(|k| k.id).collect();
                chk!(cx, C11, vs.len() == lv0 && got.len() == lv0 && vs.iter().all(|k| want.get(&k.id) == Some(k)), "vals yields {} of {lv0} or others", got.len());
                let mut n = 0;
                for (p, k, v) in &s.a {
                    n += 1;
                    chk!(cx, C11, s.m.get(p).map(|x| same(k, &x.0) && same(v, &s.sets[&x.1].1)) == Some(true), "iteration gives {p:?} with {:?} {:?}", k.rec(), v.rec());
                }
                chk!(cx, C11, n == len0, "iteration yields {n} of {len0}");
                cx.ev(C11, "iteration");
                cx.poll()?;
            }
            "iter_surject" => {
                let s = &self.s[i];
                let want: HSet<P> = s.set_of(p).map(|x| x.0.iter().copied().collect()).unwrap_or_default();
                let mut ps = HSet::default();
                for (x, k, v) in s.a.iter_surject(p) {
                    chk!(cx, C11 | C10 | MAIN | C01, ps.insert(x) && want.contains(&x), "iter_surject from {p:?} yields {x:?} twice or from elsewhere");
                    let (kr, id) = s.m.get(x).unwrap();
                    chk!(cx, C11 | MAIN, same(k, kr) && same(v, &s.sets[id].1), "iter_surject pairs {x:?} with {:?} {:?}", k.rec(), v.rec());
                }
                chk!(cx, C11 | C10 | MAIN, ps.len() == want.len(), "iter_surject from {p:?} yields {} of {} keys", ps.len(), want.len());
                if want.len() > 1 {
                    cx.ev(C11 | C10, "set_iteration");
                }
                cx.poll()?;
            }
            "clear" | "clear_and_shrink" => {
                let s = &mut self.s[i];
                let shrink = name == "clear_and_shrink";
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || if shrink { a.clear_and_shrink() } else { a.clear() })?
                };
                if r.is_none() {
                    return s.post(cx, rng, Z, SM, SM, len0, lv0, C16, true)
                }
                s.kill_all();
                cx.ev(C18, "cleared");
                let c = if shrink { Cap::Exact(0) } else { SM };
                s.post(cx, rng, (1, 1), c, c, len0, lv0, 0, true)?;
            }
            "compress" => {
                let s = &mut self.s[i];
                let with = rng.p(4, 5);
                let mut got: Vec<(P, TR, TR, P)> = vec![];
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || {
                        if with {
                            a.compress_and_shrink_with(|p, k, v, n| {
                                got.push((p, k.rec(), v.rec(), n));
                                tick(K_CLOSURE);
                                k.mark += 1;
                                v.mark += 1;
                            })
                        } else {
                            a.compress_and_shrink()
                        }
                    })?
                };
                if r.is_none() {
                    chk!(cx, C16, got.is_empty(), "callback ran before the limit panic");
                    return s.post(cx, rng, Z, SM, SM, len0, lv0, C16, true)
                }
                cx.taint |= C13;
                cx.ev(C13, "compression");
                if len0 < s.b.cap {
                    cx.ev(C13, "compression_with_holes");
                }
                let old = s.m.clone();
                let olds = s.sets.clone();
                if !with {
                    let byid: HMap<u64, P> = old.order.iter().map(|p| (old.get(*p).unwrap().0.id, *p)).collect();
                    for (n, k, v) in s.a.iter() {
                        match byid.get(&k.id) {
                            Some(p) => got.push((*p, k.rec(), v.rec(), n)),
                            None => chk!(cx, C13, false, "unknown key {:?} after compression", k.rec()),
                        }
                    }
                }
                s.kill_all();
                chk!(cx, C13, got.len() == len0, "compression reported {} of {len0} entries", got.len());
                let mut vm: HMap<u64, u64> = HMap::default();
                let mut seen = HSet::default();
                let mut done = HSet::default();
                let mut last = u64::MAX;
                let mut newset: HMap<u64, u64> = HMap::default();
                for (p, k, v, n) in &got {
                    chk!(cx, C13, seen.insert(*p), "compression reported {p:?} twice");
                    let Some((kr, id)) = old.get(*p).copied() else {
                        chk!(cx, C13, false, "compression reported {p:?}, which was not valid");
                        unreachable!()
                    };
                    let vr = olds[&id].1;
                    let e = vm.entry(id).or_insert(0);
                    let want = TR { mark: vr.mark + *e, ..vr };
                    chk!(cx, C13, kr == *k && want == *v, "compression: {p:?} had {k:?} {v:?}, model {kr:?} {want:?}");
                    if with {
                        *e += 1;
                    }
                    if with && id != last {
                        chk!(cx, C13, done.insert(id), "key sets are not contiguous during compression");
                        last = id;
                    }
                    let mut k = *k;
                    k.mark += with as u64;
                    let sid = newset.get(&id).copied();
                    s.add(cx, *n, k, sid.ok_or(vr))?;
                    newset.insert(id, s.m.get(*n).unwrap().1);
                }
                for (id, e) in vm {
                    s.sets.get_mut(&newset[&id]).unwrap().1.mark += e;
                }
                // contiguous when iterating afterwards
                let mut done = HSet::default();
                let mut last = u64::MAX;
                for p in s.a.ptrs() {
                    if let Some((_, id)) = s.m.get(p) {
                        if *id != last {
                            chk!(cx, C13, done.insert(*id), "key sets are not contiguous after compression");
                            last = *id;
                        }
                    }
                }
                s.post(cx, rng, (1, 1), Cap::Exact(len0), Cap::Exact(lv0), len0, lv0, C13, true)?;
            }
            "recast" => self.recast(cx, rng, i)?,
            "reserve" => {
                let s = &mut self.s[i];
                let keys = rng.p(1, 2);
                let (cap, l) = if keys { (s.b.cap, len0) } else { (s.capv, lv0) };
                let n = if P::INX_MAX <= 65535 && rng.p(1, 3) { ((P::INX_MAX as usize - cap) + 1).saturating_sub(rng.n(4)).min(300) } else { rng.n(9) };
                let must = (l + n) as u128 > P::INX_MAX;
                let may = (cap + n) as u128 > P::INX_MAX;
                let r = {
                    let a = &mut s.a;
                    let f = || if keys { a.reserve_keys(n) } else { a.reserve_vals(n) };
                    if must || !may {
                        cx.lim(must, f)?.is_some()
                    } else {
                        catch(f).is_ok()
                    }
                };
                if !r {
                    s.b.cap = s.a.capacity_keys();
                    s.capv = s.a.capacity_vals();
                    s.post(cx, rng, Z, SM, SM, len0, lv0, C16, true)?;
                } else {
                    cx.ev(C18, "reserved");
                    let c = Cap::Range(cap.max(l + n), cap + n);
                    let (ck, cv) = if keys { (c, SM) } else { (SM, c) };
                    s.post(cx, rng, Z, ck, cv, len0, lv0, 0, full)?;
                }
            }
            "clone" | "clone_from" | "clone_from_with" => self.clone_op(cx, rng, i, o, name)?,
            "clone_to" => {
                let s = &self.s[i];
                let salt = rng.u();
                let mut seen: Vec<(P, TR)> = vec![];
                let how = rng.n(3);
                let f = |p: P, k: &Tok| {
                    seen.push((p, k.rec()));
                    k.id ^ salt
                };
                // (value, previous, next) as indexes
                let mut img: HMap<P, (u64, Option<(usize, usize)>)> = HMap::default();
                let dead: Vec<P> = s.b.dead.iter().rev().take(4).copied().collect();
                let mut acc = vec![];
                match how {
                    0 => {
                        let mut a: Arena<P, u64> = Arena::new();
                        if rng.p(1, 2) {
                            a.insert(1);
                        }
                        s.a.clone_keys_to_arena(&mut a, f);
                        for (p, x) in &a {
                            img.insert(p, (*x, None));
                        }
                        acc.extend(dead.iter().map(|p| a.contains(*p)));
                    }
                    1 => {
                        let mut a: ChainArena<P, u64> = ChainArena::new();
                        if rng.p(1, 2) {
                            a.insert_new(1);
                        }
                        s.a.clone_keys_to_chain_arena(&mut a, f);
                        for (p, l) in &a {
                            let (Some(x), Some(y)) = (l.prev(), l.next()) else {
                                chk!(cx, C12, false, "a key set did not become a cyclic chain");
                                unreachable!()
                            };
                            chk!(cx, C12 | C01, s.m.has(x) && s.m.has(y), "interlinks of {p:?} in the clone are {:?}", l.prev_next());
                            img.insert(p, (l.t, Some((x.i(), y.i()))));
                        }
                        acc.extend(dead.iter().map(|p| a.contains(*p)));
                    }
                    _ => {
                        let mut a: ChainNoGenArena<P, u64> = ChainNoGenArena::new();
                        s.a.clone_keys_to_chain_no_gen_arena(&mut a, f);
                        for (p, l) in &a {
                            let (Some(x), Some(y)) = (l.prev(), l.next()) else {
                                chk!(cx, C12, false, "a key set did not become a cyclic chain");
                                unreachable!()
                            };
                            img.insert(p, (l.t, Some((inum::<P>(x), inum::<P>(y)))));
                        }
                        acc.extend(dead.iter().map(|p| a.contains(*p)));
                    }
                }
                chk!(cx, C12, seen.len() == len0 && img.len() == len0, "conversion {how} mapped {} of {len0}, has {}", seen.len(), img.len());
                for (p, r) in seen {
                    chk!(cx, C12, s.m.get(p).map(|x| x.0) == Some(r), "conversion {how} mapped {p:?} {r:?}");
                    let l = s.a.get_link_no_gen(p.inx()).unwrap().1;
                    let w = (r.id ^ salt, if how == 0 { None } else { Some((inum::<P>(l.prev().unwrap()), inum::<P>(l.next().unwrap()))) });
                    chk!(cx, C12 | C01, img.get(&p) == Some(&w), "conversion {how}: {p:?} gives {:?} instead of {w:?}", img.get(&p));
                }
                for (p, a) in dead.iter().zip(acc) {
                    chk!(cx, C12 | C01, a == s.m.has(*p), "conversion {how}: validity of {p:?}");
                }
                cx.ev(C12, "converted");
                cx.poll()?;
            }
            "eq" => self.eq_op(cx, rng, i, o)?,
            "advance" | "advance_surject" => {
                if !self.in_body {
                    self.in_body = true;
                    let r = self.advance(cx, rng, i, if name == "advance" { None } else { Some(p) });
                    self.in_body = false;
                    r?;
                }
            }
            "burn" => {
                let n = burn_count::<P>(cx, rng, self.s[i].b.gen);
                let s = &mut self.s[i];
                if let Some(p0) = s.m.order.first().copied() {
                    let mut p = p0;
                    let (k, id) = s.m.remove(p).unwrap();
                    s.b.kill(p);
                    for _ in 0..n {
                        if P::HG && s.b.gen == P::GEN_MAX {
                            break
                        }
                        match s.a.invalidate(p) {
                            Some(n) => {
                                let g = P::gnum(s.a.generation());
                                chk!(cx, C23 | C16, !P::HG || g == s.b.gen + 1, "generation {} to {g}", s.b.gen);
                                s.b.gen = g;
                                s.b.issue(cx, n, false, g)?;
                                p = n;
                                s.b.kill(p);
                            }
                            None => chk!(cx, MAIN | C16 | C01, false, "invalidate of live {p:?} failed"),
                        }
                    }
                    s.b.dead.pop();
                    s.m.insert(p, (k, id));
                    let set = &mut s.sets.get_mut(&id).unwrap().0;
                    let pos = set.iter().position(|x| *x == p0).unwrap();
                    set[pos] = p;
                    if s.b.blocked() {
                        cx.ev(C16, "generation_limit_reached");
                    }
                }
                s.post(cx, rng, Z, SM, SM, len0, lv0, 0, true)?;
            }
            "fill" => {
                if P::INX_MAX > 65535 || (P::INX_MAX > 255 && (cx.miri || !rng.p(1, 25))) {
                    return Ok(())
                }
                let leave = if rng.p(2, 3) { 0 } else { rng.n(3) };
                let single = rng.p(1, 3);
                while (self.s[i].m.len() as u128) < P::INX_MAX - leave as u128 {
                    let (k, v) = (self.tok(rng), self.tok(rng));
                    let (kr, vr) = (k.rec(), v.rec());
                    let s = &mut self.s[i];
                    let (l0, v0) = (s.m.len(), s.sets.len());
                    if !single && l0 > 0 && rng.p(3, 4) {
                        drop(v);
                        let x = *rng.pick(&s.m.order);
                        match s.a.insert_key(x, k) {
                            Ok(n) => {
                                let id = s.m.get(x).unwrap().1;
                                s.add(cx, n, kr, Ok(id))?;
                            }
                            Err(_) => chk!(cx, MAIN | C16, false, "insert_key with live {x:?} failed"),
                        }
                        s.post(cx, rng, Z, Cap::Ins, SM, l0, v0, 0, false)?;
                    } else {
                        let n = s.a.insert(k, v);
                        s.add(cx, n, kr, Err(vr))?;
                        s.post(cx, rng, Z, Cap::Ins, Cap::Ins, l0, v0, 0, false)?;
                    }
                }
                cx.ev(C16, "index_limit_reached");
                self.s[i].full(cx, rng, 0)?;
            }
            "ring" => self.ring(cx, rng)?,
            _ => unreachable!(),
        }
        Ok(())
    }

    /// the `ArenaTrait` view, only available without values
    fn ring(&mut self, cx: &mut Cx, rng: &mut Rng) -> R {
        let mut a: SurjectArena<P, Tok, ()> = ArenaTrait::new();
        let mut m: Live<P, TR> = Live::new();
        let mut dead = vec![];
        for _ in 0..rng.n(12) {
            match rng.n(5) {
                0..=2 => {
                    let k = Tok::new(rng.n(4) as u64);
                    let r = k.rec();
                    let p = ArenaTrait::insert(&mut a, k);
                    chk!(cx, MAIN | C01, !m.has(p), "{p:?} is in use");
                    m.insert(p, r);
                }
                3 if m.len() > 0 => {
                    let p = *rng.pick(&m.order);
                    let k = ArenaTrait::remove(&mut a, p);
                    let r = m.remove(p).unwrap();
                    dead.push(p);
                    chk!(cx, MAIN | C08, k.as_ref().map(|k| same(k, &r)) == Some(true), "trait remove of {p:?} is wrong");
                }
                4 if m.len() > 0 => {
                    let p = *rng.pick(&m.order);
                    match ArenaTrait::get_mut(&mut a, p) {
                        Some(k) => {
                            k.mark += 1;
                            m.get_mut(p).unwrap().mark += 1;
                        }
                        None => chk!(cx, MAIN, false, "trait get_mut of {p:?} failed"),
                    }
                }
                _ => (),
            }
            chk!(cx, MAIN, ArenaTrait::len(&a) == m.len() && a.len_vals() == m.len() && ArenaTrait::is_empty(&a) == (m.len() == 0), "trait len is {}", ArenaTrait::len(&a));
            for p in &m.order {
                chk!(cx, MAIN | C01, ArenaTrait::contains(&a, *p) && ArenaTrait::get(&a, *p).map(|k| same(k, m.get(*p).unwrap())) == Some(true), "trait get of {p:?} is wrong");
            }
            for p in &dead {
                chk!(cx, MAIN | C01, ArenaTrait::contains(&a, *p) == m.has(*p), "stale {p:?} is accepted");
            }
        }
        let mut adv = ArenaTrait::advancer(&a);
        let mut n = 0;
        while let Some(p) = adv.advance(&a) {
            n += 1;
            chk!(cx, MAIN | C10, m.has(p) && n <= m.len(), "trait advancer gives {p:?}");
        }
        chk!(cx, MAIN | C10, n == m.len(), "trait advancer gives {n} of {}", m.len());
        if rng.p(1, 2) {
            ArenaTrait::clear(&mut a);
        } else {
            ArenaTrait::clear_and_shrink(&mut a);
            chk!(cx, C18, ArenaTrait::capacity(&a) == 0, "capacity after clear_and_shrink");
        }
        chk!(cx, MAIN, a.is_empty() && m.order.iter().all(|p| !P::HG || !a.contains(*p)), "trait clear leaves something");
        Ok(())
    }

    fn clone_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, o: usize, name: &str) -> R {
        let salt = rng.n(5) as u64;
        let (len, lv) = (self.s[i].m.len(), self.s[i].sets.len());
        cx.taint |= C12;
        cx.ev(C12, "clone");
        let mut got: Vec<(P, TR)> = vec![];
        let mut gotv: Vec<(usize, TR)> = vec![];
        let mapped = name == "clone_from_with";
        let fresh = name == "clone" || i == o;
        let mut fk = |p: P, t: &Tok| {
            tick(K_CLOSURE);
            got.push((p, t.rec()));
            Tok::new(t.val + salt)
        };
        let mut fv = |n: std::num::NonZeroUsize, t: &Tok| {
            tick(K_CLOSURE);
            gotv.push((n.get(), t.rec()));
            Tok::new(t.val + salt)
        };
        let di;
        if fresh {
            let src = &self.s[i].a;
            let a = if mapped {
                let mut a = SurjectArena::new();
                a.clone_from_with(src, &mut fk, &mut fv);
                a
            } else {
                src.clone()
            };
            let s = S::blank(a);
            if self.s.len() < 3 {
                self.s.push(s);
                di = self.s.len() - 1;
            } else {
                di = if o == i { (i + 1) % self.s.len() } else { o };
                self.s[di] = s;
            }
        } else {
            cx.ev(C12, "clone_into_existing");
            di = o;
            let (s, d) = two(&mut self.s, i, o);
            if mapped {
                d.a.clone_from_with(&s.a, &mut fk, &mut fv);
            } else {
                d.a.clone_from(&s.a);
            }
        }
        if mapped {
            let s = &self.s[i];
            let mut ps = HSet::default();
            chk!(cx, C12, got.len() == len && gotv.len() == lv, "the mappings ran {} and {} times for {len} keys and {lv} values", got.len(), gotv.len());
            for (p, r) in &got {
                chk!(cx, C12, ps.insert(*p) && s.m.get(*p).map(|x| x.0) == Some(*r), "the mapping got {p:?} {r:?}");
            }
            let want: HMap<u64, (usize, TR)> = s.sets.values().map(|x| (x.1.id, (x.0.len(), x.1))).collect();
            for x in &gotv {
                chk!(cx, C12, want.get(&x.1.id) == Some(x), "the value mapping got {x:?}");
            }
        }
        let (s, d) = two(&mut self.s, i, di);
        let (sc, dc) = (s.b.cap, d.b.cap);
        let (sv, dv) = (s.capv, d.capv);
        d.m.clear();
        d.sets = s.sets.clone();
        d.ids = s.ids;
        d.b.adopt_clone(&s.b);
        for p in s.m.order.clone() {
            let (r, id) = *s.m.get(p).unwrap();
            let vr = s.sets[&id].1;
            let im = |t: &Tok, r: &TR| t.ok() && if mapped { t.val == r.val + salt } else { t.val == r.val && t.mark == r.mark && reg_parent(t.id) == r.id };
            match d.a.get(p) {
                Some((k, v)) => {
                    chk!(cx, C12 | C01, im(k, &r), "image of key {p:?} is {:?}, source {r:?}", k.rec());
                    chk!(cx, C12, im(v, &vr), "image of value of {p:?} is {:?}, source {vr:?}", v.rec());
                    d.m.insert(p, (k.rec(), id));
                    d.sets.get_mut(&id).unwrap().1 = v.rec();
                }
                None => chk!(cx, C12 | C01, false, "{p:?} is not valid in the clone"),
            }
        }
        // the cyclic order carries over
        for p in &s.m.order {
            let (x, y) = (s.a.get_link_no_gen(p.inx()).unwrap().1, d.a.get_link_no_gen(p.inx()));
            chk!(cx, C12, y.map(|y| y.1.prev_next()) == Some(x.prev_next()), "key order around {p:?} differs in the clone");
        }
        let r = |l: usize, s: usize, d: usize| if fresh { Cap::Range(l, s.max(l)) } else { Cap::Range(l.max(d), s.max(d)) };
        d.post(cx, rng, (0, 0), r(len, sc, dc), r(lv, sv, dv), len, lv, C12, true)?;
        s.post(cx, rng, (0, 0), Cap::Same, Cap::Same, len, lv, C12, true)
    }

    fn eq_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, o: usize) -> R {
        let s = &self.s[i];
        let mut c = s.a.clone();
        chk!(cx, C19 | C12, s.a == c && c == s.a, "an arena is not equal to its clone");
        let room = !s.b.blocked();
        let kind = rng.n(9);
        let any = |rng: &mut Rng| *rng.pick(&s.m.order);
        match kind {
            0 => c.reserve_keys(if (s.b.cap as u128 + 3) < P::INX_MAX { 3 } else { 0 }),
            1 if s.m.len() > 0 => c.get_key_mut(any(rng)).unwrap().val += 1,
            2 if s.m.len() > 0 => c.get_val_mut(any(rng)).unwrap().val += 1,
            3 if s.m.len() > 0 && room => {
                c.remove_key(any(rng));
            }
            4 if s.m.len() > 0 && room => {
                c.invalidate(any(rng));
            }
            5 if s.m.len() > 1 => {
                c.swap_keys(any(rng), any(rng));
            }
            6 if s.m.len() > 1 => {
                c.swap_vals(any(rng), any(rng));
            }
            7 if s.m.len() > 1 => {
                // equal values, only the partition differs
                let (p, q) = (any(rng), any(rng));
                if let (Some(x), Some(_)) = (c.get_val(p).cloned(), c.get_val(q)) {
                    if c.union(p, q).is_some() {
                        *c.get_val_mut(p).unwrap() = x;
                    }
                }
            }
            _ => (),
        }
        let expect = observed_eq(&s.a, &c);
        cx.ev(C19, if expect { "equal_pair" } else { "near_identical_pair" });
        chk!(cx, C19, (s.a == c) == expect && (c == s.a) == expect, "equality with a copy (variation {kind}) is {} / {} but should be {expect}", s.a == c, c == s.a);
        let d = &self.s[o];
        let expect = observed_eq(&s.a, &d.a);
        chk!(cx, C19, (s.a == d.a) == expect && (d.a == s.a) == expect, "equality of two arenas is {} / {} but should be {expect}", s.a == d.a, d.a == s.a);
        cx.poll()
    }

    fn recast(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize) -> R {
        let s = &self.s[i];
        if s.b.blocked() {
            return Ok(())
        }
        let order = &s.m.order;
        let mut lists: HMap<P, Vec<P>> = HMap::default();
        let mut g: SurjectArena<P, PN<P>, PN<P>> = SurjectArena::new();
        let mut lk = || -> Vec<P> { (0..rng.n(3)).map(|_| *rng.pick(order)).collect() };
        let mut vl: HMap<u64, Vec<P>> = HMap::default();
        {
            // two passes because both closures want the generator
            let kl: HMap<P, Vec<P>> = order.iter().map(|p| (*p, lk())).collect();
            for x in s.sets.values() {
                vl.insert(x.1.id, lk());
            }
            g.clone_from_with(
                &s.a,
                |p, k| {
                    lists.insert(p, kl[&p].clone());
                    PN(k.id, kl[&p].clone())
                },
                |_, v| PN(v.id, vl[&v.id].clone()),
            );
        }
        let rec = g.compress_and_shrink_recaster();
        chk!(cx, C13, rec.len() == s.m.len(), "recaster has {} of {} entries", rec.len(), s.m.len());
        for p in order {
            match rec.get(*p).and_then(|n| g.get(*n).map(|x| (n, x))) {
                Some((n, (k, v))) => {
                    let (kr, id) = s.m.get(*p).unwrap();
                    chk!(cx, C13, k.0 == kr.id && v.0 == s.sets[id].1.id, "recaster maps {p:?} to {n:?}, another element");
                }
                None => chk!(cx, C13, false, "recaster does not know {p:?} or maps it to nowhere"),
            }
        }
        cx.ev(C13, "recast");
        let bad = if rng.p(1, 3) && P::HG { s.b.dead.last().copied().filter(|p| !s.m.has(*p)) } else { None };
        let at = g.ptrs().next();
        if let (Some(bad), Some(at)) = (bad, at) {
            if rng.p(1, 2) {
                g.get_key_mut(at).unwrap().1.push(bad);
            } else {
                g.get_val_mut(at).unwrap().1.push(bad);
            }
            let r = g.recast(&rec);
            chk!(cx, C13, r == Err(bad), "recasting an unknown {bad:?} gives {r:?}");
            cx.ev(C13, "recast_unknown_ptr");
        } else {
            let r = g.recast(&rec);
            chk!(cx, C13, r.is_ok(), "recast failed with {r:?}");
            let tr = |v: &Vec<P>| -> Vec<P> { v.iter().map(|x| *rec.get(*x).unwrap()).collect() };
            for p in order {
                let (k, v) = g.get(*rec.get(*p).unwrap()).unwrap();
                chk!(cx, C13, k.1 == tr(&lists[p]), "recast Ptrs of a key are {:?}", k.1);
                chk!(cx, C13, v.1 == tr(&vl[&v.0]), "recast Ptrs of a value are {:?}", v.1);
            }
        }
        cx.poll()
    }

    fn advance(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, from: Option<P>) -> R {
        let s = &self.s[i];
        let scope: Vec<P> = match from {
            None => s.m.order.clone(),
            Some(p) => s.set_of(p).map(|x| x.0.clone()).unwrap_or_default(),
        };
        let mut cont: HMap<P, u64> = scope.iter().map(|p| (*p, s.m.get(*p).unwrap().0.id)).collect();
        let mut adv: Box<dyn FnMut(&SA<P>) -> Option<P>> = match from {
            None => {
                let mut a = s.a.advancer();
                Box::new(move |s| a.advance(s))
            }
            Some(p) => {
                let mut a = s.a.advancer_surject(p);
                Box::new(move |s| a.advance(s))
            }
        };
        let mut seen: HSet<(P, u64)> = HSet::default();
        let mut budget = rng.n(24);
        let mut steps = 0usize;
        let quiet = rng.p(1, 6);
        // what is being walked is changed as well, then only termination and validity are promised
        let wild = !quiet && from.is_some() && rng.p(1, 4);
        let mut calm = 0usize;
        let (start, issues0) = (s.m.len(), s.b.issues);
        loop {
            let p = adv(&self.s[i].a);
            steps += 1;
            let Some(p) = p else { break };
            let s = &self.s[i];
            chk!(cx, C10 | C01, s.a.contains(p) && s.m.has(p), "advancer yields {p:?}, which is invalid");
            let id = s.m.get(p).unwrap().0.id;
            chk!(cx, C10, seen.insert((p, if P::HG { 0 } else { id })) || wild, "advancer yields the element of {p:?} twice");
            if let Some(f) = from.filter(|_| !wild) {
                chk!(cx, C10 | C01, s.same_set(p, f), "set advancer from {f:?} yields {p:?} of another set");
            }
            cx.ev(C10, "advanced");
            let born = s.b.issues - issues0;
            calm += 1;
            if wild {
                chk!(cx, C10, calm <= start + born + 1, "advancer does not end, {calm} steps since the last modification");
            } else {
                chk!(cx, C10, steps <= start + born + 1, "advancer made {steps} steps with {start} elements at the start and {born} insertions");
            }
            if quiet {
                continue
            }
            let mut k = rng.n(3);
            while k > 0 && budget > 0 {
                k -= 1;
                budget -= 1;
                match from.filter(|_| !wild) {
                    None => {
                        let op = *rng.pick(BODY);
                        if !P::HG && TAB[op].0 == "swap_keys" {
                            continue
                        }
                        self.step(cx, rng, i, op, true)?
                    }
                    Some(f) => self.mild_op(cx, rng, i, f)?,
                }
                let s = &self.s[i];
                cont.retain(|p, id| s.m.get(*p).map(|r| P::HG || r.0.id == *id) == Some(true));
                calm = 0;
                cx.ev(C10, "mutation_during_advance");
            }
        }
        if wild {
            cx.ev(C10, "loop_over_changing_scope");
            return Ok(())
        }
        for (p, id) in &cont {
            chk!(cx, C10, seen.contains(&(*p, if P::HG { 0 } else { *id })), "{p:?} was valid during the whole loop but was not visited");
        }
        if !scope.is_empty() {
            cx.ev(C10, if from.is_some() { "complete_set_loop" } else { "complete_loop" });
        }
        Ok(())
    }

    /// anything that does not invalidate a key of the set of `f`
    fn mild_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, f: P) -> R {
        let (k, v) = (self.tok(rng), self.tok(rng));
        let (kr, vr) = (k.rec(), v.rec());
        let s = &mut self.s[i];
        let (len0, lv0) = (s.m.len(), s.sets.len());
        const Z: (u128, u128) = (0, 0);
        cx.op(MAIN | C10, 3, || "operation besides a set walk".to_string());
        let room = (len0 as u128) < P::INX_MAX;
        let others: Vec<P> = s.m.order.iter().copied().filter(|p| !s.same_set(*p, f)).collect();
        let mine = s.set_of(f).unwrap().0.clone();
        match rng.n(5) {
            0 if room => {
                let n = s.a.insert(k, v);
                s.add(cx, n, kr, Err(vr))?;
                s.post(cx, rng, Z, Cap::Ins, Cap::Ins, len0, lv0, 0, true)
            }
            1 if room => {
                drop(v);
                let x = *rng.pick(&mine);
                let Ok(n) = s.a.insert_key(x, k) else {
                    chk!(cx, MAIN, false, "insert_key with live {x:?} failed");
                    unreachable!()
                };
                let id = s.m.get(x).unwrap().1;
                s.add(cx, n, kr, Ok(id))?;
                s.post(cx, rng, Z, Cap::Ins, Cap::Same, len0, lv0, 0, true)
            }
            2 if !others.is_empty() => {
                drop((k, v));
                let (x, y) = (*rng.pick(&mine), *rng.pick(&others));
                let (x, y) = if rng.p(1, 2) { (x, y) } else { (y, x) };
                let Some((v, _)) = s.a.union(x, y) else {
                    chk!(cx, MAIN, false, "union of different sets failed");
                    unreachable!()
                };
                let (ip, iq) = (s.m.get(x).unwrap().1, s.m.get(y).unwrap().1);
                let (from, to) = if s.sets[&ip].0.len() < s.sets[&iq].0.len() { (ip, iq) } else { (iq, ip) };
                let (mem, vr) = s.sets.remove(&from).unwrap();
                chk!(cx, MAIN | C08, same(&v, &vr), "union gives back value {:?} instead of {vr:?}", v.rec());
                for x in &mem {
                    s.m.get_mut(*x).unwrap().1 = to;
                }
                s.sets.get_mut(&to).unwrap().0.extend(mem);
                drop(v);
                s.post(cx, rng, Z, Cap::Same, Cap::Same, len0, lv0, 0, true)
            }
            3 if !others.is_empty() && !s.b.blocked() => {
                drop((k, v));
                let x = *rng.pick(&others);
                let r = s.a.remove_key(x);
                chk!(cx, MAIN, r.is_some(), "remove_key of live {x:?} failed");
                drop(r);
                s.rem(x);
                s.post(cx, rng, (1, 1), Cap::Same, Cap::Same, len0, lv0, 0, true)
            }
            _ => Ok(()),
        }
    }
}

/// equality as documented, from what is observable
fn observed_eq<P: TP>(a: &SA<P>, b: &SA<P>) -> bool {
    a.len_keys() == b.len_keys()
        && a.ptrs().all(|p| match (a.get(p), b.get(p)) {
            (Some(x), Some(y)) => x == y && a.get_link_no_gen(p.inx()).unwrap().1.prev_next() == b.get_link_no_gen(p.inx()).unwrap().1.prev_next(),
            _ => false,
        })
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let mut w: W<P> = W::new(cx, rng)?;
    w.run(cx, rng)?;
    cx.op(C08 | C09, 1, || "drop all".to_string());
    drop(w);
    end_of_case(cx)
}
