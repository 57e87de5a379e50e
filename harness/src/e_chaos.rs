//! Engine for `OrdArena` with orderings that are inconsistent, or bypassed
use std::cmp::Ordering;

use triple_arena::{Advancer, OrdArena};

use crate::{
    cx::*,
    e_arena::end_of_case,
    e_ord::{bound, E, OA},
    model::*,
    ptrs::*,
    rng::*,
    tok::*,
};

const T: Tags = C07;

struct S<P: TP> {
    a: OA<P>,
    m: Live<P, E>,
    seq: Vec<P>,
    b: Book<P>,
}

fn samek(k: &Key, e: &E) -> bool {
    k.k == e.k && same(&k.t, &e.kr)
}

/// Runs something with another ordering
fn lawful<X>(f: impl FnOnce() -> X) -> X {
    let old = get_chaos();
    set_chaos(0, 0);
    let r = f();
    set_chaos(old.0, old.1);
    r
}

impl<P: TP> S<P> {
    fn new() -> Self {
        S {
            a: OrdArena::new(),
            m: Live::new(),
            seq: vec![],
            b: Book::new(T),
        }
    }

    fn pos(&self, p: P) -> usize {
        self.seq.iter().position(|x| *x == p).unwrap()
    }

    fn full(&self, cx: &mut Cx, t: Tags) -> R {
        let (a, n) = (&self.a, self.m.len());
        let t = T | t;
        chk!(cx, t, a.len() == n && self.seq.len() == n, "len {} but the model has {n}", a.len());
        let mut i = 0;
        for (p, k, v) in a.iter() {
            chk!(cx, t, i < n, "iteration yields more than len entries");
            chk!(cx, t, p == self.seq[i], "iteration yields {p:?} at position {i} instead of {:?}", self.seq[i]);
            let e = self.m.get(p).unwrap();
            chk!(cx, t | C08, samek(k, e) && same(v, &e.vr), "{p:?} holds {:?} {:?} instead of {e:?}", k.t.rec(), v.rec());
            i += 1;
        }
        chk!(cx, t, i == n, "iteration yields {i} of {n} entries");
        chk!(cx, t, a.first() == self.seq.first().copied(), "first is {:?} not {:?}", a.first(), self.seq.first());
        chk!(cx, t, a.last() == self.seq.last().copied(), "last is {:?} not {:?}", a.last(), self.seq.last());
        let mut at: HMap<P, usize> = HMap::default();
        for (i, p) in self.seq.iter().enumerate() {
            at.insert(*p, i);
            let prev = if i > 0 { Some(self.seq[i - 1]) } else { None };
            let next = self.seq.get(i + 1).copied();
            let l = a.get_link(*p).map(|l| l.prev_next());
            chk!(cx, t, l == Some((prev, next)), "neighbours of {p:?} are {l:?} instead of {:?}", (prev, next));
        }
        // the tree gives a way to every entry and every gap
        let bnd = bound(n);
        let step = 1 + n / 150;
        for i in (0..n).step_by(step) {
            let mut calls = 0;
            let mut lost = None;
            let mut f = |x: usize, q: P| {
                calls += 1;
                match at.get(&q) {
                    Some(j) => x.cmp(&(2 * j + 1)),
                    None => {
                        lost = Some(q);
                        Ordering::Equal
                    }
                }
            };
            let r = a.find_with(|q, _, _| f(2 * i + 1, q));
            let s = a.find_similar_with(|q, _, _| f(2 * i, q));
            chk!(cx, t, lost.is_none(), "the search leads to {lost:?} which is not live");
            chk!(cx, t, r == Some(self.seq[i]), "the search for the entry {i} of {n}, {:?}, leads to {r:?}", self.seq[i]);
            let ok = s == Some((self.seq[i], Ordering::Less)) || (i > 0 && s == Some((self.seq[i - 1], Ordering::Greater)));
            chk!(cx, t, ok, "the search for the gap {i} of {n}, before {:?}, leads to {s:?}", self.seq[i]);
            chk!(cx, t | C06, calls <= 2 * bnd, "a search with {n} entries took {calls} steps, bound {}", 2 * bnd);
        }
        for j in 0..self.b.dead.len().min(4) {
            let p = self.b.dead[self.b.dead.len() - 1 - j];
            chk!(cx, C01 | t, a.contains(p) == self.m.has(p), "stale {p:?} is accepted");
            if P::HG {
                cx.ev(C01, "stale_ptr_rejected");
            }
        }
        cx.ev(T, "structure_checked");
        let v: Vec<usize> = self.seq.iter().map(|p| p.i()).collect();
        cx.state(h(&v));
        cx.poll()
    }

    /// the result of an insertion under an arbitrary ordering
    fn inserted(&mut self, cx: &mut Cx, e: E, p: P, old: Option<(Key, Tok)>, may_replace: bool) -> R {
        match old {
            Some((k, v)) => {
                chk!(cx, T, may_replace && self.m.has(p), "an insertion replaced the value of {p:?}");
                let x = self.m.get_mut(p).unwrap();
                chk!(cx, T | C08, samek(&k, &e) && same(&v, &x.vr), "an insertion gave back {:?} {:?}", k.t.rec(), v.rec());
                x.vr = e.vr;
                cx.ev(T, "value_replaced");
            }
            None => {
                let live = self.m.has(p);
                self.b.issue(cx, p, live, P::gnum(self.a.generation()))?;
                let prev = match self.a.get_link(p) {
                    Some(l) => l.prev(),
                    None => {
                        chk!(cx, T, false, "new {p:?} has no link");
                        None
                    }
                };
                let j = match prev {
                    None => 0,
                    Some(q) => {
                        chk!(cx, T, self.m.has(q), "new {p:?} follows {q:?} which is not live");
                        self.pos(q) + 1
                    }
                };
                self.seq.insert(j, p);
                self.m.insert(p, e);
                cx.ev(T, "inserted");
            }
        }
        Ok(())
    }

    fn kill_all(&mut self) {
        for p in std::mem::take(&mut self.seq) {
            self.b.kill(p);
        }
        self.m.clear();
    }

    fn rename(&mut self, cx: &mut Cx, p: P, n: P) -> R {
        let i = self.pos(p);
        let e = self.m.remove(p).unwrap();
        self.b.kill(p);
        let live = self.m.has(n);
        self.b.issue(cx, n, live, P::gnum(self.a.generation()))?;
        self.seq[i] = n;
        self.m.insert(n, e);
        Ok(())
    }

    /// the copies of the values of `src` are now in here
    fn adopt(&mut self, cx: &mut Cx, src: &S<P>) -> R {
        let (seq, m) = (src.seq.clone(), src.m.clone());
        self.m.clear();
        for p in &seq {
            let e = *m.get(*p).unwrap();
            let Some((k, v)) = self.a.get(*p) else {
                chk!(cx, T | C12, false, "{p:?} is not valid in the clone");
                continue
            };
            chk!(cx, T | C12, k.k == e.k && v.val == e.vr.val && v.mark == e.vr.mark, "{p:?} differs in the clone");
            let n = E {
                k: e.k,
                kr: k.t.rec(),
                vr: v.rec(),
            };
            self.m.insert(*p, n);
        }
        self.seq = seq;
        self.b.adopt_clone(&src.b);
        self.b.cap = self.a.capacity();
        Ok(())
    }
}

struct W<P: TP> {
    s: Vec<S<P>>,
    dom: usize,
    vals: u64,
    mode_pool: Vec<u32>,
}

const OPS: &[(&str, u32)] = &[
    ("insert", 20),
    ("insert_linear", 10),
    ("insert_nonhereditary", 10),
    ("insert_nonhereditary_linear", 8),
    ("manual", 16),
    ("remove", 60),
    ("invalidate", 5),
    ("replace", 5),
    ("swap_vals", 4),
    ("finds", 10),
    ("drain", 2),
    ("clear", 1),
    ("compress", 5),
    ("clone", 2),
    ("clone_from", 3),
    ("clone_from_with", 3),
    ("advance", 4),
    ("compare", 3),
    ("from_iter", 1),
    ("mode", 4),
    ("into_iter", 1),
    ("insert_empty", 1),
];

impl<P: TP> W<P> {
    fn e(&mut self, rng: &mut Rng) -> (Key, Tok, E) {
        self.vals += 1;
        let k = rng.n(self.dom) as u64;
        let (key, v) = (Key::new(k), Tok::new(self.vals));
        let e = E {
            k,
            kr: key.t.rec(),
            vr: v.rec(),
        };
        (key, v, e)
    }

    fn step(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, op: &str, full: bool) -> R {
        let s = &self.s[i];
        let n = s.seq.len();
        let p = s.b.pick(rng, &s.seq, &[]);
        let q = s.b.pick(rng, &s.seq, &[]);
        let live = s.m.has(p);
        let blocked = s.b.blocked();
        let at_max = n as u128 >= P::INX_MAX;
        let num = *rng.pick(&[0, 1, 2, 4, 100, usize::MAX]);
        cx.op(T, h(&(op, i, p, q, n)), || format!("chaos{i}.{op} p={p:?} q={q:?} len={n} mode {}", get_chaos().0));
        let bnd = bound(n);
        let c0 = count(K_CMP);
        match op {
            "insert" | "insert_linear" | "insert_nonhereditary" | "insert_nonhereditary_linear" => {
                if at_max {
                    return Ok(())
                }
                let (k, v, e) = self.e(rng);
                let s = &mut self.s[i];
                let (n, old) = match op {
                    "insert" => s.a.insert(k, v),
                    "insert_linear" => s.a.insert_linear(p, num, k, v),
                    "insert_nonhereditary" => (s.a.insert_nonhereditary(k, v), None),
                    _ => (s.a.insert_nonhereditary_linear(p, num, k, v), None),
                };
                let c = count(K_CMP) - c0;
                let lim = bnd + if op.ends_with("linear") { num.min(2 * s.seq.len() + 2) as u64 } else { 0 };
                chk!(cx, T | C06, c <= lim, "{op} with {} entries made {c} comparisons, bound {lim}", s.seq.len());
                s.inserted(cx, e, n, old, !op.starts_with("insert_non"))?;
            }
            "manual" => {
                let (k, v, e) = self.e(rng);
                let s = &mut self.s[i];
                let here = s.seq.iter().find(|x| x.i() == p.i()).copied();
                let Some(x) = here else { return Ok(()) };
                let dir = *rng.pick(&[Ordering::Less, Ordering::Less, Ordering::Greater, Ordering::Greater, Ordering::Equal]);
                if at_max && dir != Ordering::Equal {
                    return Ok(())
                }
                let (n, old) = s.a.insert_inx_manual_unwrap(p.inx(), dir, k, v);
                chk!(cx, T, old.is_some() == (dir == Ordering::Equal), "manual insertion {dir:?} gave back {old:?}");
                chk!(cx, T, count(K_CMP) == c0, "manual insertion compares keys");
                let at = s.pos(x);
                s.inserted(cx, e, n, old, true)?;
                let want = match dir {
                    Ordering::Greater => at + 1,
                    _ => at,
                };
                chk!(cx, T, s.seq[want] == n, "manual insertion {dir:?} of {x:?} put it elsewhere");
                cx.ev(T, "manual_insertion");
            }
            "insert_empty" => {
                let (k, v, e) = self.e(rng);
                let s = &mut self.s[i];
                let r = s.a.insert_empty(k, v);
                chk!(cx, T | C17, r.is_some() == (n == 0), "insert_empty with {n} entries gives {r:?}");
                if let Some(p) = r {
                    s.inserted(cx, e, p, None, false)?;
                }
            }
            "remove" => {
                if blocked {
                    return Ok(())
                }
                let s = &mut self.s[i];
                let r = s.a.remove(p);
                chk!(cx, T | C01, r.is_some() == live, "remove({p:?}) gives {r:?}");
                if let Some((k, v)) = r {
                    let j = s.pos(p);
                    s.seq.remove(j);
                    let e = s.m.remove(p).unwrap();
                    s.b.kill(p);
                    chk!(cx, T | C08, samek(&k, &e) && same(&v, &e.vr), "remove({p:?}) gives {:?} {:?} instead of {e:?}", k.t.rec(), v.rec());
                    cx.ev(T, "removed");
                }
            }
            "invalidate" => {
                if blocked {
                    return Ok(())
                }
                let s = &mut self.s[i];
                let r = s.a.invalidate(p);
                chk!(cx, T | C01, r.is_some() == live, "invalidate({p:?}) gives {r:?}");
                if let Some(n) = r {
                    s.rename(cx, p, n)?;
                }
            }
            "replace" => {
                if blocked {
                    return Ok(())
                }
                let (_, v, e) = self.e(rng);
                let s = &mut self.s[i];
                let upd = rng.p(1, 2);
                let r = if upd {
                    s.a.replace_val_and_update_gen(p, v).map(|(v, n)| (v, n))
                } else {
                    s.a.replace_val_and_keep_gen(p, v).map(|v| (v, p))
                };
                match r {
                    Ok((v, n)) => {
                        chk!(cx, T | C01, live, "replacing at dead {p:?} worked");
                        chk!(cx, T | C08, same(&v, &s.m.get(p).unwrap().vr), "replacing gave back {:?}", v.rec());
                        if upd {
                            s.rename(cx, p, n)?;
                        }
                        s.m.get_mut(n).unwrap().vr = e.vr;
                    }
                    Err(v) => {
                        chk!(cx, T | C01, !live, "replacing at live {p:?} failed");
                        chk!(cx, T | C08, same(&v, &e.vr), "failed replacing gave back {:?}", v.rec());
                    }
                }
            }
            "swap_vals" => {
                let s = &mut self.s[i];
                let r = s.a.swap_vals(p, q);
                let ok = live && s.m.has(q);
                chk!(cx, T | C01, r.is_some() == ok, "swap_vals({p:?}, {q:?}) gives {r:?}");
                if ok && p != q {
                    let (x, y) = (s.m.get(p).unwrap().vr, s.m.get(q).unwrap().vr);
                    s.m.get_mut(p).unwrap().vr = y;
                    s.m.get_mut(q).unwrap().vr = x;
                }
            }
            "finds" => {
                let k = Key::new(rng.n(self.dom) as u64);
                let s = &self.s[i];
                for w in 0..4 {
                    let c0 = count(K_CMP);
                    let (r, must) = match w {
                        0 => (s.a.find_key(&k), false),
                        1 => (s.a.find_key_linear(p, num, &k), false),
                        2 => (s.a.find_similar_key(&k).map(|x| x.0), n > 0),
                        _ => (s.a.find_similar_key_linear(p, num, &k).map(|x| x.0), n > 0),
                    };
                    let c = count(K_CMP) - c0;
                    let lim = bnd + if w % 2 == 1 { num.min(2 * s.seq.len() + 2) as u64 } else { 0 };
                    chk!(cx, T | C06, c <= lim, "lookup {w} with {n} entries made {c} comparisons, bound {lim}");
                    match r {
                        Some(p) => chk!(cx, T | C01, s.m.has(p), "lookup {w} finds {p:?} which is not live"),
                        None => chk!(cx, T, !must, "similar lookup {w} finds nothing in {n} entries"),
                    }
                }
                // random closures
                let mut r2 = Rng::new(rng.u());
                let r = s.a.find_with(|_, _, _| *r2.pick(&[Ordering::Less, Ordering::Less, Ordering::Equal, Ordering::Greater]));
                chk!(cx, T | C01, r.map(|p| s.m.has(p)) != Some(false), "find_with finds {r:?} which is not live");
                let r = s.a.find_similar_with(|_, _, _| *r2.pick(&[Ordering::Less, Ordering::Greater]));
                chk!(cx, T | C01, r.map(|p| s.m.has(p.0)).unwrap_or(n == 0), "find_similar_with finds {r:?}");
                cx.ev(T | C06, "lookup_terminated");
            }
            "drain" => {
                if blocked || (P::HG && s.b.gen + n as u128 + 1 >= P::GEN_MAX) {
                    return Ok(())
                }
                let s = &mut self.s[i];
                let k = if rng.p(1, 2) { n + 1 } else { rng.n(n + 1) };
                let mut got = vec![];
                {
                    let mut d = s.a.drain();
                    for _ in 0..k {
                        match d.next() {
                            Some(x) => got.push(x),
                            None => break,
                        }
                    }
                }
                chk!(cx, T | C11, got.len() == k.min(n), "a drain yields {} of {}", got.len(), k.min(n));
                for (j, (p, key, v)) in got.iter().enumerate() {
                    chk!(cx, T | C11, *p == s.seq[j], "a drain yields {p:?} at {j}");
                    let e = s.m.get(*p).unwrap();
                    chk!(cx, T | C11 | C08, samek(key, e) && same(v, &e.vr), "a drain yields something else for {p:?}");
                }
                drop(got);
                s.kill_all();
            }
            "into_iter" => {
                let s = &mut self.s[i];
                let a = std::mem::replace(&mut s.a, OrdArena::new());
                let k = if rng.p(1, 2) { n + 1 } else { rng.n(n + 1) };
                let mut got = 0;
                for (p, key, v) in a.into_iter().take(k) {
                    let ok = s.m.get(p).map(|e| samek(&key, e) && same(&v, &e.vr)) == Some(true);
                    chk!(cx, T | C11, ok, "into_iter yields a wrong entry for {p:?}");
                    got += 1;
                }
                chk!(cx, T | C11, got == k.min(n), "into_iter yields {got} of {}", k.min(n));
                s.kill_all();
                s.b = Book::new(T);
            }
            "clear" => {
                if blocked {
                    return Ok(())
                }
                let s = &mut self.s[i];
                if rng.p(1, 2) {
                    s.a.clear();
                } else {
                    s.a.clear_and_shrink();
                }
                s.kill_all();
            }
            "compress" => {
                if blocked {
                    return Ok(())
                }
                let s = &mut self.s[i];
                let mut map = vec![];
                s.a.compress_and_shrink_with(|p, k, v, n| map.push((p, k.t.rec(), v.rec(), n)));
                chk!(cx, T | C13, map.len() == n, "compression reports {} of {n} entries", map.len());
                let mut m: HMap<P, P> = HMap::default();
                for (p, k, v, n) in map {
                    let ok = s.m.get(p).map(|e| e.kr == k && e.vr == v) == Some(true);
                    chk!(cx, T | C13, ok, "compression reports a wrong entry for {p:?}");
                    chk!(cx, T | C13, m.insert(p, n).is_none(), "compression reports {p:?} twice");
                }
                let olds = s.seq.clone();
                let old = std::mem::replace(&mut s.m, Live::new());
                let g = P::gnum(s.a.generation());
                for (j, p) in olds.into_iter().enumerate() {
                    let q = m[&p];
                    s.b.kill(p);
                    let live = s.m.has(q);
                    s.b.issue(cx, q, live, g)?;
                    s.seq[j] = q;
                    s.m.insert(q, *old.get(p).unwrap());
                }
                chk!(cx, T | C13, s.a.capacity() == n, "capacity {} after compressing {n} entries", s.a.capacity());
                cx.ev(T, "compressed");
            }
            "clone" => {
                let c = self.s[i].a.clone();
                let mut s = S::new();
                s.a = c;
                s.adopt(cx, &self.s[i])?;
                self.s[i] = s;
            }
            "clone_from" | "clone_from_with" => {
                if self.s.len() < 2 {
                    return Ok(())
                }
                let j = (i + 1) % self.s.len();
                let mut s = self.s.remove(j);
                let i = if j < i { i - 1 } else { i };
                if op == "clone_from" {
                    s.a.clone_from(&self.s[i].a);
                } else {
                    s.a.clone_from_with(&self.s[i].a, |_, v| v.clone());
                }
                s.adopt(cx, &self.s[i])?;
                s.full(cx, C12)?;
                self.s.push(s);
                let k = self.s.len() - 1;
                return self.s[k].full(cx, 0)
            }
            "advance" => {
                let s = &mut self.s[i];
                let mut adv = if live && rng.p(1, 2) { s.a.advancer_starting_from(p) } else { s.a.advancer() };
                let from = s.seq.len();
                let mut got = vec![];
                while let Some(x) = adv.advance(&s.a) {
                    got.push(x);
                    chk!(cx, T | C10, got.len() <= from, "an advancer does not end");
                }
                let ok = s.seq.ends_with(&got) && (live || got.len() == from);
                chk!(cx, T | C10, ok, "an advancer visits {got:?} of {:?}", s.seq);
            }
            "compare" => {
                let (x, y) = (&self.s[i].a, &self.s[(i + 1) % self.s.len()].a);
                let _ = x == y;
                let _ = x.cmp(y);
                let _ = x.partial_cmp(y);
                let _ = format!("{x:?}");
            }
            "from_iter" => {
                if P::INX_MAX < 64 {
                    return Ok(())
                }
                let m = rng.n(20);
                let mut v = vec![];
                let mut es = vec![];
                for _ in 0..m {
                    let (k, t, e) = self.e(rng);
                    v.push((k, t));
                    es.push(e);
                }
                let a: OA<P> = Hinted::new(rng, v.into_iter()).collect();
                let s = &mut self.s[i];
                *s = S::new();
                s.a = a;
                // each entry has the key of one pair and the value of one pair
                for (p, k, v) in s.a.iter() {
                    let ok = es.iter().any(|e| samek(k, e)) && es.iter().any(|e| same(v, &e.vr)) && !s.m.has(p) && s.seq.len() < m;
                    chk!(cx, T, ok, "from_iter holds a wrong entry {p:?}");
                    s.seq.push(p);
                    s.m.insert(p, E {
                        k: k.k,
                        kr: k.t.rec(),
                        vr: v.rec(),
                    });
                }
                for p in s.seq.clone() {
                    s.b.issued.insert(p);
                }
            }
            _ => {
                let m = *rng.pick(&self.mode_pool);
                set_chaos(m, rng.u());
                cx.ev(T, "ordering_changed");
                return Ok(())
            }
        }
        let s = &mut self.s[i];
        s.b.gen = P::gnum(s.a.generation());
        s.b.cap = s.a.capacity();
        cx.poll()?;
        if full {
            lawful(|| s.full(cx, 0))?;
        }
        Ok(())
    }
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    {
        let (nops, target, every) = match if cx.miri { 0 } else { rng.n(10) } {
            0..=2 => (rng.range(6, 25), rng.range(2, 10), 1),
            3..=7 => (rng.range(30, 150), rng.range(8, 50), 1),
            8 => (rng.range(150, 500), rng.range(40, 200), 5),
            _ => (rng.range(400, 1500), rng.range(100, 600), 40),
        };
        let mode_pool: Vec<u32> = match rng.n(4) {
            // one kind
            0 | 1 => vec![1 + rng.n(8) as u32],
            // lawful with a disturbance
            2 => vec![0, 1 + rng.n(8) as u32],
            _ => (0..9).collect(),
        };
        let mut w = W::<P> {
            s: (0..*rng.pick(&[1, 1, 2])).map(|_| S::new()).collect(),
            dom: *rng.pick(&[3, 10, 100, 100000]),
            vals: 0,
            mode_pool,
        };
        set_chaos(*rng.pick(&w.mode_pool), rng.u());
        let mut wt: Vec<u32> = OPS.iter().map(|x| x.1).collect();
        for x in wt.iter_mut().skip(1) {
            if rng.p(1, 5) {
                *x = 0;
            } else if rng.p(1, 8) {
                *x *= 4;
            }
        }
        let base = wt.clone();
        for k in 0..nops {
            let i = rng.n(w.s.len());
            let len = w.s[i].seq.len();
            let mut wt = base.clone();
            for (x, y) in wt.iter_mut().zip(OPS) {
                let grow = y.0.starts_with("insert") || y.0 == "manual";
                if grow && len < target {
                    *x += *x / 2;
                }
                if (y.0 == "remove" && len < target) || (grow && len > target + target / 2) {
                    *x /= 2;
                }
                if matches!(y.0, "drain" | "clear" | "into_iter" | "from_iter") && target > 20 {
                    *x = (*x).min(1);
                }
            }
            let op = OPS[rng.weighted(&wt)].0;
            w.step(cx, rng, i, op, k % every == 0 || k + 1 == nops)?;
        }
        for s in &w.s {
            lawful(|| s.full(cx, 0))?;
        }
        set_chaos(0, 0);
        cx.op(T | C08, 1, || "drop all arenas".to_string());
    }
    cx.poll()?;
    let left = reg_alive_count();
    chk!(cx, T | C08, left == 0, "{left} keys or values were neither dropped nor returned");
    end_of_case(cx)
}
