//! Engine for panics in user code: for a random state and a random operation the panic is injected
//! at the first, second, third... call of the user code, each time from the same state
use std::cmp::Ordering;

use recasting::{Recast, Recaster};
use triple_arena::{Arena, ChainArena, OrdArena, SurjectArena};

use crate::{
    cx::*,
    e_arena::{self, two},
    e_chain::{self, CA},
    e_ord, e_surject,
    model::*,
    ptrs::*,
    rng::*,
    tok::*,
};

const T: Tags = C20;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// nothing may have changed
    Exact,
    /// what the predicate accepted before is gone, nothing else changed
    Partial,
    /// the arena may have lost anything but must stay safe
    Weak,
    /// the arena is being overwritten by a clone of the second one, which may not change
    Into,
    /// the arena was consumed
    Gone,
}
use Mode::*;

type Ops = &'static [(&'static str, usize, Mode)];
/// the values reached through a `Ptr`, and if they are intact
type Seen = Vec<(TR, bool)>;

fn seen(t: &[&Tok]) -> Seen {
    t.iter().map(|t| (t.rec(), t.ok())).collect()
}

impl<P: TP> Recast<P> for Tok {
    fn recast<R: Recaster<Item = P>>(&mut self, _: &R) -> Result<(), P> {
        tick(K_CLOSURE);
        Ok(())
    }
}

/// An arena type with its engine
trait Sub<P: TP>: Sized {
    const OPS: Ops;
    const PRIMARY: Tags;
    fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self>;
    /// a step of the engine of the arena type, with its checks
    fn step(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, full: bool) -> R;
    fn full(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize) -> R;
    fn book(&mut self, i: usize) -> &mut Book<P>;
    fn live(&self, i: usize) -> Vec<P>;
    /// the operation with the fault, on the first arena
    fn fault(&mut self, rng: &mut Rng, op: &str);
    fn want(&self, i: usize, p: P) -> Vec<TR>;
    fn look(&self, i: usize, p: P) -> Option<Seen>;
    fn iter(&self, lim: usize) -> Vec<(P, Seen)>;
    fn kill_all(&mut self);
    /// removes from the model of the first arena
    fn rem(&mut self, _: P) {}
    /// a new arena for the first one
    fn renew(&mut self, cx: &mut Cx, rng: &mut Rng) -> R;
    fn clear(&mut self, shrink: bool);
    /// takes over generation and capacity
    fn sync(&mut self, i: usize);
}

fn ctor() -> Tok {
    // a value exists when the constructor panics
    let t = Tok::new(77);
    tick(K_CLOSURE);
    t
}

thread_local! {
    /// the values which the last predicate accepted
    static ACCEPTED: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
}

/// panics in the middle
struct It(usize);
impl Iterator for It {
    type Item = Tok;

    fn next(&mut self) -> Option<Tok> {
        tick(K_CLOSURE);
        if self.0 == 0 {
            None
        } else {
            self.0 -= 1;
            Some(Tok::new(self.0 as u64))
        }
    }
}

macro_rules! common {
    ($w:ident) => {
        fn book(&mut self, i: usize) -> &mut Book<P> {
            &mut self.s[i].b
        }

        fn live(&self, i: usize) -> Vec<P> {
            self.s[i].m.order.clone()
        }

        fn step(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, full: bool) -> R {
            let op = self.cfg.next_op(rng, self.s[i].m.len());
            $w::W::step(self, cx, rng, i, op, full)
        }

        fn full(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize) -> R {
            self.s[i].full(cx, rng, T)
        }

        fn kill_all(&mut self) {
            self.s[0].kill_all();
        }

        fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self> {
            let mut w = $w::W::new(cx, rng)?;
            while w.s.len() < 2 {
                w.s.push($w::S::new(cx, rng)?);
            }
            w.cfg.target = w.cfg.target.min(24);
            Ok(w)
        }

        fn renew(&mut self, cx: &mut Cx, rng: &mut Rng) -> R {
            self.s[0] = $w::S::new(cx, rng)?;
            Ok(())
        }
    };
}

impl<P: TP> Sub<P> for e_arena::W<P> {
    const OPS: Ops = &[
        ("insert_with", K_CLOSURE, Exact),
        ("try_insert_with", K_CLOSURE, Exact),
        ("remove_by", K_CLOSURE, Partial),
        ("remove_by", K_DROP, Weak),
        ("clear", K_DROP, Weak),
        ("clear_and_shrink", K_DROP, Weak),
        ("drain", K_DROP, Weak),
        ("into_iter", K_DROP, Gone),
        ("drop", K_DROP, Gone),
        ("compress_with", K_CLOSURE, Weak),
        ("clone", K_CLONE, Exact),
        ("clone_from", K_CLONE, Into),
        ("clone_from", K_DROP, Into),
        ("clone_from_with", K_CLOSURE, Into),
        ("clone_from_with", K_DROP, Into),
        ("from_iter", K_CLOSURE, Exact),
        ("recast", K_CLOSURE, Weak),
    ];
    const PRIMARY: Tags = C02;

    common!(e_arena);

    fn fault(&mut self, rng: &mut Rng, op: &str) {
        let sel = rng.u();
        let (s, o) = two(&mut self.s, 0, 1);
        let n = s.m.len();
        match op {
            "insert_with" => {
                s.a.insert_with(|_| ctor());
            }
            "try_insert_with" => {
                let _ = s.a.try_insert_with(|_| ctor()).is_ok();
            }
            "remove_by" => {
                ACCEPTED.with(|x| x.borrow_mut().clear());
                s.a.remove_by(|p, t| {
                    tick(K_CLOSURE);
                    let k = mix2(sel, p.i() as u64) & 1 == 0 || t.id == u64::MAX;
                    if k {
                        ACCEPTED.with(|x| x.borrow_mut().push(t.id));
                    }
                    k
                })
            }
            "clear" => s.a.clear(),
            "clear_and_shrink" => s.a.clear_and_shrink(),
            "drain" => {
                let k = rng.n(n + 1);
                let v: Vec<_> = s.a.drain().take(k).collect();
                drop(v);
            }
            "into_iter" => {
                let a = std::mem::replace(&mut s.a, Arena::new());
                let k = rng.n(n + 1);
                for x in a.into_iter().take(k) {
                    std::hint::black_box(&x);
                }
            }
            "drop" => s.a = Arena::new(),
            "compress_with" => s.a.compress_and_shrink_with(|_, _, _| tick(K_CLOSURE)),
            "clone" => {
                let c = s.a.clone();
                drop(c);
            }
            "clone_from" => s.a.clone_from(&o.a),
            "clone_from_with" => s.a.clone_from_with(&o.a, |_, t| {
                let t = t.clone();
                tick(K_CLOSURE);
                t
            }),
            "from_iter" => {
                let a: Arena<P, Tok> = It(rng.n(12)).collect();
                drop(a);
            }
            _ => {
                let r: Arena<P, P> = Arena::new();
                let _ = s.a.recast(&r);
            }
        }
    }

    fn rem(&mut self, p: P) {
        self.s[0].rem(p);
    }

    fn want(&self, i: usize, p: P) -> Vec<TR> {
        self.s[i].m.get(p).map(|x| vec![*x]).unwrap_or_default()
    }

    fn look(&self, i: usize, p: P) -> Option<Seen> {
        self.s[i].a.get(p).map(|t| seen(&[t]))
    }

    fn iter(&self, lim: usize) -> Vec<(P, Seen)> {
        self.s[0].a.iter().take(lim).map(|(p, t)| (p, seen(&[t]))).collect()
    }

    fn clear(&mut self, shrink: bool) {
        if shrink {
            self.s[0].a.clear_and_shrink();
        } else {
            self.s[0].a.clear();
        }
    }

    fn sync(&mut self, i: usize) {
        let s = &mut self.s[i];
        s.b.gen = P::gnum(s.a.generation());
        s.b.cap = s.a.capacity();
    }
}

const CHAIN_OPS: Ops = &[
    ("insert_with", K_CLOSURE, Exact),
    ("insert_new_with", K_CLOSURE, Exact),
    ("insert_new_cyclic_with", K_CLOSURE, Exact),
    ("remove_chain", K_DROP, Weak),
    ("clear", K_DROP, Weak),
    ("clear_and_shrink", K_DROP, Weak),
    ("drain", K_DROP, Weak),
    ("into_iter", K_DROP, Gone),
    ("drop", K_DROP, Gone),
    ("compress_with", K_CLOSURE, Weak),
    ("clone", K_CLONE, Exact),
    ("clone_from", K_CLONE, Into),
    ("clone_from", K_DROP, Into),
    ("clone_from_with", K_CLOSURE, Into),
    ("clone_from_with", K_DROP, Into),
    ("to_arena", K_CLOSURE, Exact),
];

impl<P: TP, A: CA<P>> Sub<P> for e_chain::W<P, A> {
    const OPS: Ops = CHAIN_OPS;
    const PRIMARY: Tags = C03;

    common!(e_chain);

    fn fault(&mut self, rng: &mut Rng, op: &str) {
        let (s, o) = two(&mut self.s, 0, 1);
        let n = s.m.len();
        let any = if n > 0 { Some(*rng.pick(&s.m.order)) } else { None };
        match op {
            "insert_with" => {
                let via = rng.n(4);
                let (x, y) = match any {
                    Some(p) => match via {
                        0 => (Some(p), s.next.get(&p).copied()),
                        1 => (s.prev.get(&p).copied(), Some(p)),
                        2 => (Some(p), None),
                        _ => (None, Some(p)),
                    },
                    None => (None, None),
                };
                s.a.insert_with(x, y, |_| ctor());
            }
            "insert_new_with" => {
                let t = Tok::new(5);
                s.a.insert_new(1, t, &mut vec![]);
            }
            "insert_new_cyclic_with" => {
                let t = Tok::new(5);
                s.a.insert_cyc(1, t, &mut vec![]);
            }
            "remove_chain" => {
                if let Some(p) = any {
                    s.a.remove_chain(p);
                }
            }
            "clear" => s.a.clear(rng.p(1, 2)),
            "clear_and_shrink" => s.a.clear_and_shrink(rng.p(1, 2)),
            "drain" => {
                let k = rng.n(n + 1);
                let mut v = vec![];
                s.a.drain(k, &mut v);
            }
            "into_iter" => {
                let a = std::mem::replace(&mut s.a, A::new());
                let k = rng.n(n + 1);
                a.into(k);
            }
            "drop" => s.a = A::new(),
            "compress_with" => s.a.compress_with(|_, _, _| tick(K_CLOSURE)),
            "clone" => {
                let c = s.a.clone();
                drop(c);
            }
            "clone_from" => s.a.clone_from(&o.a),
            "clone_from_with" => s.a.clone_from_with(&o.a, |_, _, t| {
                let t = t.clone();
                tick(K_CLOSURE);
                t
            }),
            _ => {
                s.a.to_arena(|_, _, _| {
                    tick(K_CLOSURE);
                    0
                });
            }
        }
    }

    fn want(&self, i: usize, p: P) -> Vec<TR> {
        self.s[i].m.get(p).map(|x| vec![*x]).unwrap_or_default()
    }

    fn look(&self, i: usize, p: P) -> Option<Seen> {
        self.s[i].a.get(0, p).map(|t| seen(&[t]))
    }

    fn iter(&self, _lim: usize) -> Vec<(P, Seen)> {
        self.s[0].a.all(0).into_iter().filter_map(|(p, t)| Some((p?, seen(&[t?.1])))).collect()
    }

    fn clear(&mut self, shrink: bool) {
        if shrink {
            self.s[0].a.clear_and_shrink(false);
        } else {
            self.s[0].a.clear(false);
        }
    }

    fn sync(&mut self, i: usize) {
        let s = &mut self.s[i];
        s.b.gen = s.a.gn();
        s.b.cap = s.a.cap();
    }
}

impl<P: TP> Sub<P> for e_surject::W<P> {
    const OPS: Ops = &[
        ("insert_with", K_CLOSURE, Exact),
        ("insert_key_with", K_CLOSURE, Exact),
        ("remove", K_DROP, Weak),
        ("clear", K_DROP, Weak),
        ("clear_and_shrink", K_DROP, Weak),
        ("drop", K_DROP, Gone),
        ("compress_with", K_CLOSURE, Weak),
        ("clone", K_CLONE, Exact),
        ("clone_from", K_CLONE, Into),
        ("clone_from", K_DROP, Into),
        ("clone_from_with", K_CLOSURE, Into),
        ("clone_from_with", K_DROP, Into),
        ("clone_to", K_CLOSURE, Exact),
        ("recast", K_CLOSURE, Weak),
    ];
    const PRIMARY: Tags = C04;

    common!(e_surject);

    fn fault(&mut self, rng: &mut Rng, op: &str) {
        let (s, o) = two(&mut self.s, 0, 1);
        let n = s.m.len();
        let any = if n > 0 { Some(*rng.pick(&s.m.order)) } else { None };
        match op {
            "insert_with" => {
                s.a.insert_with(|_| {
                    let k = Tok::new(1);
                    tick(K_CLOSURE);
                    let v = Tok::new(2);
                    tick(K_CLOSURE);
                    (k, v)
                });
            }
            "insert_key_with" => {
                if let Some(p) = any {
                    s.a.insert_key_with(p, |_| ctor());
                }
            }
            "remove" => {
                if let Some(p) = any {
                    s.a.remove(p);
                }
            }
            "clear" => s.a.clear(),
            "clear_and_shrink" => s.a.clear_and_shrink(),
            "drop" => s.a = SurjectArena::new(),
            "compress_with" => s.a.compress_and_shrink_with(|_, _, _, _| tick(K_CLOSURE)),
            "clone" => {
                let c = s.a.clone();
                drop(c);
            }
            "clone_from" => s.a.clone_from(&o.a),
            "clone_from_with" => {
                let f = |t: &Tok| {
                    let t = t.clone();
                    tick(K_CLOSURE);
                    t
                };
                s.a.clone_from_with(&o.a, |_, t| f(t), |_, t| f(t))
            }
            "clone_to" => {
                let mut a: Arena<P, Tok> = Arena::new();
                let mut c: ChainArena<P, Tok> = ChainArena::new();
                for _ in 0..rng.n(4) {
                    a.insert(Tok::new(3));
                    c.insert_new(Tok::new(4));
                }
                if rng.p(1, 2) {
                    s.a.clone_keys_to_arena(&mut a, |_, _| ctor());
                } else {
                    s.a.clone_keys_to_chain_arena(&mut c, |_, _| ctor());
                }
            }
            _ => {
                let r: Arena<P, P> = Arena::new();
                let _ = s.a.recast(&r);
            }
        }
    }

    fn want(&self, i: usize, p: P) -> Vec<TR> {
        let s = &self.s[i];
        s.m.get(p).map(|x| vec![x.0, s.sets[&x.1].1]).unwrap_or_default()
    }

    fn look(&self, i: usize, p: P) -> Option<Seen> {
        self.s[i].a.get(p).map(|t| seen(&[t.0, t.1]))
    }

    fn iter(&self, lim: usize) -> Vec<(P, Seen)> {
        self.s[0].a.iter().take(lim).map(|(p, k, v)| (p, seen(&[k, v]))).collect()
    }

    fn clear(&mut self, shrink: bool) {
        if shrink {
            self.s[0].a.clear_and_shrink();
        } else {
            self.s[0].a.clear();
        }
    }

    fn sync(&mut self, i: usize) {
        let s = &mut self.s[i];
        s.b.gen = P::gnum(s.a.generation());
        s.b.cap = s.a.capacity_keys();
        s.capv = s.a.capacity_vals();
    }
}

impl<P: TP> Sub<P> for e_ord::W<P> {
    const OPS: Ops = &[
        ("insert", K_CMP, Exact),
        ("insert_linear", K_CMP, Exact),
        ("insert_nonhereditary", K_CMP, Exact),
        ("insert_nonhereditary_linear", K_CMP, Exact),
        ("find", K_CMP, Exact),
        ("find_linear", K_CMP, Exact),
        ("find_with", K_CLOSURE, Exact),
        ("cmp", K_CMP, Exact),
        ("clear", K_DROP, Weak),
        ("clear_and_shrink", K_DROP, Weak),
        ("drain", K_DROP, Weak),
        ("into_iter", K_DROP, Gone),
        ("drop", K_DROP, Gone),
        ("compress_with", K_CLOSURE, Weak),
        ("clone", K_CLONE, Exact),
        ("clone_from", K_CLONE, Into),
        ("clone_from", K_DROP, Into),
        ("clone_from_with", K_CLOSURE, Into),
        ("clone_from_with", K_CLONE, Into),
        ("clone_from_with", K_DROP, Into),
        ("clone_to", K_CLOSURE, Exact),
        ("from_iter", K_CLOSURE, Exact),
        ("from_iter", K_CMP, Exact),
        ("recast", K_CLOSURE, Weak),
    ];
    const PRIMARY: Tags = C05;

    common!(e_ord);

    fn fault(&mut self, rng: &mut Rng, op: &str) {
        let kk = self.key(rng, 0);
        let (s, o) = two(&mut self.s, 0, 1);
        let n = s.m.len();
        let any = if n > 0 { *rng.pick(&s.seq) } else { P::invalid() };
        let num = *rng.pick(&[1, 3, 100, usize::MAX]);
        match op {
            "insert" => {
                s.a.insert(Key::new(kk), Tok::new(1));
            }
            "insert_linear" => {
                s.a.insert_linear(any, num, Key::new(kk), Tok::new(1));
            }
            "insert_nonhereditary" => {
                s.a.insert_nonhereditary(Key::new(kk), Tok::new(1));
            }
            "insert_nonhereditary_linear" => {
                s.a.insert_nonhereditary_linear(any, num, Key::new(kk), Tok::new(1));
            }
            "find" => {
                let k = Key::new(kk);
                let _ = (s.a.find_key(&k), s.a.find_similar_key(&k));
            }
            "find_linear" => {
                let k = Key::new(kk);
                let _ = (s.a.find_key_linear(any, num, &k), s.a.find_similar_key_linear(any, num, &k));
            }
            "find_with" => {
                let mut f = |_: P, k: &Key, _: &Tok| -> Ordering {
                    tick(K_CLOSURE);
                    kk.cmp(&k.k)
                };
                let _ = (s.a.find_with(&mut f), s.a.find_similar_with(&mut f));
            }
            "cmp" => {
                let _ = s.a.cmp(&o.a);
                let _ = s.a.cmp(&s.a);
            }
            "clear" => s.a.clear(),
            "clear_and_shrink" => s.a.clear_and_shrink(),
            "drain" => {
                let k = rng.n(n + 1);
                let v: Vec<_> = s.a.drain().take(k).collect();
                drop(v);
            }
            "into_iter" => {
                let a = std::mem::replace(&mut s.a, OrdArena::new());
                let k = rng.n(n + 1);
                for x in a.into_iter().take(k) {
                    std::hint::black_box(&x);
                }
            }
            "drop" => s.a = OrdArena::new(),
            "compress_with" => s.a.compress_and_shrink_with(|_, _, _, _| tick(K_CLOSURE)),
            "clone" => {
                let c = s.a.clone();
                drop(c);
            }
            "clone_from" => s.a.clone_from(&o.a),
            "clone_from_with" => s.a.clone_from_with(&o.a, |_, t| {
                let t = t.clone();
                tick(K_CLOSURE);
                t
            }),
            "clone_to" => {
                let mut a: Arena<P, Tok> = Arena::new();
                let mut c: ChainArena<P, Tok> = ChainArena::new();
                for _ in 0..rng.n(4) {
                    a.insert(Tok::new(3));
                    c.insert_new(Tok::new(4));
                }
                if rng.p(1, 2) {
                    s.a.clone_to_arena(&mut a, |_, _, _| ctor());
                } else {
                    s.a.clone_to_chain_arena(&mut c, |_, _, _| ctor());
                }
            }
            "from_iter" => {
                let a: e_ord::OA<P> = It(rng.n(12)).map(|t| (Key::new(t.val % 5), t)).collect();
                drop(a);
            }
            _ => {
                let r: Arena<P, P> = Arena::new();
                let _ = s.a.recast(&r);
            }
        }
    }

    fn want(&self, i: usize, p: P) -> Vec<TR> {
        self.s[i].m.get(p).map(|x| vec![x.kr, x.vr]).unwrap_or_default()
    }

    fn look(&self, i: usize, p: P) -> Option<Seen> {
        self.s[i].a.get(p).map(|t| seen(&[&t.0.t, t.1]))
    }

    fn iter(&self, lim: usize) -> Vec<(P, Seen)> {
        self.s[0].a.iter().take(lim).map(|(p, k, v)| (p, seen(&[&k.t, v]))).collect()
    }

    fn clear(&mut self, shrink: bool) {
        if shrink {
            self.s[0].a.clear_and_shrink();
        } else {
            self.s[0].a.clear();
        }
    }

    fn sync(&mut self, i: usize) {
        let s = &mut self.s[i];
        s.b.gen = P::gnum(s.a.generation());
        s.b.cap = s.a.capacity();
    }
}

fn build<P: TP, W: Sub<P>>(cx: &mut Cx, seed: u64, steps: usize) -> R<W> {
    let mut rng = Rng::new(seed);
    let mut w = W::new(cx, &mut rng)?;
    for _ in 0..steps {
        let i = if rng.p(2, 3) { 0 } else { 1 };
        w.step(cx, &mut rng, i, false)?;
    }
    Ok(w)
}

/// after the fault in `op`
fn after<P: TP, W: Sub<P>>(cx: &mut Cx, rng: &mut Rng, w: &mut W, op: &'static str, mode: Mode) -> R {
    cx.poll()?;
    if mode != Exact {
        cx.ev(T, "fault_in_bulk_operation");
    }
    match mode {
        Exact => {
            cx.ev(T, "fault_must_change_nothing");
            for i in 0..2 {
                w.full(cx, rng, i)?;
                w.sync(i);
            }
        }
        Partial => {
            let gone = ACCEPTED.with(|x| std::mem::take(&mut *x.borrow_mut()));
            if !gone.is_empty() {
                cx.ev(T, "fault_after_partial_removal");
            }
            for p in w.live(0) {
                if w.want(0, p).iter().any(|r| gone.contains(&r.id)) {
                    w.rem(p);
                }
            }
            w.sync(0);
            for i in 0..2 {
                w.full(cx, rng, i)?;
            }
        }
        Gone => {
            w.renew(cx, rng)?;
        }
        Weak | Into => {
            if mode == Into {
                w.full(cx, rng, 1)?;
            }
            // stale Ptrs stay stale
            if P::HG && mode == Weak {
                let dead = w.book(0).dead.clone();
                for p in dead.iter().rev().take(60) {
                    let l = catch(|| w.look(0, *p));
                    chk!(cx, T | C01, !matches!(l, Ok(Some(_))), "after a panic in {op} the stale {p:?} resolves to {l:?}");
                }
                cx.ev(T, "stale_ptrs_checked");
            }
            let inv = P::invalid();
            if P::HG {
                chk!(cx, T | C01, !matches!(catch(|| w.look(0, inv)), Ok(Some(_))), "after a panic in {op} the invalid Ptr resolves");
            }
            // what was live is either gone or itself
            for p in w.live(0) {
                if let Ok(Some(l)) = catch(|| w.look(0, p)) {
                    let own = w.want(0, p);
                    let src = w.want(1, p);
                    for (j, (r, ok)) in l.iter().enumerate() {
                        chk!(cx, T | C08 | C09, *ok, "after a panic in {op}, {p:?} leads to value {r:?} which was dropped");
                        let image = mode == Into && src.get(j).map(|x| reg_parent(r.id) == x.id) == Some(true);
                        chk!(cx, T | C01, own.get(j) == Some(r) || image || (mode == Into && j > 0), "after a panic in {op}, {p:?} resolves to {r:?} instead of {own:?}");
                    }
                }
            }
            if mode == Into {
                for p in w.live(1) {
                    if let Ok(Some(l)) = catch(|| w.look(0, p)) {
                        let own = w.want(0, p);
                        let src = w.want(1, p);
                        for (j, (r, ok)) in l.iter().enumerate() {
                            chk!(cx, T | C08 | C09, *ok, "after a panic in {op}, {p:?} leads to value {r:?} which was dropped");
                            let image = src.get(j).map(|x| reg_parent(r.id) == x.id) == Some(true);
                            chk!(cx, T | C01, own.get(j) == Some(r) || image || j > 0, "after a panic in {op}, {p:?} resolves to {r:?} instead of the image of {src:?}");
                        }
                    }
                }
            }
            // whatever can be reached is intact
            let lim = 2 * (w.live(0).len() + w.live(1).len()) + 8;
            let found = catch(|| w.iter(lim)).unwrap_or_default();
            for (p, l) in &found {
                chk!(cx, T | C08 | C09, l.iter().all(|x| x.1), "after a panic in {op}, iteration shows {p:?} with a dropped value {l:?}");
            }
            // what is in there now dies in the clear
            w.kill_all();
            let b = w.book(0);
            if mode == Into {
                b.issued.clear();
                b.dead.clear();
            }
            for (p, _) in &found {
                b.issued.insert(*p);
                b.kill(*p);
            }
            cx.poll()?;
            if rng.p(1, 4) {
                w.renew(cx, rng)?;
                cx.poll()?;
                cx.ev(T, "dropped_after_fault");
            } else {
                let shrink = rng.p(1, 3);
                cx.op(T, 7, || format!("{} after the panic in {op}", if shrink { "clear_and_shrink" } else { "clear" }));
                w.clear(shrink);
                w.sync(0);
                cx.poll()?;
                w.full(cx, rng, 0)?;
                cx.ev(T, "cleared_after_fault");
            }
        }
    }
    // and everything works from here
    let n = if cx.miri { 2 } else { rng.range(4, 14) };
    for j in 0..n {
        let i = if rng.p(4, 5) { 0 } else { 1 };
        w.step(cx, rng, i, j % 2 == 1 || j + 1 == n)?;
    }
    cx.ev(T, "used_after_fault");
    Ok(())
}

fn run<P: TP, W: Sub<P>>(cx: &mut Cx, rng: &mut Rng) -> R {
    cx.primary = C20;
    let steps = rng.range(1, if cx.miri { 3 } else { 40 });
    let (seed, opseed) = (rng.u(), rng.u());
    let (op, kind, mode) = *rng.pick(W::OPS);
    let base_taint = cx.taint;
    let mut k = 0u64;
    let mut step = 1;
    loop {
        cx.taint = base_taint;
        // the state is built without blaming this property
        cx.primary = W::PRIMARY;
        let mut w: W = build::<P, W>(cx, seed, steps)?;
        cx.primary = W::PRIMARY | C20;
        let n = w.live(0).len().max(w.live(1).len()) as u128;
        let near = (0..2).any(|i| P::HG && w.book(i).gen + n + 20 > P::GEN_MAX) || n + 4 > P::INX_MAX;
        if near {
            return Ok(())
        }
        let (len, olen) = (w.live(0).len(), w.live(1).len());
        cx.op(T, h(&(op, kind, k, len, olen, seed)), || format!("panic in {} number {k} during {op}, arena with {len} and other with {olen} elements", KIND_NAMES[kind]));
        let mut orng = Rng::new(opseed);
        arm(kind, k);
        let r = catch(|| w.fault(&mut orng, op));
        let pending = disarm();
        if pending {
            if let Err(m) = r {
                cx.fail(T | W::PRIMARY, true, format!("{op} panicked: {m}"))?;
            }
            cx.ev(T, "fault_points_exhausted");
            break
        }
        chk!(cx, T, r.is_err(), "a panic in {} during {op} vanished", KIND_NAMES[kind]);
        cx.ev(T | C09, "fault_injected");
        cx.ev(T, ["fault_in_closure", "fault_in_comparison", "fault_in_clone", "fault_in_destructor"][kind]);
        cx.taint |= T;
        after::<P, W>(cx, rng, &mut w, op, mode)?;
        cx.op(T | C08, 9, || "drop all".to_string());
        drop(w);
        cx.poll()?;
        // nothing is lost for good
        let left = reg_alive_count();
        if kind != K_DROP {
            cx.taint = base_taint;
            chk!(cx, C08, left == 0, "{left} values leaked after a panic in {} during {op}", KIND_NAMES[kind]);
        }
        if left > 0 {
            cx.ev(T, "leak_after_fault_tolerated");
            // start over with an empty registry
            reset();
        }
        k += step;
        if k > 10 {
            step = 1 + k / 4;
        }
        if k > if cx.miri { 3 } else { 300 } {
            break
        }
    }
    Ok(())
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    match rng.n(5) {
        0 => run::<P, e_arena::W<P>>(cx, rng),
        1 => run::<P, e_chain::W<P, ChainArena<P, Tok>>>(cx, rng),
        2 => run::<P, e_chain::W<P, triple_arena::utils::ChainNoGenArena<P, Tok>>>(cx, rng),
        3 => run::<P, e_surject::W<P>>(cx, rng),
        _ => run::<P, e_ord::W<P>>(cx, rng),
    }
}
