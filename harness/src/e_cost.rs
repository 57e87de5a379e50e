//! Engine for the documented cost of operations: the CPU time of an operation on a small and on a
//! big arena is compared. Only a difference that neither caches nor a busy machine explain, seen
//! several times in a row, counts.
use std::hint::black_box;

use triple_arena::{utils::ChainNoGenArena, Advancer, Arena, ChainArena, OrdArena, Ptr, SurjectArena};

use crate::{cx::*, ptrs::*, rng::*};

/// CPU time of this thread in nanoseconds
fn now() -> u64 {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// Median over some batches of the time per operation
fn time(rng: &mut Rng, batches: usize, per: usize, f: &mut dyn FnMut(&mut Rng)) -> u64 {
    let mut v: Vec<u64> = (0..batches)
        .map(|_| {
            let t = now();
            for _ in 0..per {
                f(rng);
            }
            (now() - t) / per as u64
        })
        .collect();
    v.sort();
    v[v.len() / 2]
}

/// The operation must not take more than 30 µs and not more than 12 times as long on the big arena
fn constant(cx: &mut Cx, rng: &mut Rng, what: &str, n: usize, small: &mut dyn FnMut(&mut Rng), big: &mut dyn FnMut(&mut Rng)) -> R {
    cx.op(C24, h(&(what, n)), || format!("{what} with {n} elements"));
    let mut seen = (0, 0);
    for _ in 0..4 {
        let s = time(rng, 5, 16, small);
        let b = time(rng, 7, 16, big);
        if b <= 30_000 || b <= 12 * s.max(500) {
            seen = (0, 0);
            break
        }
        seen = (s, b);
    }
    chk!(cx, C24, seen.1 == 0, "{what} takes {} ns with few and {} ns with {n} elements", seen.0, seen.1);
    cx.ev(C24, "operation_cost_measured");
    cx.state(h(&(what, n)));
    Ok(())
}

/// Time per element of something that visits all elements. `f` gets the number of elements and
/// returns the time it took.
fn linear(cx: &mut Cx, rng: &mut Rng, what: &str, f: &mut dyn FnMut(&mut Rng, usize) -> u64) -> R {
    let (s, b) = (1 << 10, 1 << 15);
    cx.op(C24, h(&what), || format!("{what} with {s} and {b} elements"));
    let mut seen = (0, 0);
    for _ in 0..3 {
        let x = (0..3).map(|_| f(rng, s)).min().unwrap() / s as u64;
        let y = f(rng, b) / b as u64;
        if y <= 3000 || y <= 10 * x.max(100) {
            seen = (0, 0);
            break
        }
        seen = (x, y);
    }
    chk!(cx, C24, seen.1 == 0, "{what} takes {} ns per element with {s} and {} ns with {b} elements", seen.0, seen.1);
    cx.ev(C24, "bulk_cost_measured");
    Ok(())
}

macro_rules! both {
    ($cx:ident, $rng:ident, $name:expr, $n:expr, $s:ident, $b:ident, |$x:ident, $r:ident| $e:expr) => {{
        constant($cx, $rng, $name, $n, &mut |$r| { let $x = &mut $s; black_box($e); }, &mut |$r| { let $x = &mut $b; black_box($e); })?;
    }};
}

fn big(rng: &mut Rng) -> usize {
    (1 << 17) + rng.n(1 << 17)
}

/// how an arena is filled before the operations are measured
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fill {
    /// full
    Dense,
    /// with room
    Room,
    /// nearly all removed again
    Sparse,
    /// every second one removed again
    Holes,
}

fn fill(rng: &mut Rng) -> Fill {
    *rng.pick(&[Fill::Dense, Fill::Room, Fill::Sparse, Fill::Holes])
}

/// which of the elements to remove again
fn unfill<P: TP>(rng: &mut Rng, fl: Fill, v: &mut Vec<P>, mut f: impl FnMut(P)) {
    let order = rng.n(3);
    match fl {
        Fill::Dense | Fill::Room => (),
        Fill::Sparse => {
            match order {
                0 => rng.shuffle(v),
                1 => v.reverse(),
                _ => (),
            }
            for p in v.split_off(60) {
                f(p);
            }
        }
        Fill::Holes => {
            let mut keep = vec![];
            for (i, p) in v.iter().enumerate() {
                if i % 2 == 0 {
                    keep.push(*p);
                } else {
                    f(*p);
                }
            }
            *v = keep;
        }
    }
}

struct X<A, P> {
    a: A,
    v: Vec<P>,
    /// something that is no longer valid
    old: P,
}

impl<A, P: TP> X<A, P> {
    fn p(&self, r: &mut Rng) -> P {
        *r.pick(&self.v)
    }
}

fn arena<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = big(rng);
    let fl = fill(rng);
    cx.op(C24, h(&(fl as u8, n)), || format!("arena: {fl:?} {n}"));
    let mut make = |n: usize| {
        let mut a: Arena<P, u64> = Arena::new();
        let mut v: Vec<P> = (0..n).map(|i| a.insert(i as u64)).collect();
        unfill(rng, fl, &mut v, |p| {
            a.remove(p);
        });
        if fl != Fill::Dense {
            a.reserve(2000);
        }
        // room for one
        let old = a.insert(0);
        a.remove(old);
        X { a, v, old }
    };
    let (mut s, mut b) = (make(1000), make(n));
    both!(cx, rng, "Arena: insert and remove", n, s, b, |x, _r| { let p = x.a.insert(1); x.a.remove(p) });
    both!(cx, rng, "Arena: insert_with and remove", n, s, b, |x, _r| { let p = x.a.insert_with(|_| 1); x.a.remove(p) });
    both!(cx, rng, "Arena: try_insert and remove", n, s, b, |x, _r| { let p = x.a.try_insert(1); x.a.remove(p.unwrap()) });
    both!(cx, rng, "Arena: remove and insert", n, s, b, |x, r| { let i = r.n(x.v.len()); x.a.remove(x.v[i]); x.v[i] = x.a.insert(3); });
    both!(cx, rng, "Arena: get", n, s, b, |x, r| x.a.get(x.p(r)).copied());
    both!(cx, rng, "Arena: get_mut", n, s, b, |x, r| { let p = x.p(r); *x.a.get_mut(p).unwrap() += 1; });
    both!(cx, rng, "Arena: contains", n, s, b, |x, r| (x.a.contains(x.p(r)), x.a.contains(x.old)));
    both!(cx, rng, "Arena: get2_mut", n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); x.a.get2_mut(p, q).map(|y| *y.0 + *y.1) });
    both!(cx, rng, "Arena: swap", n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); x.a.swap(p, q) });
    both!(cx, rng, "Arena: invalidate", n, s, b, |x, r| { let i = r.n(x.v.len()); x.v[i] = x.a.invalidate(x.v[i]).unwrap(); });
    both!(cx, rng, "Arena: replace_and_keep_gen", n, s, b, |x, r| { let p = x.p(r); x.a.replace_and_keep_gen(p, 7) });
    both!(cx, rng, "Arena: replace_and_update_gen", n, s, b, |x, r| { let i = r.n(x.v.len()); x.v[i] = x.a.replace_and_update_gen(x.v[i], 1).unwrap().1; });
    both!(cx, rng, "Arena: len, capacity, generation", n, s, b, |x, _r| (x.a.len(), x.a.is_empty(), x.a.capacity(), x.a.generation()));
    if fl == Fill::Dense || fl == Fill::Room {
        both!(cx, rng, "Arena: first of the iterator", n, s, b, |x, _r| x.a.iter().next().is_some());
    }
    for k in 0..3 {
        let mut run = |rng: &mut Rng, n: usize| {
            let t = now();
            let mut a: Arena<P, u64> = Arena::new();
            for i in 0..n {
                a.insert(i as u64);
            }
            if rng.p(1, 2) {
                a.remove_by(|_, v| *v % 3 == 0);
            }
            match k {
                0 => {
                    black_box(a.iter().count());
                    a.compress_and_shrink();
                    black_box(a.clone() == a);
                }
                1 => {
                    let mut adv = a.advancer();
                    while let Some(p) = adv.advance(&a) {
                        black_box(p);
                    }
                    black_box(a.drain().count());
                }
                _ => {
                    let mut b: Arena<P, u64> = Arena::new();
                    b.clone_from_with(&a, |_, v| *v);
                    a.clear();
                    for i in 0..n {
                        a.insert(i as u64);
                    }
                    a.remove_by(|_, v| *v % 2 == 0);
                    a.clear_and_shrink();
                }
            }
            now() - t
        };
        linear(cx, rng, ["Arena: iter, compress and clone", "Arena: advancer and drain", "Arena: clone_from_with, clear, refill, remove_by"][k], &mut run)?;
    }
    Ok(())
}

macro_rules! chain {
    ($f:ident, $t:ident, $name:literal, |$p:ident| $inx:expr) => {
        fn $f<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
            let n = big(rng);
            let fl = fill(rng);
            // one chain, two chains, or many of different length
            let shape = rng.n(3);
            let cyclic = rng.p(1, 3);
            cx.op(C24, h(&(fl as u8, n, shape, cyclic)), || format!("{}: {fl:?} {n} shape {shape} cyclic {cyclic}", $name));
            let inx = |$p: P| $inx;
            let mut make = |n: usize| {
                let mut a: $t<P, u64> = $t::new();
                let mut v: Vec<P> = vec![];
                let mut last: Option<P> = None;
                for i in 0..n {
                    let cut = match shape {
                        0 => false,
                        1 => i == n / 2,
                        _ => rng.p(1, 50),
                    };
                    let p = match last {
                        Some(p) if !cut => a.insert_end(p, i as u64).unwrap(),
                        _ => a.insert_new(i as u64),
                    };
                    last = Some(p);
                    v.push(p);
                }
                if cyclic && shape == 0 {
                    a.connect(*v.last().unwrap(), v[0]);
                }
                unfill(rng, fl, &mut v, |p| {
                    a.remove(p);
                });
                if fl != Fill::Dense {
                    a.reserve(2000);
                }
                let old = a.insert_new(0);
                a.remove(old);
                X { a, v, old }
            };
            let (mut s, mut b) = (make(1000), make(n));
            both!(cx, rng, concat!($name, ": insert_new and remove"), n, s, b, |x, _r| { let p = x.a.insert_new(1); x.a.remove(p).is_some() });
            both!(cx, rng, concat!($name, ": insert_new_cyclic and remove_chain"), n, s, b, |x, _r| { let p = x.a.insert_new_cyclic(1); x.a.remove_chain(p) });
            both!(cx, rng, concat!($name, ": insertion after a link and remove"), n, s, b, |x, r| { let q = x.p(r); let p = x.a.insert((Some(inx(q)), None), 1); x.a.remove(p.unwrap()).is_some() });
            both!(cx, rng, concat!($name, ": insertion before a link and remove"), n, s, b, |x, r| { let q = x.p(r); let p = x.a.insert((None, Some(inx(q))), 1); x.a.remove(p.unwrap()).is_some() });
            both!(cx, rng, concat!($name, ": insert_start and insert_end"), n, s, b, |x, r| {
                let q = x.p(r);
                if let Ok(p) = x.a.insert_start(q, 1) {
                    x.a.remove(p);
                }
                if let Ok(p) = x.a.insert_end(q, 1) {
                    x.a.remove(p);
                }
            });
            both!(cx, rng, concat!($name, ": get"), n, s, b, |x, r| (x.a.get(x.p(r)).copied(), x.a.get_link(x.p(r)).is_some(), x.a.contains(x.old)));
            both!(cx, rng, concat!($name, ": are_neighbors"), n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); x.a.are_neighbors(p, q) });
            both!(cx, rng, concat!($name, ": get2_mut"), n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); x.a.get2_mut(p, q).map(|y| *y.0 + *y.1) });
            both!(cx, rng, concat!($name, ": swap"), n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); x.a.swap(p, q) });
            both!(cx, rng, concat!($name, ": invalidate"), n, s, b, |x, r| { let i = r.n(x.v.len()); x.v[i] = x.a.invalidate(x.v[i]).unwrap(); });
            both!(cx, rng, concat!($name, ": replace_and_update_gen"), n, s, b, |x, r| { let i = r.n(x.v.len()); x.v[i] = x.a.replace_and_update_gen(x.v[i], 1).unwrap().1; });
            both!(cx, rng, concat!($name, ": break_next and connect"), n, s, b, |x, r| {
                let i = r.n(x.v.len());
                if i + 1 < x.v.len() && x.a.are_neighbors(x.v[i], x.v[i + 1]) {
                    x.a.break_next(x.v[i]);
                    x.a.connect(x.v[i], x.v[i + 1]);
                }
            });
            both!(cx, rng, concat!($name, ": break_prev and connect"), n, s, b, |x, r| {
                let i = r.n(x.v.len());
                if i + 1 < x.v.len() && x.a.are_neighbors(x.v[i], x.v[i + 1]) {
                    x.a.break_prev(x.v[i + 1]);
                    x.a.connect(x.v[i], x.v[i + 1]);
                }
            });
            both!(cx, rng, concat!($name, ": exchange_next"), n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); x.a.exchange_next(p, q) });
            both!(cx, rng, concat!($name, ": first of an advancer"), n, s, b, |x, r| { let p = x.p(r); x.a.advancer_chain(inx(p)).advance(&x.a) });
            both!(cx, rng, concat!($name, ": remove and insert_new"), n, s, b, |x, r| { let i = r.n(x.v.len()); x.a.remove(x.v[i]); x.v[i] = x.a.insert_new(3); });
            for k in 0..2 {
                let mut run = |rng: &mut Rng, n: usize| {
                    let t = now();
                    let mut a: $t<P, u64> = $t::new();
                    let mut p = a.insert_new(0);
                    let first = p;
                    for i in 1..n {
                        if rng.p(1, 1000) {
                            p = a.insert_new(0);
                        }
                        p = a.insert_end(p, i as u64).unwrap();
                    }
                    match k {
                        0 => {
                            let mut adv = a.advancer_chain(inx(first));
                            while let Some(p) = adv.advance(&a) {
                                black_box(p);
                            }
                            black_box(a.iter().count());
                            a.remove_chain(p);
                            black_box(a.drain().count());
                        }
                        _ => {
                            a.compress_and_shrink();
                            let b = a.clone();
                            black_box(a == b);
                            a.clear();
                        }
                    }
                    now() - t
                };
                linear(cx, rng, [concat!($name, ": advancer_chain, iter, remove_chain, drain"), concat!($name, ": compress, clone, clear")][k], &mut run)?;
            }
            Ok(())
        }
    };
}
chain!(chain_gen, ChainArena, "ChainArena", |p| p);
chain!(chain_nogen, ChainNoGenArena, "ChainNoGenArena", |p| p.inx());

fn surject<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = big(rng);
    // one set, single keys, or both
    let shape = rng.n(3);
    cx.op(C24, h(&(n, shape)), || format!("surject: {n} shape {shape}"));
    let make = |n: usize| {
        let mut a: SurjectArena<P, u64, u64> = SurjectArena::new();
        let mut v: Vec<P> = vec![];
        for i in 0..n {
            let joined = match shape {
                0 => i > 0,
                1 => false,
                _ => i > 0 && i % 4 != 0,
            };
            v.push(if joined { a.insert_key(v[0], i as u64).unwrap() } else { a.insert(i as u64, 5) });
        }
        a.reserve_keys(100);
        a.reserve_vals(100);
        let old = a.insert(0, 0);
        a.remove(old);
        X { a, v, old }
    };
    let (mut s, mut b) = (make(1000), make(n));
    both!(cx, rng, "SurjectArena: insert and remove", n, s, b, |x, _r| { let p = x.a.insert(1, 1); x.a.remove(p) });
    both!(cx, rng, "SurjectArena: insert_with and remove_key", n, s, b, |x, _r| { let p = x.a.insert_with(|_| (1, 1)); x.a.remove_key(p) });
    both!(cx, rng, "SurjectArena: insert_key and remove_key", n, s, b, |x, r| { let q = x.p(r); let p = x.a.insert_key(q, 1).unwrap(); x.a.remove_key(p) });
    both!(cx, rng, "SurjectArena: insert_key_with and remove_key", n, s, b, |x, r| { let q = x.p(r); let p = x.a.insert_key_with(q, |_| 1).unwrap(); x.a.remove_key(p) });
    both!(cx, rng, "SurjectArena: union of a set with a new key", n, s, b, |x, r| { let q = x.p(r); let p = x.a.insert(1, 1); x.a.union(q, p); x.a.remove_key(p) });
    both!(cx, rng, "SurjectArena: union of a new key with a set", n, s, b, |x, r| { let q = x.p(r); let p = x.a.insert(1, 1); x.a.union(p, q); x.a.remove_key(p) });
    both!(cx, rng, "SurjectArena: union within a set", n, s, b, |x, _r| { let (p, q) = (x.v[0], x.v[1]); if x.a.in_same_set(p, q) == Some(true) { x.a.union(p, q); } });
    both!(cx, rng, "SurjectArena: get", n, s, b, |x, r| { let p = x.p(r); (x.a.get(p).is_some(), x.a.get_key(p).copied(), x.a.get_val(p).copied(), x.a.contains(x.old)) });
    both!(cx, rng, "SurjectArena: len_key_set, in_same_set", n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); (x.a.len_key_set(p), x.a.in_same_set(p, q)) });
    both!(cx, rng, "SurjectArena: get2_mut", n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); (x.a.get2_mut(p, q).is_some(), x.a.get2_key_mut(p, q).is_some(), x.a.get2_val_mut(p, q).is_some()) });
    both!(cx, rng, "SurjectArena: swap_keys and swap_vals", n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); (x.a.swap_keys(p, q), x.a.swap_vals(p, q)) });
    both!(cx, rng, "SurjectArena: invalidate", n, s, b, |x, r| { let i = 1 + r.n(x.v.len() - 1); x.v[i] = x.a.invalidate(x.v[i]).unwrap(); });
    both!(cx, rng, "SurjectArena: first of advancer_surject", n, s, b, |x, r| { let p = x.p(r); x.a.advancer_surject(p).advance(&x.a) });
    both!(cx, rng, "SurjectArena: remove_key and insert", n, s, b, |x, r| { let i = 1 + r.n(x.v.len() - 1); x.a.remove_key(x.v[i]); x.v[i] = x.a.insert(3, 3); });
    for k in 0..4 {
        let mut run = |rng: &mut Rng, n: usize| {
            let t = now();
            let mut a: SurjectArena<P, u64, u64> = SurjectArena::new();
            let v: Vec<P> = (0..n).map(|i| a.insert(i as u64, 0)).collect();
            if k == 3 {
                for i in 1..n {
                    if rng.p(1, 2) {
                        a.union(v[0], v[i]);
                    }
                }
            }
            match k {
                0 => {
                    for i in 1..n {
                        if rng.p(1, 2) {
                            a.union(v[i - 1], v[i]);
                        } else {
                            a.union(v[i], v[i - 1]);
                        }
                    }
                    let mut adv = a.advancer_surject(v[n / 2]);
                    while let Some(p) = adv.advance(&a) {
                        black_box(p);
                    }
                    a.remove(v[0]);
                }
                1 => {
                    let mut d = 1;
                    while d < n {
                        for i in (0..n - d).step_by(2 * d) {
                            a.union(v[i], v[i + d]);
                        }
                        d *= 2;
                    }
                    for p in &v {
                        a.remove_key(*p);
                    }
                }
                2 => {
                    for _ in 0..n {
                        let (p, q) = (*rng.pick(&v), *rng.pick(&v));
                        a.union(p, q);
                    }
                    black_box(a.iter().count());
                }
                _ => {
                    a.compress_and_shrink();
                    let b = a.clone();
                    black_box(a == b);
                    a.clear();
                }
            }
            now() - t
        };
        linear(cx, rng, ["SurjectArena: unions with one set", "SurjectArena: unions of equal sets", "SurjectArena: random unions", "SurjectArena: compress, clone, clear"][k], &mut run)?;
    }
    Ok(())
}

fn ord<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = big(rng);
    let shape = rng.n(3);
    let fl = fill(rng);
    cx.op(C24, h(&(fl as u8, n, shape)), || format!("ord: {fl:?} {n} shape {shape}"));
    let mut make = |n: usize| {
        let mut a: OrdArena<P, u64, u64> = OrdArena::new();
        let mut v: Vec<P> = vec![];
        for i in 0..n as u64 {
            let k = match shape {
                0 => i << 20,
                1 => (n as u64 - i) << 20,
                _ => mix(i) >> 24,
            };
            let (p, old) = a.insert(k, i);
            if old.is_none() {
                v.push(p);
            }
        }
        unfill(rng, fl, &mut v, |p| {
            a.remove(p);
        });
        if fl != Fill::Dense {
            a.reserve(100);
        }
        let (old, was) = a.insert(u64::MAX, 0);
        a.remove(old);
        assert!(was.is_none());
        X { a, v, old }
    };
    let (mut s, mut b) = (make(1000), make(n));
    both!(cx, rng, "OrdArena: insert and remove", n, s, b, |x, r| { let k = r.u() | 1 << 63; let p = x.a.insert(k, 1).0; x.a.remove(p) });
    both!(cx, rng, "OrdArena: insert between and remove", n, s, b, |x, r| { let k = *x.a.get_key(x.p(r)).unwrap() + 1; let (p, o) = x.a.insert(k, 1); if o.is_none() { x.a.remove(p); } });
    both!(cx, rng, "OrdArena: insert known key", n, s, b, |x, r| { let k = *x.a.get_key(x.p(r)).unwrap(); x.a.insert(k, 1) });
    both!(cx, rng, "OrdArena: insert_nonhereditary and remove", n, s, b, |x, r| { let k = *x.a.get_key(x.p(r)).unwrap(); let p = x.a.insert_nonhereditary(k, 1); x.a.remove(p) });
    both!(cx, rng, "OrdArena: find_key", n, s, b, |x, r| { let k = *x.a.get_key(x.p(r)).unwrap(); (x.a.find_key(&k), x.a.find_key(&(k + 1))) });
    both!(cx, rng, "OrdArena: find_similar_key", n, s, b, |x, r| { let k = *x.a.get_key(x.p(r)).unwrap(); x.a.find_similar_key(&(k + 1)) });
    both!(cx, rng, "OrdArena: find_similar_with", n, s, b, |x, r| { let k = r.u() >> 24; x.a.find_similar_with(|_, y, _| k.cmp(y)) });
    both!(cx, rng, "OrdArena: get", n, s, b, |x, r| { let p = x.p(r); (x.a.get(p).is_some(), x.a.get_key(p).copied(), x.a.get_val(p).copied(), x.a.contains(x.old)) });
    both!(cx, rng, "OrdArena: first and last", n, s, b, |x, _r| (x.a.first(), x.a.last()));
    both!(cx, rng, "OrdArena: get_link", n, s, b, |x, r| { let p = x.p(r); let l = x.a.get_link(p).unwrap(); (l.prev(), l.next()) });
    both!(cx, rng, "OrdArena: get2_val_mut", n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); x.a.get2_val_mut(p, q).is_some() });
    both!(cx, rng, "OrdArena: swap_vals", n, s, b, |x, r| { let (p, q) = (x.p(r), x.p(r)); x.a.swap_vals(p, q) });
    both!(cx, rng, "OrdArena: invalidate", n, s, b, |x, r| { let i = r.n(x.v.len()); x.v[i] = x.a.invalidate(x.v[i]).unwrap(); });
    both!(cx, rng, "OrdArena: replace_val_and_update_gen", n, s, b, |x, r| { let i = r.n(x.v.len()); x.v[i] = x.a.replace_val_and_update_gen(x.v[i], 1).unwrap().1; });
    both!(cx, rng, "OrdArena: remove and insert", n, s, b, |x, r| { let i = r.n(x.v.len()); let (k, w) = x.a.remove(x.v[i]).unwrap(); x.v[i] = x.a.insert(k, w).0; });
    both!(cx, rng, "OrdArena: first of the iterator", n, s, b, |x, _r| x.a.iter().next().is_some());
    both!(cx, rng, "OrdArena: remove the first, insert a last", n, s, b, |x, r| { let p = x.a.first().unwrap(); x.a.remove(p); x.a.insert(1 << 62 | r.u() >> 2, 0) });
    both!(cx, rng, "OrdArena: remove the last, insert a first", n, s, b, |x, r| { let p = x.a.last().unwrap(); x.a.remove(p); x.a.insert(r.u() >> 54, 0) });
    for k in 0..3 {
        let mut run = |rng: &mut Rng, n: usize| {
            let t = now();
            let mut a: OrdArena<P, u64, u64> = OrdArena::new();
            let way = rng.n(3);
            let ins = |a: &mut OrdArena<P, u64, u64>| {
                for i in 0..n as u64 {
                    let k = match way {
                        0 => i,
                        1 => n as u64 - i,
                        _ => mix(i),
                    };
                    a.insert(k, i);
                }
            };
            if k != 0 {
                ins(&mut a);
            }
            match k {
                0 => {
                    ins(&mut a);
                    while let Some(p) = if way == 0 { a.last() } else { a.first() } {
                        a.remove(p);
                    }
                }
                1 => {
                    black_box(a.iter().count());
                    let mut adv = a.advancer();
                    while let Some(p) = adv.advance(&a) {
                        black_box(p);
                    }
                    black_box(a.drain().count());
                }
                _ => {
                    a.compress_and_shrink();
                    let b = a.clone();
                    black_box((a == b, a.cmp(&b)));
                    a.clear();
                }
            }
            now() - t
        };
        linear(cx, rng, ["OrdArena: fill and empty", "OrdArena: iter, advancer, drain", "OrdArena: compress, clone, compare, clear"][k], &mut run)?;
    }
    Ok(())
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    match rng.n(5) {
        0 => arena::<P>(cx, rng),
        1 => chain_gen::<P>(cx, rng),
        2 => chain_nogen::<P>(cx, rng),
        3 => surject::<P>(cx, rng),
        _ => ord::<P>(cx, rng),
    }
}
