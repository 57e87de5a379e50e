//! Engine for the iterators as such: whatever adaptor drives an iterator, it goes over the same
//! elements as calling `next` does, its size hints are right and what it does not give out is
//! dropped
use std::rc::Rc;

use triple_arena::{utils::ChainNoGenArena, Arena, ChainArena, OrdArena, SurjectArena};

use crate::{cx::*, ptrs::*, rng::*};

type V = Rc<u64>;

/// The expression makes a new iterator each time, the closure reduces its items to something
/// comparable
macro_rules! proto {
    ($cx:expr, $rng:expr, $name:expr, $want:expr, $mk:expr, $id:expr) => {{
        let n: usize = $want;
        let id = $id;
        let mut base = vec![];
        let mut hints = vec![];
        {
            let mut it = $mk;
            loop {
                hints.push(it.size_hint());
                match it.next() {
                    Some(x) if base.len() <= n => base.push(id(x)),
                    Some(_) => base.push(0),
                    None => break,
                }
                if base.len() > n + 1 {
                    break
                }
            }
        }
        chk!($cx, C11, base.len() == n, "{}: next gives {} of {n} elements", $name, base.len());
        for (i, (lo, hi)) in hints.iter().enumerate() {
            let rest = n - i;
            chk!($cx, C11, *lo <= rest && hi.map_or(true, |hi| rest <= hi), "{}: size hint ({lo}, {hi:?}) with {rest} elements left of {n}", $name);
        }
        let k = $rng.n(n + 2);
        let s = 1 + $rng.n(4);
        let c = ($mk).count();
        chk!($cx, C11, c == n, "{}: count gives {c} of {n}", $name);
        let l = ($mk).last().map(id);
        chk!($cx, C11, l == base.last().copied(), "{}: last gives another element than going through all {n}", $name);
        {
            let mut it = $mk;
            let x = it.nth(k).map(id);
            chk!($cx, C11, x == base.get(k).copied(), "{}: nth({k}) of {n} gives {x:?} instead of {:?}", $name, base.get(k));
            if k < n {
                let (lo, hi) = it.size_hint();
                let rest = n - k - 1;
                chk!($cx, C11, lo <= rest && hi.map_or(true, |hi| rest <= hi), "{}: size hint ({lo}, {hi:?}) after nth({k}) of {n}", $name);
                let y = it.next().map(id);
                chk!($cx, C11, y == base.get(k + 1).copied(), "{}: the element after nth({k}) of {n} is {y:?} instead of {:?}", $name, base.get(k + 1));
            }
        }
        let mut v = vec![];
        ($mk).for_each(|x| v.push(id(x)));
        chk!($cx, C11, v == base, "{}: for_each goes over {} of {n} elements or in another order", $name, v.len());
        let v = ($mk).fold(vec![], |mut v, x| {
            v.push(id(x));
            v
        });
        chk!($cx, C11, v == base, "{}: fold goes over {} of {n} elements or in another order", $name, v.len());
        let v: Vec<u64> = ($mk).map(id).collect();
        chk!($cx, C11, v == base, "{}: collect gives {} of {n} elements or another order", $name, v.len());
        let v: Vec<u64> = ($mk).skip(k).step_by(s).map(id).collect();
        let w: Vec<u64> = base.iter().copied().skip(k).step_by(s).collect();
        chk!($cx, C11, v == w, "{}: skip({k}).step_by({s}) of {n} gives {v:?} instead of {w:?}", $name);
        {
            let mut it = $mk;
            let mut v: Vec<u64> = it.by_ref().take(k).map(id).collect();
            v.extend(it.map(id));
            chk!($cx, C11, v == base, "{}: taking {k} first and then the rest gives {} of {n}", $name, v.len());
        }
        let mut c = 0;
        let all = ($mk).all(|_| {
            c += 1;
            true
        });
        chk!($cx, C11, all && c == n, "{}: all goes over {c} of {n}", $name);
        if let Some(x) = base.get(k) {
            let want = base.iter().position(|y| y == x);
            let i = ($mk).position(|y| id(y) == *x);
            chk!($cx, C11, i == want, "{}: position gives {i:?} instead of {want:?}", $name);
            let mut it = $mk;
            let found = it.find_map(|y| if id(y) == *x { Some(()) } else { None }).is_some();
            let rest = it.count();
            chk!($cx, C11, found && rest == n - want.unwrap() - 1, "{}: {rest} elements are left after finding number {want:?} of {n}", $name);
        }
        let p = ($mk).zip($rng.n(n + 2)..).count();
        chk!($cx, C11, p == n, "{}: zip goes over {p} of {n}", $name);
        let m = ($mk).map(id).max();
        chk!($cx, C11, m == base.iter().copied().max(), "{}: max gives {m:?}", $name);
        $cx.ev(C11, if n == 0 { "empty_iterator_driven" } else { "iterator_driven_by_adaptors" });
        $cx.state(h(&($name, n, k, s)));
    }};
}

/// No element is held by anything but the arena any more
fn held(cx: &mut Cx, what: &str, all: &[V], there: impl Fn(u64) -> usize) -> R {
    for v in all {
        let n = Rc::strong_count(v) - 1;
        chk!(cx, C11 | C08, n == there(**v), "{what}: value {v} is held {n} times after iterating, expected {}", there(**v));
    }
    Ok(())
}

fn step(rng: &mut Rng, len: usize) -> (bool, bool) {
    (len > 0 && rng.p(1, 3), rng.p(1, 2))
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = match rng.n(4) {
        0 => rng.n(4),
        1 => rng.range(1, 80),
        _ => rng.range(1, 25),
    };
    let kind = rng.n(5);
    cx.op(C11, h(&(kind, n)), || format!("drive the iterators of an arena of kind {kind} after {n} operations"));
    let all: Vec<V> = (0..n as u64).map(Rc::new).collect();
    let mut ps: Vec<(P, u64)> = vec![];
    macro_rules! fp {
        ($x:expr) => {
            cx.fp = mix2(cx.fp, h(&$x))
        };
    }
    match kind {
        0 => {
            let mut a: Arena<P, V> = Arena::new();
            for x in &all {
                let (rem, _) = step(rng, ps.len());
                fp!((rem, x));
                if rem {
                    let _ = a.remove(ps.swap_remove(rng.n(ps.len())).0);
                } else {
                    ps.push((a.insert(x.clone()), **x));
                }
            }
            let len = ps.len();
            proto!(cx, rng, "Arena::ptrs", len, a.ptrs(), |p: P| h(&p));
            proto!(cx, rng, "Arena::vals", len, a.vals(), |v: &V| **v);
            proto!(cx, rng, "Arena::vals_mut", len, a.vals_mut(), |v: &mut V| **v);
            proto!(cx, rng, "Arena::iter", len, a.iter(), |x: (P, &V)| h(&x));
            proto!(cx, rng, "Arena::iter_mut", len, a.iter_mut(), |x: (P, &mut V)| h(&x));
            proto!(cx, rng, "&Arena", len, (&a).into_iter(), |x: (P, &V)| h(&x));
            proto!(cx, rng, "&mut Arena", len, (&mut a).into_iter(), |x: (P, &mut V)| h(&x));
            proto!(cx, rng, "Arena by value", len, a.clone().into_iter(), |x: (P, V)| h(&x));
            proto!(cx, rng, "Arena::capacity_drain", len, a.clone().capacity_drain(), |x: (P, V)| h(&x));
            let mut b = a.clone();
            proto!(cx, rng, "Arena::drain", len, { b.clone_from(&a); b.drain() }, |x: (P, V)| h(&x));
            chk!(cx, C11, b.is_empty() && b.ptrs().next().is_none(), "{} elements are left by a drain", b.len());
            held(cx, "Arena", &all, |v| ps.iter().filter(|x| x.1 == v).count())?;
        }
        1 => {
            let mut a: ChainArena<P, V> = ChainArena::new();
            for x in &all {
                let (rem, link) = step(rng, ps.len());
                fp!((rem, link, x));
                if rem {
                    let _ = a.remove(ps.swap_remove(rng.n(ps.len())).0);
                } else if let Some(p) = if link && !ps.is_empty() { a.insert((Some(rng.pick(&ps).0), None), x.clone()).ok() } else { None } {
                    ps.push((p, **x));
                } else {
                    ps.push((if rng.p(1, 3) { a.insert_new_cyclic(x.clone()) } else { a.insert_new(x.clone()) }, **x));
                }
            }
            let len = ps.len();
            proto!(cx, rng, "ChainArena::ptrs", len, a.ptrs(), |p: P| h(&p));
            proto!(cx, rng, "ChainArena::vals", len, a.vals(), |l: &triple_arena::Link<P, V>| h(&(l.prev_next(), &l.t)));
            proto!(cx, rng, "ChainArena::vals_mut", len, a.vals_mut(), |l: triple_arena::Link<P, &mut V>| h(&(l.prev_next(), &l.t)));
            proto!(cx, rng, "ChainArena::iter", len, a.iter(), |x: (P, &triple_arena::Link<P, V>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            proto!(cx, rng, "ChainArena::iter_mut", len, a.iter_mut(), |x: (P, triple_arena::Link<P, &mut V>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            proto!(cx, rng, "&ChainArena", len, (&a).into_iter(), |x: (P, &triple_arena::Link<P, V>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            proto!(cx, rng, "&mut ChainArena", len, (&mut a).into_iter(), |x: (P, triple_arena::Link<P, &mut V>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            proto!(cx, rng, "ChainArena by value", len, a.clone().into_iter(), |x: (P, triple_arena::Link<P, V>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            let mut b = a.clone();
            proto!(cx, rng, "ChainArena::drain", len, { b.clone_from(&a); b.drain() }, |x: (P, triple_arena::Link<P, V>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            chk!(cx, C11, b.is_empty() && b.ptrs().next().is_none(), "{} elements are left by a drain", b.len());
            if len > 0 {
                let p = rng.pick(&ps).0;
                let mut m = 1;
                let mut q = a.get_link(p).unwrap().next();
                while q.is_some() && q != Some(p) {
                    m += 1;
                    q = a.get_link(q.unwrap()).unwrap().next();
                }
                if q.is_none() {
                    q = a.get_link(p).unwrap().prev();
                    while let Some(r) = q {
                        m += 1;
                        q = a.get_link(r).unwrap().prev();
                    }
                }
                proto!(cx, rng, "ChainArena::iter_chain", m, a.iter_chain(p), |x: (P, &triple_arena::Link<P, V>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            }
            held(cx, "ChainArena", &all, |v| ps.iter().filter(|x| x.1 == v).count())?;
        }
        2 => {
            let mut a: ChainNoGenArena<P, V> = ChainNoGenArena::new();
            for x in &all {
                let (rem, link) = step(rng, ps.len());
                fp!((rem, link, x));
                if rem {
                    let _ = a.remove(ps.swap_remove(rng.n(ps.len())).0);
                } else if let Some(p) = if link && !ps.is_empty() { a.insert((Some(rng.pick(&ps).0.inx()), None), x.clone()).ok() } else { None } {
                    ps.push((p, **x));
                } else {
                    ps.push((if rng.p(1, 3) { a.insert_new_cyclic(x.clone()) } else { a.insert_new(x.clone()) }, **x));
                }
            }
            let len = ps.len();
            type L<P> = triple_arena::utils::LinkNoGen<P, V>;
            type M<'a, P> = triple_arena::utils::LinkNoGen<P, &'a mut V>;
            proto!(cx, rng, "ChainNoGenArena::ptrs", len, a.ptrs(), |p: P| h(&p));
            proto!(cx, rng, "ChainNoGenArena::vals", len, a.vals(), |l: &L<P>| h(&(l.prev_next(), &l.t)));
            proto!(cx, rng, "ChainNoGenArena::vals_mut", len, a.vals_mut(), |l: M<'_, P>| h(&(l.prev_next(), &l.t)));
            proto!(cx, rng, "ChainNoGenArena::iter", len, a.iter(), |x: (P, &L<P>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            proto!(cx, rng, "ChainNoGenArena::iter_mut", len, a.iter_mut(), |x: (P, M<'_, P>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            proto!(cx, rng, "ChainNoGenArena by value", len, a.clone().into_iter(), |x: (P, L<P>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            let mut b = a.clone();
            proto!(cx, rng, "ChainNoGenArena::drain", len, { b.clone_from(&a); b.drain() }, |x: (P, L<P>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            chk!(cx, C11, b.is_empty() && b.ptrs().next().is_none(), "{} elements are left by a drain", b.len());
            if len > 0 {
                let p = rng.pick(&ps).0.inx();
                let mut m = 1;
                let mut q = a.get_no_gen(p).unwrap().1.next();
                while q.is_some() && q != Some(p) {
                    m += 1;
                    q = a.get_no_gen(q.unwrap()).unwrap().1.next();
                }
                if q.is_none() {
                    q = a.get_no_gen(p).unwrap().1.prev();
                    while let Some(r) = q {
                        m += 1;
                        q = a.get_no_gen(r).unwrap().1.prev();
                    }
                }
                proto!(cx, rng, "ChainNoGenArena::iter_chain", m, a.iter_chain(p), |x: (P, &L<P>)| h(&(x.0, x.1.prev_next(), &x.1.t)));
            }
            held(cx, "ChainNoGenArena", &all, |v| ps.iter().filter(|x| x.1 == v).count())?;
        }
        3 => {
            let mut a: SurjectArena<P, V, V> = SurjectArena::new();
            for x in &all {
                let (rem, join) = step(rng, ps.len());
                fp!((rem, join, x));
                if rem {
                    let _ = a.remove_key(ps.swap_remove(rng.n(ps.len())).0);
                } else if join && !ps.is_empty() {
                    ps.push((a.insert_key(rng.pick(&ps).0, x.clone()).unwrap(), **x));
                } else {
                    ps.push((a.insert(x.clone(), Rc::new(**x)), **x));
                }
            }
            let len = ps.len();
            let vals = a.len_vals();
            proto!(cx, rng, "SurjectArena::ptrs", len, a.ptrs(), |p: P| h(&p));
            proto!(cx, rng, "SurjectArena::keys", len, a.keys(), |v: &V| **v);
            proto!(cx, rng, "SurjectArena::vals", vals, a.vals(), |v: &V| **v);
            proto!(cx, rng, "SurjectArena::keys_mut", len, a.keys_mut(), |v: &mut V| **v);
            proto!(cx, rng, "SurjectArena::vals_mut", vals, a.vals_mut(), |v: &mut V| **v);
            proto!(cx, rng, "SurjectArena::iter", len, a.iter(), |x: (P, &V, &V)| h(&x));
            if len > 0 {
                let p = rng.pick(&ps).0;
                let m = a.len_key_set(p).unwrap().get();
                proto!(cx, rng, "SurjectArena::iter_surject", m, a.iter_surject(p), |x: (P, &V, &V)| h(&x));
            }
            held(cx, "SurjectArena", &all, |v| ps.iter().filter(|x| x.1 == v).count())?;
        }
        _ => {
            let mut a: OrdArena<P, u64, V> = OrdArena::new();
            for x in &all {
                let (rem, _) = step(rng, ps.len());
                let k = rng.n(1000) as u64;
                fp!((rem, k, x));
                if rem {
                    let _ = a.remove(ps.swap_remove(rng.n(ps.len())).0);
                } else {
                    ps.push((a.insert_nonhereditary(k, x.clone()), **x));
                }
            }
            let len = ps.len();
            proto!(cx, rng, "OrdArena::ptrs", len, a.ptrs(), |p: P| h(&p));
            proto!(cx, rng, "OrdArena::keys", len, a.keys(), |k: &u64| *k);
            proto!(cx, rng, "OrdArena::vals", len, a.vals(), |v: &V| **v);
            proto!(cx, rng, "OrdArena::vals_mut", len, a.vals_mut(), |v: &mut V| **v);
            proto!(cx, rng, "OrdArena::iter", len, a.iter(), |x: (P, &u64, &V)| h(&x));
            proto!(cx, rng, "&OrdArena", len, (&a).into_iter(), |x: (P, &u64, &V)| h(&x));
            proto!(cx, rng, "OrdArena by value", len, a.clone().into_iter(), |x: (P, u64, V)| h(&x));
            let mut b = a.clone();
            proto!(cx, rng, "OrdArena::drain", len, { b.clone_from(&a); b.drain() }, |x: (P, u64, V)| h(&x));
            chk!(cx, C11, b.is_empty() && b.ptrs().next().is_none(), "{} entries are left by a drain", b.len());
            held(cx, "OrdArena", &all, |v| ps.iter().filter(|x| x.1 == v).count())?;
        }
    }
    Ok(())
}
