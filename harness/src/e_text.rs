//! Engine for what arenas and links show of themselves: debug texts, and comparison and hashing of
//! links
use std::{
    cmp::Ordering,
    fmt::{self, Debug, Display},
    hash::Hash,
};

use triple_arena::{
    utils::{ChainNoGenArena, LinkNoGen},
    Arena, ChainArena, Link, OrdArena, SurjectArena,
};

use crate::{cx::*, ptrs::*, rng::*};

/// shown differently by `Debug` and `Display`, and in the alternate forms
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct E(char, u32);

impl Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}{}{}>", self.0, if f.alternate() { "alt" } else { "" }, self.1)
    }
}

impl Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}{}shown{}>", self.0, if f.alternate() { "alt" } else { "" }, self.1)
    }
}

/// what counts of a text: the words, whatever the punctuation and layout
fn words(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}

fn text<A: Debug>(cx: &mut Cx, what: &str, a: &A, plain: &[String], alt: &[String], n: usize) -> R {
    let (s, t) = (format!("{a:?}"), format!("{a:#?}"));
    let (w, v) = (words(&plain.join(" ")), words(&alt.join(" ")));
    chk!(cx, C26, words(&s) == w, "{what} with {n} elements is shown as {s:?} instead of the words {w:?}");
    chk!(cx, C26, words(&t) == v, "{what} with {n} elements is shown in the alternate form as {t:?} instead of the words {v:?}");
    cx.ev(C26, if n == 0 { "empty_arena_shown" } else { "arena_shown" });
    cx.state(h(&(what, n, plain.len(), s.len())));
    Ok(())
}

fn both(f: impl Fn(bool) -> String, plain: &mut Vec<String>, alt: &mut Vec<String>) {
    plain.push(f(false));
    alt.push(f(true));
}

fn el<T: Debug>(alt: bool, t: &T) -> String {
    if alt {
        format!("{t:#?}")
    } else {
        format!("{t:?}")
    }
}

/// whether something is removed next, whether the other kind of insertion is used
fn step(rng: &mut Rng, len: usize) -> (bool, bool) {
    (len > 0 && rng.p(1, 3), rng.p(1, 2))
}

fn arenas<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let n = match rng.n(4) {
        0 => rng.n(4),
        _ => rng.range(1, 30),
    };
    let kind = rng.n(5);
    cx.op(C26, h(&(kind, n)), || format!("show arena of kind {kind} after {n} operations"));
    let (mut plain, mut alt) = (vec![], vec![]);
    let mut ps: Vec<P> = vec![];
    match kind {
        0 => {
            let mut a: Arena<P, E> = Arena::new();
            for x in 0..n as u32 {
                let (rem, _) = step(rng, ps.len());
                cx.fp = mix2(cx.fp, h(&(rem, x)));
                if rem {
                    a.remove(ps.swap_remove(rng.n(ps.len())));
                } else {
                    ps.push(a.insert(E('e', x)));
                }
            }
            let order: Vec<P> = a.ptrs().collect();
            for p in &order {
                both(|alt| format!("{p:?} {}", el(alt, &a[*p])), &mut plain, &mut alt);
            }
            text(cx, "an Arena", &a, &plain, &alt, ps.len())?;
            chk!(cx, C26, order.len() == ps.len(), "{} of {} elements are there to be shown", order.len(), ps.len());
        }
        1 => {
            let mut a: ChainArena<P, E> = ChainArena::new();
            for x in 0..n as u32 {
                let (rem, link) = step(rng, ps.len());
                cx.fp = mix2(cx.fp, h(&(rem, link, x)));
                if rem {
                    a.remove(ps.swap_remove(rng.n(ps.len())));
                } else if let Some(p) = if link && !ps.is_empty() { a.insert((Some(*rng.pick(&ps)), None), E('e', x)).ok() } else { None } {
                    ps.push(p);
                } else {
                    ps.push(if rng.p(1, 3) { a.insert_new_cyclic(E('e', x)) } else { a.insert_new(E('e', x)) });
                }
            }
            for p in a.ptrs() {
                let l = a.get_link(p).unwrap();
                both(|alt| format!("{p:?} {:?} {:?} {}", l.prev(), l.next(), el(alt, &l.t)), &mut plain, &mut alt);
            }
            text(cx, "a ChainArena", &a, &plain, &alt, ps.len())?;
        }
        2 => {
            let mut a: ChainNoGenArena<P, E> = ChainNoGenArena::new();
            for x in 0..n as u32 {
                let (rem, link) = step(rng, ps.len());
                cx.fp = mix2(cx.fp, h(&(rem, link, x)));
                if rem {
                    a.remove(ps.swap_remove(rng.n(ps.len())));
                } else if let Some(p) = if link && !ps.is_empty() { a.insert((Some(rng.pick(&ps).inx()), None), E('e', x)).ok() } else { None } {
                    ps.push(p);
                } else {
                    ps.push(if rng.p(1, 3) { a.insert_new_cyclic(E('e', x)) } else { a.insert_new(E('e', x)) });
                }
            }
            for p in a.ptrs() {
                let l = a.get_link(p).unwrap();
                both(|alt| format!("{p:?} {:?} {:?} {}", l.prev(), l.next(), el(alt, &l.t)), &mut plain, &mut alt);
            }
            text(cx, "a ChainNoGenArena", &a, &plain, &alt, ps.len())?;
        }
        3 => {
            let mut a: SurjectArena<P, E, E> = SurjectArena::new();
            for x in 0..n as u32 {
                let (rem, join) = step(rng, ps.len());
                cx.fp = mix2(cx.fp, h(&(rem, join, x)));
                if rem {
                    a.remove_key(ps.swap_remove(rng.n(ps.len())));
                } else if join && !ps.is_empty() {
                    ps.push(a.insert_key(*rng.pick(&ps), E('k', x)).unwrap());
                } else {
                    ps.push(a.insert(E('k', x), E('v', x)));
                }
            }
            for p in a.ptrs() {
                let (k, v) = a.get(p).unwrap();
                both(|alt| format!("{p:?} {} {}", el(alt, k), el(alt, v)), &mut plain, &mut alt);
            }
            text(cx, "a SurjectArena", &a, &plain, &alt, ps.len())?;
        }
        _ => {
            let mut a: OrdArena<P, E, E> = OrdArena::new();
            let mut keys: Vec<(u32, u32)> = vec![];
            for x in 0..n as u32 {
                let (rem, _) = step(rng, keys.len());
                let k = rng.n(40) as u32;
                cx.fp = mix2(cx.fp, h(&(rem, k, x)));
                if rem {
                    let (k, _) = keys.swap_remove(rng.n(keys.len()));
                    let p = a.find_key(&E('k', k));
                    chk!(cx, C26 | C05, p.is_some(), "the key {k} is lost");
                    a.remove(p.unwrap());
                } else {
                    let _ = a.insert(E('k', k), E('v', x));
                    keys.retain(|l| l.0 != k);
                    keys.push((k, x));
                }
            }
            keys.sort();
            for (k, v) in &keys {
                let p = a.find_key(&E('k', *k)).unwrap();
                both(|alt| format!("{p:?} {} {}", el(alt, &E('k', *k)), el(alt, &E('v', *v))), &mut plain, &mut alt);
            }
            text(cx, "an OrdArena", &a, &plain, &alt, keys.len())?;
        }
    }
    Ok(())
}

/// what is common to both types of links
fn pair<L: PartialEq + PartialOrd + Debug + Clone, X: PartialOrd + Debug>(cx: &mut Cx, a: &L, b: &L, x: &X, y: &X) -> R {
    chk!(cx, C26, (a == b) == (x == y) && (a != b) == (x != y), "{a:?} == {b:?} is {} for links with {x:?} and {y:?}", a == b);
    chk!(cx, C26, a.partial_cmp(b) == x.partial_cmp(y), "{a:?} compares with {b:?} as {:?} for links with {x:?} and {y:?}", a.partial_cmp(b));
    chk!(cx, C26, (a < b, a <= b, a > b, a >= b) == (x < y, x <= y, x > y, x >= y), "comparison operators on {a:?} and {b:?} disagree");
    let c = a.clone();
    chk!(cx, C26, words(&format!("{c:?}")) == words(&format!("{a:?}")), "{a:?} is cloned to {c:?}");
    cx.ev(C26, if x == y { "equal_links_compared" } else { "different_links_compared" });
    Ok(())
}

fn total<L: Ord + Hash + Debug, X: Ord + Hash + Debug>(cx: &mut Cx, a: &L, b: &L, x: &X, y: &X) -> R {
    chk!(cx, C26, a.cmp(b) == x.cmp(y), "{a:?} is ordered with {b:?} as {:?} for links with {x:?} and {y:?}", a.cmp(b));
    chk!(cx, C26, x.cmp(y) != Ordering::Equal || h(a) == h(b), "{a:?} and {b:?} are equal with different hashes");
    Ok(())
}

fn links<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    fn end<P: TP>(rng: &mut Rng) -> Option<P> {
        match rng.n(4) {
            0 => None,
            1 => Some(P::make(1 + rng.n(300), 1 + rng.n(300) as u128)),
            _ => Some(P::make(1 + rng.n(2), 2 + rng.n(2) as u128)),
        }
    }
    cx.op(C26, 1, || "compare and show links".to_string());
    for _ in 0..rng.range(1, 40) {
        let x = (end::<P>(rng), end::<P>(rng), rng.n(3) as u32);
        let mut y = (end::<P>(rng), end::<P>(rng), rng.n(3) as u32);
        // often alike in all but one part
        match rng.n(5) {
            0 => y = x,
            1 => y = (y.0, x.1, x.2),
            2 => y = (x.0, y.1, x.2),
            3 => y = (x.0, x.1, y.2),
            _ => (),
        }
        cx.fp = mix2(cx.fp, h(&(x, y)));
        let (a, b) = (Link::new((x.0, x.1), E('e', x.2)), Link::new((y.0, y.1), E('e', y.2)));
        chk!(cx, C26, a.prev() == x.0 && a.next() == x.1 && a.prev_next() == (x.0, x.1) && a.t == E('e', x.2), "{a:?} was made of {x:?}");
        pair(cx, &a, &b, &x, &y)?;
        total(cx, &a, &b, &x, &y)?;
        let (i, j) = ((x.0.map(|p| p.inx()), x.1.map(|p| p.inx()), x.2), (y.0.map(|p| p.inx()), y.1.map(|p| p.inx()), y.2));
        let (c, d) = (LinkNoGen::<P, E>::new((i.0, i.1), E('e', i.2)), LinkNoGen::<P, E>::from_link(b));
        chk!(cx, C26, c.prev() == i.0 && c.next() == i.1 && c.prev_next() == (i.0, i.1) && c.t == E('e', i.2), "{c:?} was made of {i:?}");
        chk!(cx, C26, d.prev_next() == (j.0, j.1) && d.t == b.t, "{d:?} was made of {b:?}");
        pair(cx, &c, &d, &i, &j)?;
        total(cx, &c, &d, &i, &j)?;
        // contents that are not comparable with everything
        let fl = |x: u32| if x == 0 { f64::NAN } else { x as f64 };
        let (xf, yf) = ((x.0, x.1, fl(x.2)), (y.0, y.1, fl(y.2)));
        pair(cx, &Link::new((x.0, x.1), xf.2), &Link::new((y.0, y.1), yf.2), &xf, &yf)?;
        let (xf, yf) = ((i.0, i.1, fl(i.2)), (j.0, j.1, fl(j.2)));
        pair(cx, &LinkNoGen::<P, f64>::new((i.0, i.1), xf.2), &LinkNoGen::new((j.0, j.1), yf.2), &xf, &yf)?;
        // texts
        let e = E('e', x.2);
        for (s, w) in [
            (format!("{a:?}"), format!("{:?} {:?} {e:?}", x.0, x.1)),
            (format!("{a:#?}"), format!("{:?} {:?} {e:#?}", x.0, x.1)),
            (format!("{a}"), format!("{:?} {:?} {e}", x.0, x.1)),
            (format!("{a:#}"), format!("{:?} {:?} {e:#}", x.0, x.1)),
            (format!("{c:?}"), format!("{:?} {:?} {e:?}", i.0, i.1)),
            (format!("{c:#?}"), format!("{:?} {:?} {e:#?}", i.0, i.1)),
            (format!("{c}"), format!("{:?} {:?} {e}", i.0, i.1)),
            (format!("{c:#}"), format!("{:?} {:?} {e:#}", i.0, i.1)),
        ] {
            chk!(cx, C26, words(&s) == words(&w), "a link is shown as {s:?} instead of {w:?}");
        }
        cx.ev(C26, "link_shown");
        cx.state(h(&(x, y)));
    }
    Ok(())
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    if rng.p(1, 2) {
        links::<P>(cx, rng)
    } else {
        arenas::<P>(cx, rng)
    }
}
