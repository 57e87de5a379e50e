//! Engine for `ChainArena` and `ChainNoGenArena`: random histories against
//! a model made of ordinary next/previous maps
use recasting::{Recast, Recaster};
use triple_arena::{
    utils::{ChainNoGenArena, LinkNoGen},
    Advancer, Arena, ArenaTrait, ChainArena, Link,
};

use crate::{cx::*, e_arena::{end_of_case, two}, model::*, ptrs::*, rng::*, tok::*};

/// an interlink: index and, if there is one, generation
pub type IL = Option<(usize, Option<u128>)>;
pub type LK = (IL, IL);

/// What both chain arena types have in common
pub trait CA<P: TP>: Sized + Clone + PartialEq + ByInx<P> {
    const NG: bool;
    type G: Clone;
    fn new() -> Self;
    fn with_capacity(n: usize) -> Self;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn cap(&self) -> usize;
    fn gn(&self) -> u128;
    fn reserve(&mut self, n: usize);
    fn insert(&mut self, a: Option<P>, b: Option<P>, t: Tok) -> Result<P, Tok>;
    fn insert_with(&mut self, a: Option<P>, b: Option<P>, f: impl FnOnce(P) -> Tok) -> Option<P>;
    fn insert_new(&mut self, via: usize, t: Tok, seen: &mut Vec<P>) -> P;
    fn insert_cyc(&mut self, via: usize, t: Tok, seen: &mut Vec<P>) -> P;
    fn insert_start(&mut self, p: P, t: Tok) -> Result<P, Tok>;
    fn insert_end(&mut self, p: P, t: Tok) -> Result<P, Tok>;
    fn contains(&self, p: P) -> bool;
    fn are_neighbors(&self, p: P, q: P) -> bool;
    fn link(&self, p: P) -> Option<(LK, &Tok)>;
    fn link_mut(&mut self, via: usize, p: P) -> Option<(Option<LK>, &mut Tok)>;
    #[allow(clippy::type_complexity)]
    fn link2_mut(&mut self, via: usize, p: P, q: P) -> Option<(Option<(LK, LK)>, &mut Tok, &mut Tok)>;
    fn get(&self, via: usize, p: P) -> Option<&Tok>;
    fn index(&mut self, p: P) -> TR;
    fn remove(&mut self, via: bool, p: P) -> Option<(LK, Tok)>;
    fn remove_chain(&mut self, p: P) -> Option<usize>;
    fn invalidate(&mut self, p: P) -> Option<P>;
    fn replace_keep(&mut self, p: P, t: Tok) -> Result<Tok, Tok>;
    fn replace_update(&mut self, p: P, t: Tok) -> Result<(Tok, P), Tok>;
    fn swap(&mut self, p: P, q: P) -> Option<()>;
    fn connect(&mut self, p: P, q: P) -> Option<()>;
    fn break_prev(&mut self, p: P) -> Option<()>;
    fn break_next(&mut self, p: P) -> Option<()>;
    fn exchange_next(&mut self, p: P, q: P) -> Option<()>;
    fn clear(&mut self, via: bool);
    fn clear_and_shrink(&mut self, via: bool);
    fn compress(&mut self);
    fn compress_with(&mut self, f: impl FnMut(P, &mut Tok, P));
    fn all(&self, via: usize) -> Vec<(Option<P>, Option<(LK, &Tok)>)>;
    fn all_mut(&mut self, via: usize) -> Vec<(Option<P>, LK, &mut Tok)>;
    fn chain(&self, p: P) -> Vec<(P, LK, TR)>;
    fn drain(&mut self, take: usize, out: &mut Vec<(P, LK, Tok)>);
    fn into(self, take: usize) -> Vec<(P, LK, Tok)>;
    fn from_toks(rng: &mut Rng, v: Vec<Tok>) -> Self;
    fn clone_from_with(&mut self, src: &Self, f: impl FnMut(P, LK, &Tok) -> Tok);
    fn to_arena(&self, f: impl FnMut(P, LK, &Tok) -> u64) -> Arena<P, u64>;
    /// clone through `Arena<P, Link>` and `from_arena`, `bad` changes the interlinks of one link
    fn via_arena(&self, bad: Option<(P, LK)>) -> Result<Self, &'static str>;
    fn adv(&self) -> Box<dyn FnMut(&Self) -> Option<P>>;
    fn adv_chain(&self, p: P) -> Box<dyn FnMut(&Self) -> Option<P>>;
    fn graph(&self, f: impl FnMut(P) -> Vec<P>) -> Self::G;
    fn graph_recaster(g: &mut Self::G) -> Arena<P, P>;
    fn graph_recast(g: &mut Self::G, r: &Arena<P, P>) -> Result<(), P>;
    fn graph_get(g: &Self::G, p: P) -> Option<(u64, &Vec<P>, LK)>;
    fn graph_push(g: &mut Self::G, p: P, bad: P);
    fn graph_ptrs(g: &Self::G) -> Vec<P>;
}

#[derive(Clone)]
pub struct PN<P> {
    val: u64,
    ps: Vec<P>,
}
impl<P: TP> Recast<P> for PN<P> {
    fn recast<R: Recaster<Item = P>>(&mut self, r: &R) -> Result<(), P> {
        for p in &mut self.ps {
            r.recast_item(p)?;
        }
        Ok(())
    }
}

macro_rules! ca {
    ($Arena:ident, $Link:ident, $ng:expr, |$pi:ident| $in:expr, |$po:ident| $out:expr, |$pc:ident| $cin:expr, |$mk:ident| $mkx:expr) => {
        impl<P: TP> CA<P> for $Arena<P, Tok> {
            type G = $Arena<P, PN<P>>;
            const NG: bool = $ng;

            fn new() -> Self { $Arena::new() }
            fn with_capacity(n: usize) -> Self { $Arena::with_capacity(n) }
            fn len(&self) -> usize { self.len() }
            fn is_empty(&self) -> bool { self.is_empty() }
            fn cap(&self) -> usize { self.capacity() }
            fn gn(&self) -> u128 { P::gnum(self.generation()) }
            fn reserve(&mut self, n: usize) { self.reserve(n) }
            fn insert(&mut self, a: Option<P>, b: Option<P>, t: Tok) -> Result<P, Tok> {
                self.insert((a.map(|$pi| $in), b.map(|$pi| $in)), t)
            }
            fn insert_with(&mut self, a: Option<P>, b: Option<P>, f: impl FnOnce(P) -> Tok) -> Option<P> {
                self.insert_with((a.map(|$pi| $in), b.map(|$pi| $in)), f)
            }
            fn insert_new(&mut self, via: usize, t: Tok, seen: &mut Vec<P>) -> P {
                match via % 3 {
                    0 => self.insert_new(t),
                    1 => self.insert_new_with(|p| { seen.push(p); tick(K_CLOSURE); t }),
                    _ => ArenaTrait::insert(self, $Link::new((None, None), t)),
                }
            }
            fn insert_cyc(&mut self, via: usize, t: Tok, seen: &mut Vec<P>) -> P {
                match via % 2 {
                    0 => self.insert_new_cyclic(t),
                    _ => self.insert_new_cyclic_with(|p| { seen.push(p); tick(K_CLOSURE); t }),
                }
            }
            fn insert_start(&mut self, p: P, t: Tok) -> Result<P, Tok> { self.insert_start(p, t) }
            fn insert_end(&mut self, p: P, t: Tok) -> Result<P, Tok> { self.insert_end(p, t) }
            fn contains(&self, p: P) -> bool { self.contains(p) }
            fn are_neighbors(&self, p: P, q: P) -> bool { self.are_neighbors(p, q) }
            fn link(&self, p: P) -> Option<(LK, &Tok)> {
                self.get_link(p).map(|l| ((l.prev().map(|$po| $out), l.next().map(|$po| $out)), &l.t))
            }
            fn link_mut(&mut self, via: usize, p: P) -> Option<(Option<LK>, &mut Tok)> {
                match via % 3 {
                    0 => self.get_mut(p).map(|t| (None, t)),
                    1 => self.get_link_mut(p).map(|l| (Some((l.prev().map(|$po| $out), l.next().map(|$po| $out))), l.t)),
                    _ => ArenaTrait::get_mut(self, p).map(|l| (Some((l.prev().map(|$po| $out), l.next().map(|$po| $out))), l.t)),
                }
            }
            fn link2_mut(&mut self, via: usize, p: P, q: P) -> Option<(Option<(LK, LK)>, &mut Tok, &mut Tok)> {
                if via % 2 == 0 {
                    self.get2_mut(p, q).map(|(x, y)| (None, x, y))
                } else {
                    self.get2_link_mut(p, q).map(|(x, y)| {
                        let lx = (x.prev().map(|$po| $out), x.next().map(|$po| $out));
                        let ly = (y.prev().map(|$po| $out), y.next().map(|$po| $out));
                        (Some((lx, ly)), x.t, y.t)
                    })
                }
            }
            fn get(&self, via: usize, p: P) -> Option<&Tok> {
                if via % 2 == 0 { self.get(p) } else { ArenaTrait::get(self, p).map(|l| &l.t) }
            }
            fn index(&mut self, p: P) -> TR {
                let r = self[p].rec();
                self[p].mark += 1;
                r
            }
            fn remove(&mut self, via: bool, p: P) -> Option<(LK, Tok)> {
                (if via { ArenaTrait::remove(self, p) } else { self.remove(p) }).map(|l| ((l.prev().map(|$po| $out), l.next().map(|$po| $out)), l.t))
            }
            fn remove_chain(&mut self, p: P) -> Option<usize> { self.remove_chain(p) }
            fn invalidate(&mut self, p: P) -> Option<P> { self.invalidate(p) }
            fn replace_keep(&mut self, p: P, t: Tok) -> Result<Tok, Tok> { self.replace_and_keep_gen(p, t) }
            fn replace_update(&mut self, p: P, t: Tok) -> Result<(Tok, P), Tok> { self.replace_and_update_gen(p, t) }
            fn swap(&mut self, p: P, q: P) -> Option<()> { self.swap(p, q) }
            fn connect(&mut self, p: P, q: P) -> Option<()> { self.connect(p, q) }
            fn break_prev(&mut self, p: P) -> Option<()> { self.break_prev(p) }
            fn break_next(&mut self, p: P) -> Option<()> { self.break_next(p) }
            fn exchange_next(&mut self, p: P, q: P) -> Option<()> { self.exchange_next(p, q) }
            fn clear(&mut self, via: bool) { if via { self.clear() } else { ArenaTrait::clear(self) } }
            fn clear_and_shrink(&mut self, via: bool) { if via { self.clear_and_shrink() } else { ArenaTrait::clear_and_shrink(self) } }
            fn compress(&mut self) { self.compress_and_shrink() }
            fn compress_with(&mut self, f: impl FnMut(P, &mut Tok, P)) { self.compress_and_shrink_with(f) }
            fn all(&self, via: usize) -> Vec<(Option<P>, Option<(LK, &Tok)>)> {
                match via % 4 {
                    0 => self.iter().map(|(p, l)| (Some(p), Some(((l.prev().map(|$po| $out), l.next().map(|$po| $out)), &l.t)))).collect(),
                    1 => self.ptrs().map(|p| (Some(p), None)).collect(),
                    2 => self.vals().map(|l| (None, Some(((l.prev().map(|$po| $out), l.next().map(|$po| $out)), &l.t)))).collect(),
                    _ => self.into_iter().map(|(p, l)| (Some(p), Some(((l.prev().map(|$po| $out), l.next().map(|$po| $out)), &l.t)))).collect(),
                }
            }
            fn all_mut(&mut self, via: usize) -> Vec<(Option<P>, LK, &mut Tok)> {
                match via % 3 {
                    0 => self.iter_mut().map(|(p, l)| (Some(p), (l.prev().map(|$po| $out), l.next().map(|$po| $out)), l.t)).collect(),
                    1 => self.vals_mut().map(|l| (None, (l.prev().map(|$po| $out), l.next().map(|$po| $out)), l.t)).collect(),
                    _ => self.into_iter().map(|(p, l)| (Some(p), (l.prev().map(|$po| $out), l.next().map(|$po| $out)), l.t)).collect(),
                }
            }
            fn chain(&self, p: P) -> Vec<(P, LK, TR)> {
                let $pi = p;
                self.iter_chain($in).map(|(p, l)| (p, (l.prev().map(|$po| $out), l.next().map(|$po| $out)), l.t.rec())).collect()
            }
            fn drain(&mut self, take: usize, out: &mut Vec<(P, LK, Tok)>) {
                let mut d = self.drain();
                while out.len() < take {
                    match d.next() {
                        Some((p, l)) => out.push((p, (l.prev().map(|$po| $out), l.next().map(|$po| $out)), l.t)),
                        None => break,
                    }
                }
            }
            fn into(self, take: usize) -> Vec<(P, LK, Tok)> {
                let mut v = vec![];
                let mut d = if take % 2 == 0 { self.into_iter() } else { self.capacity_drain() };
                while v.len() < take {
                    match d.next() {
                        Some((p, l)) => v.push((p, (l.prev().map(|$po| $out), l.next().map(|$po| $out)), l.t)),
                        None => break,
                    }
                }
                v
            }
            fn from_toks(rng: &mut Rng, v: Vec<Tok>) -> Self { Hinted::new(rng, v.into_iter()).collect() }
            fn clone_from_with(&mut self, src: &Self, mut f: impl FnMut(P, LK, &Tok) -> Tok) {
                self.clone_from_with(src, |p, l| f(p, (l.prev().map(|$po| $out), l.next().map(|$po| $out)), &l.t))
            }
            fn to_arena(&self, mut f: impl FnMut(P, LK, &Tok) -> u64) -> Arena<P, u64> {
                let mut a = Arena::new();
                self.clone_to_arena(&mut a, |p, l| f(p, (l.prev().map(|$po| $out), l.next().map(|$po| $out)), &l.t));
                a
            }
            fn via_arena(&self, bad: Option<(P, LK)>) -> Result<Self, &'static str> {
                let mut a: Arena<P, $Link<P, Tok>> = Arena::new();
                self.clone_to_arena(&mut a, |p, l| {
                    if let Some((q, lk)) = &bad {
                        if *q == p {
                            let $mk = |x: IL| x;
                            let f = $mkx;
                            return $Link::new((f($mk(lk.0)), f($mk(lk.1))), l.t.clone())
                        }
                    }
                    l.clone()
                });
                $Arena::from_arena(a)
            }
            fn adv(&self) -> Box<dyn FnMut(&Self) -> Option<P>> {
                let mut a = self.advancer();
                Box::new(move |s| a.advance(s))
            }
            fn adv_chain(&self, p: P) -> Box<dyn FnMut(&Self) -> Option<P>> {
                let $pi = p;
                let mut a = self.advancer_chain($in);
                Box::new(move |s| a.advance(s))
            }
            fn graph(&self, mut f: impl FnMut(P) -> Vec<P>) -> Self::G {
                let mut g = $Arena::new();
                g.clone_from_with(self, |p, l: &$Link<P, Tok>| PN { val: l.t.id, ps: f(p) });
                g
            }
            fn graph_recaster(g: &mut Self::G) -> Arena<P, P> { g.compress_and_shrink_recaster() }
            fn graph_recast(g: &mut Self::G, r: &Arena<P, P>) -> Result<(), P> { g.recast(r) }
            fn graph_get(g: &Self::G, p: P) -> Option<(u64, &Vec<P>, LK)> {
                g.get_link(p).map(|l| (l.t.val, &l.t.ps, (l.prev().map(|$po| $out), l.next().map(|$po| $out))))
            }
            fn graph_push(g: &mut Self::G, p: P, bad: P) { g[p].ps.push(bad) }
            fn graph_ptrs(g: &Self::G) -> Vec<P> { g.ptrs().collect() }
        }
    };
}
ca!(ChainArena, Link, false, |p| p, |o| (o.i(), Some(o.g())), |c| c, |m| |x: IL| x.map(|(i, g)| P::make(i, g.unwrap_or(2))));
ca!(ChainNoGenArena, LinkNoGen, true, |p| p.inx(), |o| (inum::<P>(o), None), |c| c, |m| |x: IL| x.map(|(i, _)| inx_of::<P>(i)));

/// what only the arena without generations in its interlinks has
pub trait ByInx<P: TP> {
    fn neighbors_inx(&self, p: P, q: P) -> Option<bool>;
}

impl<P: TP> ByInx<P> for ChainArena<P, Tok> {
    fn neighbors_inx(&self, _: P, _: P) -> Option<bool> {
        None
    }
}

impl<P: TP> ByInx<P> for ChainNoGenArena<P, Tok> {
    fn neighbors_inx(&self, p: P, q: P) -> Option<bool> {
        Some(self.are_neighbors_inx(p.inx(), q.inx()))
    }
}

fn inum<P: TP>(i: P::Inx) -> usize {
    triple_arena::utils::PtrInx::get(i).get()
}

pub const TAB: &OpTab = &[
    ("insert_new", 16, 0, GROW),
    ("insert_cyclic", 6, 0, GROW),
    ("insert", 20, C03 | C17, GROW),
    ("insert_with", 8, C03 | C17 | C20, GROW),
    ("insert_start", 6, C17, GROW),
    ("insert_end", 6, C17, GROW),
    ("remove", 20, C01 | C03 | C08, SHRINK),
    ("remove_chain", 4, C03 | C08 | C23 | C16, SHRINK),
    ("invalidate", 7, C01 | C03 | C23, NEU),
    ("replace_keep", 5, C08, NEU),
    ("replace_update", 5, C01 | C03 | C23, NEU),
    ("swap", 6, C03 | C17, NEU),
    ("connect", 18, C03 | C17, NEU),
    ("break_prev", 6, C03 | C17, NEU),
    ("break_next", 6, C03 | C17, NEU),
    ("exchange_next", 14, C03 | C17, NEU),
    ("get_mut", 4, 0, NEU),
    ("get2_mut", 5, C09 | C17, NEU),
    ("index", 2, 0, NEU),
    ("neighbors", 6, C03 | C01, NEU),
    ("mut_iters", 3, C11 | C09, NEU),
    ("iters", 3, C11, NEU),
    ("iter_chain", 6, C11 | C10, NEU),
    ("clear", 2, C18 | C08 | C23, RARE),
    ("clear_and_shrink", 2, C18 | C08, RARE),
    ("compress", 4, C13 | C23 | C18, RARE),
    ("recast", 3, C13, RARE),
    ("reserve", 3, C18 | C16, NEU),
    ("clone", 4, C12, RARE),
    ("clone_from", 4, C12 | C18, RARE),
    ("clone_from_with", 4, C12, RARE),
    ("clone_to", 4, C12, NEU),
    ("from_arena", 3, C15, NEU),
    ("eq", 4, C19, NEU),
    ("drain", 2, C11 | C08 | C16, RARE),
    ("into_iter", 2, C11 | C08, RARE),
    ("advance", 4, C10, NEU),
    ("advance_chain", 4, C10, NEU),
    ("burn", 1, C16 | C01, NEU),
    ("fill", 1, C16 | C18, RARE),
];

const BODY: &[usize] = &[0, 1, 2, 2, 4, 5, 6, 6, 6, 7, 8, 10, 11, 12, 13, 14, 15, 23, 24, 25, 27];
const MAIN: Tags = C03;

pub struct S<P: TP, A> {
    pub a: A,
    pub m: Live<P, TR>,
    pub next: HMap<P, P>,
    pub prev: HMap<P, P>,
    pub b: Book<P>,
}

pub struct W<P: TP, A> {
    pub s: Vec<S<P, A>>,
    pub cfg: Cfg,
    vals: u64,
    in_body: bool,
}

/// interlink agrees with the model
fn il<P: TP>(x: IL, p: Option<P>) -> bool {
    match (x, p) {
        (None, None) => true,
        (Some((i, g)), Some(p)) => i == p.i() && g.map(|g| g == p.g()).unwrap_or(true),
        _ => false,
    }
}

impl<P: TP, A: CA<P>> S<P, A> {
    pub fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self> {
        let mut b = Book::new(MAIN);
        let a = if rng.p(1, 3) {
            b.cap = rng.n(12);
            A::with_capacity(b.cap)
        } else {
            A::new()
        };
        chk!(cx, C18, a.cap() == b.cap, "new arena: capacity {}", a.cap());
        if P::HG {
            chks!(cx, C23, a.gn() == 2, "new arena: generation {}", a.gn());
        }
        Ok(S {
            a,
            m: Live::new(),
            next: HMap::default(),
            prev: HMap::default(),
            b,
        })
    }

    fn lk(&self, p: P) -> (Option<P>, Option<P>) {
        (self.prev.get(&p).copied(), self.next.get(&p).copied())
    }

    fn lk_ok(&self, p: P, l: LK) -> bool {
        il(l.0, self.prev.get(&p).copied()) && il(l.1, self.next.get(&p).copied())
    }

    fn join(&mut self, p: P, q: P) {
        self.next.insert(p, q);
        self.prev.insert(q, p);
    }

    fn cut_next(&mut self, p: P) -> Option<P> {
        let n = self.next.remove(&p)?;
        self.prev.remove(&n);
        Some(n)
    }

    fn rename(&mut self, p: P, n: P) {
        if p == n {
            return
        }
        if let Some(x) = self.next.remove(&p) {
            let x = if x == p { n } else { x };
            self.next.insert(n, x);
            self.prev.insert(x, n);
        }
        if let Some(x) = self.prev.remove(&p) {
            let x = if x == p { n } else { x };
            self.prev.insert(n, x);
            self.next.insert(x, n);
        }
    }

    fn rem(&mut self, p: P) -> Option<TR> {
        let r = self.m.remove(p)?;
        self.b.kill(p);
        let (pr, ne) = self.lk(p);
        if ne.is_some() {
            self.cut_next(p);
        }
        if let Some(x) = pr {
            if x != p {
                self.cut_next(x);
            }
        }
        if let (Some(x), Some(y)) = (pr, ne) {
            if x != p {
                self.join(x, y);
            }
        }
        Some(r)
    }

    /// the chain of a live `p`, forwards and then backwards
    pub fn chain_of(&self, p: P) -> Vec<P> {
        let mut v = vec![p];
        let mut x = p;
        while let Some(n) = self.next.get(&x) {
            if *n == p {
                return v
            }
            v.push(*n);
            x = *n;
        }
        x = p;
        while let Some(n) = self.prev.get(&x) {
            v.push(*n);
            x = *n;
        }
        v
    }

    pub fn kill_all(&mut self) {
        for p in std::mem::take(&mut self.m.order) {
            self.b.kill(p);
        }
        self.m.clear();
        self.next.clear();
        self.prev.clear();
    }

    pub fn full(&self, cx: &mut Cx, rng: &mut Rng, t: Tags) -> R {
        let (a, m) = (&self.a, &self.m);
        chk!(cx, MAIN | t, a.len() == m.len(), "len {} but the model has {}", a.len(), m.len());
        chk!(cx, MAIN | t, a.is_empty() == (m.len() == 0), "is_empty wrong");
        let v = a.all(0);
        chk!(cx, MAIN | C11 | t, v.len() == m.len(), "iteration yields {} of {} links", v.len(), m.len());
        for (p, x) in v {
            let (p, (l, v)) = (p.unwrap(), x.unwrap());
            match m.get(p) {
                None => chk!(cx, MAIN | C01 | C11 | t, false, "iteration yields {p:?} which is not live"),
                Some(r) => {
                    chk!(cx, MAIN | C01 | C08 | C11 | t, same(v, r), "{p:?} holds {:?} instead of {r:?}", v.rec());
                    chk!(cx, MAIN | t, self.lk_ok(p, l), "interlinks of {p:?} are {l:?}, expected {:?}", self.lk(p));
                }
            }
        }
        for p in &m.order {
            let r = m.get(*p).unwrap();
            chk!(cx, MAIN | C01 | t, a.contains(*p), "{p:?} should be valid");
            match a.link(*p) {
                Some((l, v)) => {
                    chk!(cx, MAIN | C01 | C08 | t, same(v, r), "{p:?} resolves to {:?} instead of {r:?}", v.rec());
                    chk!(cx, MAIN | t, self.lk_ok(*p, l), "interlinks of {p:?} are {l:?}, expected {:?}", self.lk(*p));
                }
                None => chk!(cx, MAIN | C01 | t, false, "{p:?} should resolve"),
            }
            chk!(cx, MAIN | C01 | t, a.get(1, *p).map(|v| same(v, r)) == Some(true), "{p:?} should resolve");
        }
        let d = &self.b.dead;
        let k = d.len().min(5);
        for j in 0..2 * k {
            let p = if j < k { d[d.len() - 1 - j] } else { *rng.pick(d) };
            let live = m.has(p);
            chk!(cx, C01 | t, a.contains(p) == live && a.link(p).is_some() == live && a.get(0, p).is_some() == live, "stale {p:?}: accepted {}", !live);
            if P::HG {
                cx.ev(C01, "stale_ptr_rejected");
            }
        }
        for p in [P::invalid(), self.b.forge(rng, &m.order)] {
            let live = m.has(p);
            chk!(cx, C01 | t, a.contains(p) == live, "{p:?}: contains is {}", !live);
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn post(&mut self, cx: &mut Cx, rng: &mut Rng, dgen: (u128, u128), capx: Cap, len0: usize, t: Tags, full: bool) -> R {
        let (g, c) = (self.a.gn(), self.a.cap());
        self.b.meta(cx, g, dgen, c, capx, len0, t)?;
        cx.poll()?;
        if full {
            self.full(cx, rng, t)?;
            cx.ev(MAIN, "model_compared");
            let mut v: Vec<_> = self.m.order.iter().map(|p| (p.i(), self.next.get(p).map(|n| n.i()))).collect();
            v.sort();
            cx.state(h(&(v, c, A::NG)));
        }
        Ok(())
    }

    fn add(&mut self, cx: &mut Cx, p: P, r: TR) -> R {
        let g = self.a.gn();
        let live = self.m.has(p);
        self.b.issue(cx, p, live, g)?;
        self.m.insert(p, r);
        Ok(())
    }
}

impl<P: TP, A: CA<P>> W<P, A> {
    pub fn new(cx: &mut Cx, rng: &mut Rng) -> R<Self> {
        let cfg = Cfg::new(cx, rng, TAB);
        let mut s = vec![];
        for _ in 0..cfg.arenas {
            s.push(S::new(cx, rng)?);
        }
        Ok(W {
            s,
            cfg,
            vals: 0,
            in_body: false,
        })
    }

    pub fn tok(&mut self, rng: &mut Rng) -> Tok {
        self.vals += 1;
        Tok::new(if rng.p(1, 2) { rng.n(3) as u64 } else { self.vals + 100 })
    }

    pub fn run(&mut self, cx: &mut Cx, rng: &mut Rng) -> R {
        let n = self.cfg.nops;
        let mut follow = None;
        // not too much time on a single case with tens of thousands of entries
        let mut budget = 700_000usize;
        for k in 0..n {
            let load: usize = self.s.iter().map(|s| s.m.len()).sum();
            if load > budget {
                break
            }
            budget -= load;
            let (i, op) = match follow.take() {
                Some(x) => x,
                None => {
                    let i = if rng.p(2, 3) { 0 } else { rng.n(self.s.len()) };
                    (i, self.cfg.next_op(rng, self.s[i].m.len()))
                }
            };
            follow = self.cfg.follow(rng, op).map(|f| (i, f));
            let full = k % self.cfg.every == 0 || k + 1 == n;
            self.step(cx, rng, i, op, full)?;
        }
        for s in &self.s {
            s.full(cx, rng, 0)?;
        }
        Ok(())
    }

    /// for index interlinks the generation of an operand does not matter
    fn norm(&self, i: usize, p: P) -> Option<P> {
        let s = &self.s[i];
        if A::NG {
            s.m.order.iter().copied().find(|x| x.i() == p.i())
        } else if s.m.has(p) {
            Some(p)
        } else {
            None
        }
    }

    /// second operand, related to the first one with good probability
    fn related(&self, rng: &mut Rng, i: usize, p: P, other: &[P]) -> P {
        let s = &self.s[i];
        if s.m.has(p) {
            match rng.n(8) {
                0 => return p,
                1 | 2 => {
                    if let Some(n) = s.next.get(&p) {
                        return *n
                    }
                }
                3 => {
                    if let Some(n) = s.prev.get(&p) {
                        return *n
                    }
                }
                4 => return *rng.pick(&s.chain_of(p)),
                5 => {
                    // stale version of a neighbour
                    if let Some(n) = s.next.get(&p) {
                        if let Some(d) = s.b.dead.iter().rev().find(|d| d.i() == n.i()) {
                            return *d
                        }
                    }
                }
                _ => (),
            }
        }
        s.b.pick(rng, &s.m.order, other)
    }

    pub fn step(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, op: usize, full: bool) -> R {
        let name = TAB[op].0;
        let optag = TAB[op].2;
        let o = rng.n(self.s.len());
        let opick = self.s[o].m.order.clone();
        let s = &self.s[i];
        let p = s.b.pick(rng, &s.m.order, &opick);
        let q = self.related(rng, i, p, &opick);
        let len0 = s.m.len();
        let narrow = (P::GEN_MAX <= 65535 && P::HG && s.b.gen + 3 > P::GEN_MAX) || (P::INX_MAX <= 65535 && s.b.cap as u128 * 2 >= P::INX_MAX);
        let lt = if narrow { C16 } else { 0 };
        cx.op(MAIN | lt | (optag & (C12 | C13 | C11 | C10 | C15)), h(&(op, i, p, q, len0, s.b.cap, s.next.len())), || {
            format!("chain{i}{}.{name} p={p:?} q={q:?} len={len0} cap={}", if A::NG { "(nogen)" } else { "" }, s.b.cap)
        });
        if narrow {
            cx.ev(C16, "operation_near_limit");
        }
        let blocked = s.b.blocked();
        let at_max = s.m.len() as u128 == P::INX_MAX;
        let live_p = s.m.has(p);
        let live_q = s.m.has(q);
        let full = full && len0 < 400;
        const Z: (u128, u128) = (0, 0);
        match name {
            "insert_new" | "insert_cyclic" => {
                let t = self.tok(rng);
                let r = t.rec();
                let s = &mut self.s[i];
                let via = rng.n(3);
                let mut seen = vec![];
                let res = {
                    let a = &mut s.a;
                    cx.lim(at_max, || if name == "insert_new" { a.insert_new(via, t, &mut seen) } else { a.insert_cyc(via, t, &mut seen) })?
                };
                match res {
                    Some(n) => {
                        chk!(cx, MAIN, seen.is_empty() || seen == [n], "closure got {seen:?}, result {n:?}");
                        s.add(cx, n, r)?;
                        if name != "insert_new" {
                            s.join(n, n);
                        }
                        s.post(cx, rng, Z, Cap::Ins, len0, 0, full)?;
                    }
                    None => {
                        s.b.cap = s.a.cap();
                        s.post(cx, rng, Z, Cap::Same, len0, C16, full)?;
                    }
                }
            }
            "insert" | "insert_with" => {
                let t = self.tok(rng);
                let r = t.rec();
                let (x, y) = match rng.n(8) {
                    0 => (None, None),
                    1 | 2 => (Some(p), None),
                    3 | 4 => (None, Some(p)),
                    _ => (Some(p), Some(q)),
                };
                // what it has to do
                let nx = x.map(|x| self.norm(i, x));
                let ny = y.map(|y| self.norm(i, y));
                let s = &mut self.s[i];
                let place: Option<(Option<P>, Option<P>)> = match (nx, ny) {
                    (None, None) => Some((None, None)),
                    (Some(Some(x)), None) => Some((Some(x), s.next.get(&x).copied())),
                    (None, Some(Some(y))) => Some((s.prev.get(&y).copied(), Some(y))),
                    (Some(Some(x)), Some(Some(y))) if s.next.get(&x) == Some(&y) => Some((Some(x), Some(y))),
                    _ => None,
                };
                let b = place.is_some() && at_max;
                let mut calls = vec![];
                let with = name == "insert_with";
                let res: Option<Result<P, Option<Tok>>> = {
                    let a = &mut s.a;
                    cx.lim(b, || {
                        if with {
                            a.insert_with(x, y, |p| {
                                calls.push(p);
                                tick(K_CLOSURE);
                                t
                            })
                            .ok_or(None)
                        } else {
                            a.insert(x, y, t).map_err(Some)
                        }
                    })?
                };
                match res {
                    None => {
                        s.b.cap = s.a.cap();
                        s.post(cx, rng, Z, Cap::Same, len0, C16, true)?;
                    }
                    Some(Ok(n)) => {
                        chk!(cx, MAIN | C01 | C17, place.is_some(), "insert at ({x:?}, {y:?}) worked");
                        if with {
                            chk!(cx, MAIN, calls == [n], "closure got {calls:?}, result {n:?}");
                        }
                        let (pr, ne) = place.unwrap();
                        s.add(cx, n, r)?;
                        if let Some(pr) = pr {
                            s.cut_next(pr);
                            s.join(pr, n);
                        }
                        if let Some(ne) = ne {
                            s.join(n, ne);
                        }
                        cx.ev(MAIN, "linked");
                        s.post(cx, rng, Z, Cap::Ins, len0, 0, full)?;
                    }
                    Some(Err(back)) => {
                        chk!(cx, MAIN | C01 | C17, place.is_none(), "insert at ({x:?}, {y:?}) failed");
                        if with {
                            chk!(cx, C17, calls.is_empty(), "the closure of a rejected insertion ran");
                        } else {
                            let back = back.unwrap();
                            chk!(cx, C17 | C08, same(&back, &r), "wrong value given back");
                        }
                        cx.ev(C17, "rejected_insertion");
                        s.post(cx, rng, Z, Cap::Same, len0, C17, true)?;
                    }
                }
            }
            "insert_start" | "insert_end" => {
                let t = self.tok(rng);
                let r = t.rec();
                let s = &mut self.s[i];
                let start = name == "insert_start";
                let ok = live_p && if start { !s.prev.contains_key(&p) } else { !s.next.contains_key(&p) };
                let b = ok && at_max;
                let res = {
                    let a = &mut s.a;
                    cx.lim(b, || if start { a.insert_start(p, t) } else { a.insert_end(p, t) })?
                };
                match res {
                    None => {
                        s.b.cap = s.a.cap();
                        s.post(cx, rng, Z, Cap::Same, len0, C16, true)?;
                    }
                    Some(Ok(n)) => {
                        chk!(cx, MAIN | C01 | C17, ok, "{name}({p:?}) worked");
                        s.add(cx, n, r)?;
                        if start {
                            s.join(n, p);
                        } else {
                            s.join(p, n);
                        }
                        s.post(cx, rng, Z, Cap::Ins, len0, 0, full)?;
                    }
                    Some(Err(t)) => {
                        chk!(cx, MAIN | C01 | C17, !ok, "{name}({p:?}) failed");
                        chk!(cx, C17 | C08, same(&t, &r), "wrong value given back");
                        drop(t);
                        cx.ev(C17, "rejected_insertion");
                        s.post(cx, rng, Z, Cap::Same, len0, C17, true)?;
                    }
                }
            }
            "remove" => {
                let s = &mut self.s[i];
                let via = rng.p(1, 4);
                let b = live_p && blocked;
                let res = {
                    let a = &mut s.a;
                    cx.lim(b, || a.remove(via, p))?
                };
                match res {
                    None => s.post(cx, rng, Z, Cap::Same, len0, C16, true)?,
                    Some(Some((l, t))) => {
                        chk!(cx, MAIN | C01, live_p, "remove({p:?}) of a dead Ptr worked");
                        chk!(cx, MAIN, s.lk_ok(p, l), "removed link has interlinks {l:?}, expected {:?}", s.lk(p));
                        let m = s.rem(p).unwrap();
                        chk!(cx, MAIN | C08 | C01, same(&t, &m), "remove({p:?}) gave {:?} not {m:?}", t.rec());
                        drop(t);
                        s.post(cx, rng, (1, 1), Cap::Same, len0, 0, full)?;
                    }
                    Some(None) => {
                        chk!(cx, MAIN | C01, !live_p, "remove({p:?}) of a live Ptr failed");
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, Cap::Same, len0, C17, true)?;
                    }
                }
            }
            "remove_chain" => {
                let s = &mut self.s[i];
                let b = live_p && blocked;
                let res = {
                    let a = &mut s.a;
                    cx.lim(b, || a.remove_chain(p))?
                };
                match res {
                    None => s.post(cx, rng, Z, Cap::Same, len0, C16, true)?,
                    Some(Some(n)) => {
                        chk!(cx, MAIN | C01, live_p, "remove_chain({p:?}) of a dead Ptr worked");
                        let c = s.chain_of(p);
                        chk!(cx, MAIN, n == c.len(), "remove_chain({p:?}) gave {n} for a chain of {}", c.len());
                        for x in c {
                            s.rem(x);
                        }
                        cx.ev(MAIN, "chain_removed");
                        s.post(cx, rng, (1, 1), Cap::Same, len0, 0, true)?;
                    }
                    Some(None) => {
                        chk!(cx, MAIN | C01, !live_p, "remove_chain({p:?}) of a live Ptr failed");
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, Cap::Same, len0, C17, true)?;
                    }
                }
            }
            "invalidate" => {
                let s = &mut self.s[i];
                let b = live_p && blocked;
                let res = {
                    let a = &mut s.a;
                    cx.lim(b, || a.invalidate(p))?
                };
                match res {
                    None => s.post(cx, rng, Z, Cap::Same, len0, C16, true)?,
                    Some(None) => {
                        chk!(cx, MAIN | C01, !live_p, "invalidate({p:?}) of a live Ptr failed");
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, Cap::Same, len0, C17, true)?;
                    }
                    Some(Some(n)) => {
                        chk!(cx, MAIN | C01, live_p, "invalidate({p:?}) of a dead Ptr worked");
                        let r = s.m.remove(p).unwrap();
                        s.b.kill(p);
                        s.add(cx, n, r)?;
                        s.rename(p, n);
                        s.post(cx, rng, (1, 1), Cap::Same, len0, 0, full)?;
                    }
                }
            }
            "replace_keep" => {
                let t = self.tok(rng);
                let r = t.rec();
                let s = &mut self.s[i];
                match s.a.replace_keep(p, t) {
                    Ok(old) => {
                        chk!(cx, MAIN | C01, live_p, "replace on dead {p:?} worked");
                        let m = s.m.get_mut(p).unwrap();
                        chk!(cx, MAIN | C08, same(&old, m), "replaced value {:?} not {m:?}", old.rec());
                        *m = r;
                        drop(old);
                        s.post(cx, rng, Z, Cap::Same, len0, 0, full)?;
                    }
                    Err(t) => {
                        chk!(cx, MAIN | C01, !live_p, "replace on live {p:?} failed");
                        chk!(cx, C17 | C08, same(&t, &r), "wrong value given back");
                        drop(t);
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, Cap::Same, len0, C17, true)?;
                    }
                }
            }
            "replace_update" => {
                let t = self.tok(rng);
                let r = t.rec();
                let s = &mut self.s[i];
                let b = live_p && blocked;
                let res = {
                    let a = &mut s.a;
                    cx.lim(b, || a.replace_update(p, t))?
                };
                match res {
                    None => s.post(cx, rng, Z, Cap::Same, len0, C16, true)?,
                    Some(Ok((old, n))) => {
                        chk!(cx, MAIN | C01, live_p, "replace on dead {p:?} worked");
                        let m = s.m.remove(p).unwrap();
                        s.b.kill(p);
                        chk!(cx, MAIN | C08, same(&old, &m), "replaced value {:?} not {m:?}", old.rec());
                        drop(old);
                        s.add(cx, n, r)?;
                        s.rename(p, n);
                        s.post(cx, rng, (1, 1), Cap::Same, len0, 0, full)?;
                    }
                    Some(Err(t)) => {
                        chk!(cx, MAIN | C01, !live_p, "replace on live {p:?} failed");
                        chk!(cx, C17 | C08, same(&t, &r), "wrong value given back");
                        drop(t);
                        cx.ev(C17, "rejected");
                        s.post(cx, rng, Z, Cap::Same, len0, C17, true)?;
                    }
                }
            }
            "swap" => {
                let s = &mut self.s[i];
                let res = s.a.swap(p, q);
                let ok = live_p && live_q;
                chk!(cx, MAIN | C01 | C17, res.is_some() == ok, "swap({p:?}, {q:?}) gives {res:?}");
                if ok {
                    let x = *s.m.get(p).unwrap();
                    let y = *s.m.get(q).unwrap();
                    *s.m.get_mut(p).unwrap() = y;
                    *s.m.get_mut(q).unwrap() = x;
                } else {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, Z, Cap::Same, len0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "connect" => {
                // favour ends
                let (mut p, mut q) = (p, q);
                if rng.p(2, 3) && len0 > 0 {
                    let s = &self.s[i];
                    for _ in 0..4 {
                        let x = *rng.pick(&s.m.order);
                        if !s.next.contains_key(&x) {
                            p = x;
                        }
                        if !s.prev.contains_key(&x) {
                            q = x;
                        }
                    }
                }
                let s = &mut self.s[i];
                let ok = s.m.has(p) && s.m.has(q) && !s.next.contains_key(&p) && !s.prev.contains_key(&q);
                let res = s.a.connect(p, q);
                chk!(cx, MAIN | C01 | C17, res.is_some() == ok, "connect({p:?}, {q:?}) gives {res:?}");
                if ok {
                    s.join(p, q);
                    cx.ev(MAIN, "linked");
                } else {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, Z, Cap::Same, len0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "break_prev" | "break_next" => {
                let s = &mut self.s[i];
                let (ok, res) = if name == "break_prev" {
                    (live_p && s.prev.contains_key(&p), s.a.break_prev(p))
                } else {
                    (live_p && s.next.contains_key(&p), s.a.break_next(p))
                };
                chk!(cx, MAIN | C01 | C17, res.is_some() == ok, "{name}({p:?}) gives {res:?}");
                if ok {
                    let x = if name == "break_prev" { s.prev[&p] } else { p };
                    s.cut_next(x);
                    cx.ev(MAIN, "unlinked");
                } else {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, Z, Cap::Same, len0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "exchange_next" => {
                let s = &mut self.s[i];
                let ok = live_p && live_q && s.next.contains_key(&p) && s.next.contains_key(&q);
                let res = s.a.exchange_next(p, q);
                chk!(cx, MAIN | C01 | C17, res.is_some() == ok, "exchange_next({p:?}, {q:?}) gives {res:?}");
                if ok {
                    let (x, y) = (s.next[&p], s.next[&q]);
                    s.join(p, y);
                    s.join(q, x);
                    if p == q {
                        s.join(p, x);
                    }
                    cx.ev(MAIN, "exchanged");
                } else {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, Z, Cap::Same, len0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "get_mut" => {
                let s = &mut self.s[i];
                let via = rng.n(3);
                let want = s.lk(p);
                let r = s.a.link_mut(via, p);
                chk!(cx, MAIN | C01, r.is_some() == live_p, "get_mut({p:?}) is_some {}", r.is_some());
                if let Some((l, t)) = r {
                    let m = s.m.get_mut(p).unwrap();
                    chk!(cx, MAIN | C01, same(t, m), "get_mut({p:?}) gives {:?} not {m:?}", t.rec());
                    if let Some(l) = l {
                        chk!(cx, MAIN, il(l.0, want.0) && il(l.1, want.1), "get_link_mut({p:?}) has interlinks {l:?} not {want:?}");
                    }
                    t.mark += 1;
                    m.mark += 1;
                }
                s.post(cx, rng, Z, Cap::Same, len0, 0, full)?;
            }
            "get2_mut" => {
                let s = &mut self.s[i];
                let ok = live_p && live_q && p != q;
                let via = rng.n(2);
                let (wp, wq) = (s.lk(p), s.lk(q));
                let r = s.a.link2_mut(via, p, q);
                chk!(cx, MAIN | C01 | C09 | C17, r.is_some() == ok, "get2_mut({p:?}, {q:?}) is_some {}", r.is_some());
                if let Some((l, x, y)) = r {
                    chk!(cx, C09 | MAIN, !std::ptr::eq(x, y), "get2_mut({p:?}, {q:?}) aliases");
                    let (mx, my) = (s.m.get(p).unwrap(), s.m.get(q).unwrap());
                    chk!(cx, MAIN | C01, same(x, mx) && same(y, my), "get2_mut gives {:?} {:?} not {mx:?} {my:?}", x.rec(), y.rec());
                    if let Some((l, k)) = l {
                        chk!(cx, MAIN, il(l.0, wp.0) && il(l.1, wp.1) && il(k.0, wq.0) && il(k.1, wq.1), "get2_link_mut has wrong interlinks");
                    }
                    x.mark += 1;
                    y.mark += 2;
                    s.m.get_mut(p).unwrap().mark += 1;
                    s.m.get_mut(q).unwrap().mark += 2;
                } else {
                    cx.ev(C17, "rejected");
                }
                s.post(cx, rng, Z, Cap::Same, len0, if ok { 0 } else { C17 }, full || !ok)?;
            }
            "index" => {
                let s = &mut self.s[i];
                let r = {
                    let a = &mut s.a;
                    catch(|| a.index(p))
                };
                chk!(cx, MAIN | C01, r.is_ok() == live_p, "indexing with {p:?} is_ok {}", r.is_ok());
                if let Ok(x) = r {
                    let m = s.m.get_mut(p).unwrap();
                    chk!(cx, MAIN | C01, x == *m, "indexing {p:?} gives {x:?} not {m:?}");
                    m.mark += 1;
                }
                s.post(cx, rng, Z, Cap::Same, len0, 0, full)?;
            }
            "neighbors" => {
                let s = &self.s[i];
                let want = live_p && live_q && s.next.get(&p) == Some(&q);
                chk!(cx, MAIN | C01, s.a.are_neighbors(p, q) == want, "are_neighbors({p:?}, {q:?}) is {}", !want);
                let want = live_p && live_q && s.next.get(&q) == Some(&p);
                chk!(cx, MAIN | C01, s.a.are_neighbors(q, p) == want, "are_neighbors({q:?}, {p:?}) is {}", !want);
                if let Some(got) = s.a.neighbors_inx(p, q) {
                    let at = |p: P| s.m.order.iter().copied().find(|x| x.i() == p.i());
                    let want = match (at(p), at(q)) {
                        (Some(p), Some(q)) => s.next.get(&p) == Some(&q),
                        _ => false,
                    };
                    chk!(cx, MAIN, got == want, "are_neighbors_inx({p:?}, {q:?}) is {got}");
                }
                // links by themselves
                let (x, y) = (if rng.p(1, 4) { None } else { Some(p) }, if rng.p(1, 4) { None } else { Some(q) });
                let v = rng.n(9);
                let l = Link::new((x, y), v);
                chk!(cx, MAIN, l.prev() == x && l.next() == y && l.prev_next() == (x, y) && l.t == v, "Link::new(({x:?}, {y:?}), {v}) is {l:?}");
                let n = LinkNoGen::from_link(l);
                let (xi, yi) = (x.map(|p| p.inx()), y.map(|p| p.inx()));
                chk!(cx, MAIN, n.prev() == xi && n.next() == yi && n.prev_next() == (xi, yi) && n.t == v, "LinkNoGen::from_link({l:?}) is {n:?}");
                chk!(cx, MAIN, n == LinkNoGen::new((xi, yi), v) && l == Link::new((x, y), v), "link differs from itself");
            }
            "mut_iters" => {
                let s = &mut self.s[i];
                let via = rng.n(3);
                let mut v = s.a.all_mut(via);
                chk!(cx, C11 | MAIN, v.len() == len0, "mutable iteration yields {} of {len0}", v.len());
                for (_, _, t) in v.iter_mut() {
                    t.mark += 1;
                }
                let got: Vec<(Option<P>, LK, TR)> = v.iter().map(|(p, l, t)| (*p, *l, t.rec())).collect();
                for p in s.m.order.clone() {
                    s.m.get_mut(p).unwrap().mark += 1;
                }
                let mut ids = HSet::default();
                for (p, l, r) in got {
                    chk!(cx, C11 | C09, ids.insert(r.id), "mutable iteration yields value {} twice", r.id);
                    if let Some(p) = p {
                        chk!(cx, C11 | C01, s.m.get(p) == Some(&r) && s.lk_ok(p, l), "mutable iteration: {p:?} with {r:?} {l:?}, model {:?}", s.m.get(p));
                    }
                }
                cx.ev(C11, "mutable_iteration");
                s.post(cx, rng, Z, Cap::Same, len0, C11, true)?;
            }
            "iters" => {
                let s = &self.s[i];
                let via = rng.n(4);
                let v = s.a.all(via);
                chk!(cx, C11 | MAIN, v.len() == len0, "iterator {via} yields {} of {len0}", v.len());
                let (mut ps, mut ids) = (HSet::default(), HSet::default());
                let want: HSet<u64> = s.m.order.iter().map(|p| s.m.get(*p).unwrap().id).collect();
                for (p, r) in v {
                    if let Some(p) = p {
                        chk!(cx, C11 | C01, ps.insert(p) && s.m.has(p), "iterator {via} yields {p:?} twice or stale");
                        if let Some((l, t)) = r {
                            chk!(cx, C11, s.m.get(p) == Some(&t.rec()) && s.lk_ok(p, l), "iterator {via} pairs {p:?} with {:?} {l:?}", t.rec());
                        }
                    }
                    if let Some((_, t)) = r {
                        chk!(cx, C11, ids.insert(t.id) && want.contains(&t.id), "iterator {via} yields value {:?} twice or stale", t.rec());
                    }
                }
                cx.ev(C11, "iteration");
                cx.poll()?;
            }
            "iter_chain" => {
                let start = self.norm(i, p);
                let s = &self.s[i];
                let got = s.a.chain(p);
                let want: HSet<P> = start.map(|p| s.chain_of(p).into_iter().collect()).unwrap_or_default();
                let mut ps = HSet::default();
                for (p, l, r) in &got {
                    chk!(cx, C11 | C10 | MAIN | C01, ps.insert(*p) && want.contains(p), "iter_chain from {start:?} yields {p:?} twice or from elsewhere");
                    chk!(cx, C11 | MAIN, s.m.get(*p) == Some(r) && s.lk_ok(*p, *l), "iter_chain pairs {p:?} with {r:?} {l:?}");
                }
                chk!(cx, C11 | C10 | MAIN, ps.len() == want.len(), "iter_chain from {p:?} yields {} of {} links", ps.len(), want.len());
                if want.len() > 1 {
                    cx.ev(C11 | C10, "chain_iteration");
                }
                cx.poll()?;
            }
            "clear" | "clear_and_shrink" => {
                let s = &mut self.s[i];
                let shrink = name == "clear_and_shrink";
                let via = rng.p(3, 4);
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || if shrink { a.clear_and_shrink(via) } else { a.clear(via) })?
                };
                if r.is_none() {
                    return s.post(cx, rng, Z, Cap::Same, len0, C16, true)
                }
                s.kill_all();
                cx.ev(C18, "cleared");
                s.post(cx, rng, (1, 1), if shrink { Cap::Exact(0) } else { Cap::Same }, len0, 0, true)?;
            }
            "compress" => {
                let s = &mut self.s[i];
                let mut got: Vec<(P, TR, P)> = vec![];
                let with = rng.p(4, 5);
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || {
                        if with {
                            a.compress_with(|p, t, n| {
                                got.push((p, t.rec(), n));
                                tick(K_CLOSURE);
                                t.mark += 1;
                            })
                        } else {
                            a.compress();
                        }
                    })?
                };
                if r.is_none() {
                    chk!(cx, C16, got.is_empty(), "callback ran before the limit panic");
                    return s.post(cx, rng, Z, Cap::Same, len0, C16, true)
                }
                cx.taint |= C13;
                cx.ev(C13, "compression");
                if len0 < s.b.cap {
                    cx.ev(C13, "compression_with_holes");
                }
                let old = s.m.clone();
                let (on, chains) = {
                    let mut c: HMap<P, usize> = HMap::default();
                    for (k, p) in old.order.iter().enumerate() {
                        if !c.contains_key(p) {
                            for x in s.chain_of(*p) {
                                c.insert(x, k);
                            }
                        }
                    }
                    (s.next.clone(), c)
                };
                s.kill_all();
                if !with {
                    let byid: HMap<u64, P> = old.order.iter().map(|p| (old.get(*p).unwrap().id, *p)).collect();
                    for (n, x) in s.a.all(0) {
                        let t = x.unwrap().1;
                        match byid.get(&t.id) {
                            Some(p) => got.push((*p, t.rec(), n.unwrap())),
                            None => chk!(cx, C13, false, "unknown value {:?} after compression", t.rec()),
                        }
                    }
                }
                let mut to: HMap<P, P> = HMap::default();
                chk!(cx, C13, got.len() == len0, "compression reported {} of {len0} entries", got.len());
                for (p, r, n) in &got {
                    chk!(cx, C13, to.insert(*p, *n).is_none(), "compression reported {p:?} twice");
                    match old.get(*p) {
                        Some(m) => chk!(cx, C13, m == r, "compression: {p:?} had {r:?}, model {m:?}"),
                        None => chk!(cx, C13, false, "compression reported {p:?}, which was not valid"),
                    }
                    let mut r = *r;
                    r.mark += with as u64;
                    s.add(cx, *n, r)?;
                }
                for (x, y) in on {
                    s.join(to[&x], to[&y]);
                }
                // chains one after the other, in the callback and in iteration
                let back: HMap<P, P> = to.iter().map(|(x, y)| (*y, *x)).collect();
                let iter_order: Vec<P> = s.a.all(1).into_iter().filter_map(|x| x.0).collect();
                for (what, seq) in [("callback", got.iter().map(|x| x.0).collect::<Vec<_>>()), ("iteration", iter_order.iter().filter_map(|p| back.get(p).copied()).collect())] {
                    let mut done: HSet<usize> = HSet::default();
                    let mut last = usize::MAX;
                    for p in seq {
                        let c = chains[&p];
                        if c != last {
                            chk!(cx, C13, done.insert(c), "chains are not contiguous in {what} order after compression");
                            last = c;
                        }
                    }
                }
                s.post(cx, rng, (1, 1), Cap::Exact(len0), len0, C13, true)?;
            }
            "recast" => self.recast(cx, rng, i)?,
            "reserve" => {
                let s = &mut self.s[i];
                let n = if P::INX_MAX <= 65535 && rng.p(1, 3) {
                    let room = P::INX_MAX as usize - s.b.cap;
                    (room + 1).saturating_sub(rng.n(4)).min(300)
                } else {
                    rng.n(9)
                };
                let must = (len0 + n) as u128 > P::INX_MAX;
                let may = (s.b.cap + n) as u128 > P::INX_MAX;
                let r = {
                    let a = &mut s.a;
                    if must || !may {
                        cx.lim(must, || a.reserve(n))?.is_some()
                    } else {
                        catch(|| a.reserve(n)).is_ok()
                    }
                };
                if !r {
                    s.b.cap = s.a.cap();
                    s.post(cx, rng, Z, Cap::Same, len0, C16, true)?;
                } else {
                    cx.ev(C18, "reserved");
                    let c = Cap::Range(s.b.cap.max(len0 + n), s.b.cap + n);
                    s.post(cx, rng, Z, c, len0, 0, full)?;
                }
            }
            "clone" | "clone_from" | "clone_from_with" => self.clone_op(cx, rng, i, o, name)?,
            "clone_to" => {
                let s = &self.s[i];
                let salt = rng.u();
                let mut seen: Vec<(P, LK, TR)> = vec![];
                let a = s.a.to_arena(|p, l, t| {
                    seen.push((p, l, t.rec()));
                    t.id ^ salt
                });
                chk!(cx, C12, seen.len() == len0 && a.len() == len0, "clone_to_arena: mapped {} of {len0}, has {}", seen.len(), a.len());
                for (p, l, r) in seen {
                    chk!(cx, C12, s.m.get(p) == Some(&r) && s.lk_ok(p, l), "clone_to_arena mapped {p:?} {r:?} {l:?}");
                    chk!(cx, C12 | C01, a.get(p) == Some(&(r.id ^ salt)), "clone_to_arena: {p:?} gives {:?}", a.get(p));
                }
                for d in s.b.dead.iter().rev().take(4) {
                    chk!(cx, C12 | C01, a.contains(*d) == s.m.has(*d), "clone_to_arena: validity of {d:?}");
                }
                cx.ev(C12, "converted");
                cx.poll()?;
            }
            "from_arena" => {
                let s = &self.s[i];
                let r = s.a.via_arena(None);
                match r {
                    Ok(c) => chk!(cx, C12 | C03, c == s.a, "from_arena of the links of an arena gives a different arena"),
                    Err(e) => chk!(cx, C12 | C03, false, "from_arena of the links of an arena failed: {e}"),
                }
                if len0 > 0 {
                    // one link with other interlinks
                    let x = *rng.pick(&s.m.order);
                    let y = *rng.pick(&s.m.order);
                    let (l, _) = s.a.link(x).unwrap();
                    let yi: IL = match rng.n(4) {
                        0 => None,
                        1 => Some((s.b.cap + 1 + rng.n(2), Some(s.b.gen))),
                        2 if P::HG && !A::NG => Some((y.i(), Some(y.g() + 1))),
                        _ => Some((y.i(), if A::NG { None } else { Some(y.g()) })),
                    };
                    if yi.map(|x| x.0 as u128 > P::INX_MAX).unwrap_or(false) || yi.and_then(|x| x.1).map(|g| g > P::GEN_MAX).unwrap_or(false) {
                        return Ok(())
                    }
                    let bad = if rng.p(1, 2) { (yi, l.1) } else { (l.0, yi) };
                    if bad != l {
                        let r = s.a.via_arena(Some((x, bad)));
                        // a one-sided change always breaks mutuality, except if a link points to
                        // itself on both sides afterwards
                        let fine = {
                            let mut t: HMap<P, (Option<P>, Option<P>)> = s.m.order.iter().map(|p| (*p, s.lk(*p))).collect();
                            let res = |v: IL| -> Result<Option<P>, ()> {
                                match v {
                                    None => Ok(None),
                                    Some((i, g)) => s.m.order.iter().copied().find(|p| p.i() == i && g.map(|g| g == p.g()).unwrap_or(true)).map(Some).ok_or(()),
                                }
                            };
                            match (res(bad.0), res(bad.1)) {
                                (Ok(x0), Ok(x1)) => {
                                    t.insert(x, (x0, x1));
                                    t.iter().all(|(p, (a, b))| a.map(|a| t[&a].1 == Some(*p)).unwrap_or(true) && b.map(|b| t[&b].0 == Some(*p)).unwrap_or(true))
                                }
                                _ => false,
                            }
                        };
                        chk!(cx, C03 | C15, r.is_ok() == fine, "from_arena with {x:?} having interlinks {bad:?} is_ok {}", r.is_ok());
                        cx.ev(C15 | C03, "inconsistent_links_given");
                    }
                }
                cx.poll()?;
            }
            "eq" => self.eq_op(cx, rng, i, o)?,
            "drain" => {
                if blocked && len0 == 0 {
                    return Ok(())
                }
                let s = &mut self.s[i];
                let take = if rng.p(1, 2) { usize::MAX } else { rng.n(len0 + 1) };
                let mut got = vec![];
                let r = {
                    let a = &mut s.a;
                    cx.lim(blocked, || a.drain(take, &mut got))?
                };
                if r.is_none() {
                    return s.post(cx, rng, Z, Cap::Same, len0, C16, true)
                }
                cx.taint |= C11;
                cx.ev(C11, if take == usize::MAX { "full_drain" } else { "partial_drain" });
                chk!(cx, C11, got.len() == take.min(len0), "drain yields {} of {}", got.len(), take.min(len0));
                let mut ps = HSet::default();
                for (p, _, t) in &got {
                    chk!(cx, C11 | C08, ps.insert(*p), "drain yields {p:?} twice");
                    chk!(cx, C11 | C08 | C01, s.m.get(*p).map(|r| same(t, r)) == Some(true), "drain yields {p:?} with {:?}, model {:?}", t.rec(), s.m.get(*p));
                }
                drop(got);
                s.kill_all();
                s.post(cx, rng, if len0 == 0 { (0, 1) } else { (1, 1 + len0 as u128) }, Cap::Same, len0, C11, true)?;
            }
            "into_iter" => {
                let take = if rng.p(1, 2) { usize::MAX - rng.n(2) } else { rng.n(len0 + 1) };
                let s = &mut self.s[i];
                let a = std::mem::replace(&mut s.a, A::new());
                let got = a.into(take);
                chk!(cx, C11, got.len() == take.min(len0), "by-value iteration yields {} of {}", got.len(), take.min(len0));
                let mut ps = HSet::default();
                for (p, _, t) in &got {
                    chk!(cx, C11 | C08, ps.insert(*p), "by-value iteration yields {p:?} twice");
                    chk!(cx, C11 | C08 | C01, s.m.get(*p).map(|r| same(t, r)) == Some(true), "by-value iteration yields {p:?} with {:?}, model {:?}", t.rec(), s.m.get(*p));
                }
                cx.ev(C11, "by_value_iteration");
                *s = S {
                    a: A::new(),
                    m: Live::new(),
                    next: HMap::default(),
                    prev: HMap::default(),
                    b: Book::new(MAIN),
                };
                let n = got.len();
                let recs: HMap<u64, TR> = got.iter().map(|(_, _, t)| (t.id, t.rec())).collect();
                s.a = A::from_toks(rng, got.into_iter().map(|x| x.2).collect());
                chk!(cx, C11 | MAIN, s.a.len() == n, "from_iter has {} of {n}", s.a.len());
                let items: Vec<(P, TR)> = s.a.all(0).into_iter().map(|(p, x)| (p.unwrap(), x.unwrap().1.rec())).collect();
                for (p, r) in items {
                    chk!(cx, C11 | MAIN, recs.get(&r.id) == Some(&r), "from_iter holds {r:?}");
                    s.add(cx, p, r)?;
                }
                s.b.cap = s.a.cap();
                s.post(cx, rng, Z, Cap::Range(n, (4 * n).max(64)), n, 0, true)?;
            }
            "advance" | "advance_chain" => {
                if !self.in_body {
                    self.in_body = true;
                    let r = self.advance(cx, rng, i, if name == "advance" { None } else { Some(p) });
                    self.in_body = false;
                    r?;
                }
            }
            "burn" => {
                let n = burn_count::<P>(cx, rng, self.s[i].b.gen);
                let s = &mut self.s[i];
                if let Some(p0) = s.m.order.first().copied() {
                    let mut p = p0;
                    let r = s.m.remove(p).unwrap();
                    s.b.kill(p);
                    for _ in 0..n {
                        if P::HG && s.b.gen == P::GEN_MAX {
                            break
                        }
                        match s.a.invalidate(p) {
                            Some(n) => {
                                let g = s.a.gn();
                                chk!(cx, C23 | C16, !P::HG || g == s.b.gen + 1, "generation {} to {g}", s.b.gen);
                                s.b.gen = g;
                                s.b.issue(cx, n, false, g)?;
                                p = n;
                                s.b.kill(p);
                            }
                            None => chk!(cx, MAIN | C16 | C01, false, "invalidate of live {p:?} failed"),
                        }
                    }
                    s.b.dead.pop();
                    s.m.insert(p, r);
                    s.rename(p0, p);
                    if s.b.blocked() {
                        cx.ev(C16, "generation_limit_reached");
                    }
                }
                s.post(cx, rng, Z, Cap::Same, len0, 0, true)?;
            }
            "fill" => {
                if P::INX_MAX > 65535 || (P::INX_MAX > 255 && (cx.miri || !rng.p(1, 25))) {
                    return Ok(())
                }
                let leave = if rng.p(2, 3) { 0 } else { rng.n(3) };
                let mut last: Option<P> = None;
                while (self.s[i].m.len() as u128) < P::INX_MAX - leave as u128 {
                    let t = self.tok(rng);
                    let r = t.rec();
                    let s = &mut self.s[i];
                    let l0 = s.m.len();
                    let n = match (last, rng.n(4)) {
                        (Some(l), 1..) => match s.a.insert(Some(l), None, t) {
                            Ok(n) => {
                                s.join(l, n);
                                n
                            }
                            Err(_) => {
                                chk!(cx, MAIN | C16, false, "insert after {l:?} failed");
                                unreachable!()
                            }
                        },
                        _ => s.a.insert_new(rng.n(3), t, &mut vec![]),
                    };
                    s.add(cx, n, r)?;
                    last = Some(n);
                    s.post(cx, rng, Z, Cap::Ins, l0, 0, false)?;
                }
                cx.ev(C16, "index_limit_reached");
                self.s[i].full(cx, rng, 0)?;
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    fn clone_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, o: usize, name: &str) -> R {
        let salt = rng.n(5) as u64;
        let len = self.s[i].m.len();
        cx.taint |= C12;
        cx.ev(C12, "clone");
        let mut got: Vec<(P, LK, TR)> = vec![];
        let mapped = name == "clone_from_with";
        let fresh = name == "clone" || i == o;
        let di;
        if fresh {
            let src = &self.s[i].a;
            let a = if mapped {
                let mut a = A::new();
                a.clone_from_with(src, |p, l, t| {
                    tick(K_CLOSURE);
                    got.push((p, l, t.rec()));
                    Tok::new(t.val + salt)
                });
                a
            } else {
                src.clone()
            };
            let s = S {
                a,
                m: Live::new(),
                next: HMap::default(),
                prev: HMap::default(),
                b: Book::new(MAIN),
            };
            if self.s.len() < 3 {
                self.s.push(s);
                di = self.s.len() - 1;
            } else {
                di = if o == i { (i + 1) % self.s.len() } else { o };
                self.s[di] = s;
            }
        } else {
            cx.ev(C12, "clone_into_existing");
            di = o;
            let (s, d) = two(&mut self.s, i, o);
            if mapped {
                d.a.clone_from_with(&s.a, |p, l, t| {
                    tick(K_CLOSURE);
                    got.push((p, l, t.rec()));
                    Tok::new(t.val + salt)
                });
            } else {
                d.a.clone_from(&s.a);
            }
        }
        if mapped {
            let s = &self.s[i];
            let mut ps = HSet::default();
            chk!(cx, C12, got.len() == len, "the mapping ran {} times for {len} links", got.len());
            for (p, l, r) in &got {
                chk!(cx, C12, ps.insert(*p) && s.m.get(*p) == Some(r) && s.lk_ok(*p, *l), "the mapping got {p:?} {r:?} {l:?}, model {:?}", s.m.get(*p));
            }
        }
        let (s, d) = two(&mut self.s, i, di);
        let (sc, dc) = (s.b.cap, d.b.cap);
        d.m.clear();
        d.next = s.next.clone();
        d.prev = s.prev.clone();
        d.b.adopt_clone(&s.b);
        for p in s.m.order.clone() {
            let r = *s.m.get(p).unwrap();
            match d.a.get(0, p) {
                Some(t) => {
                    let ok = if mapped { t.val == r.val + salt } else { t.val == r.val && t.mark == r.mark && reg_parent(t.id) == r.id };
                    chk!(cx, C12 | C01, ok && t.ok(), "image of {p:?} is {:?} (clone of {}), source {r:?}", t.rec(), reg_parent(t.id) as i64);
                    d.m.insert(p, t.rec());
                }
                None => chk!(cx, C12 | C01, false, "{p:?} is not valid in the clone"),
            }
        }
        d.post(cx, rng, (0, 0), if fresh { Cap::Range(len, sc.max(len)) } else { Cap::Range(len.max(dc), sc.max(dc)) }, len, C12, true)?;
        s.post(cx, rng, (0, 0), Cap::Same, len, C12, true)
    }

    fn eq_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, o: usize) -> R {
        let s = &self.s[i];
        let mut c = s.a.clone();
        chk!(cx, C19 | C12, s.a == c && c == s.a, "an arena is not equal to its clone");
        let room = !s.b.blocked();
        let mut expect = true;
        let kind = rng.n(9);
        let any = |rng: &mut Rng| *rng.pick(&s.m.order);
        match kind {
            0 => c.reserve(if (s.b.cap as u128 + 3) < P::INX_MAX { 3 } else { 0 }),
            1 if s.m.len() > 0 => {
                let p = any(rng);
                c.link_mut(0, p).unwrap().1.val += 1;
                expect = false;
            }
            2 if s.m.len() > 0 && room => {
                c.remove(false, any(rng));
                expect = false;
            }
            3 if s.m.len() > 0 && room => {
                let p = any(rng);
                expect = c.invalidate(p).unwrap() == p;
            }
            4 if s.m.len() > 1 => {
                let (p, q) = (any(rng), any(rng));
                expect = c.get(0, p) == c.get(0, q);
                c.swap(p, q);
            }
            // only the relations differ
            5 if s.m.len() > 0 => {
                expect = c.break_next(any(rng)).is_none();
            }
            6 if s.m.len() > 0 => {
                let (p, q) = (any(rng), any(rng));
                expect = c.connect(p, q).is_none();
            }
            7 if s.m.len() > 0 => {
                let (p, q) = (any(rng), any(rng));
                expect = c.exchange_next(p, q).is_none() || p == q;
            }
            _ => (),
        }
        cx.ev(C19, if expect { "equal_pair" } else { "near_identical_pair" });
        chk!(cx, C19, (s.a == c) == expect, "equality with a copy (variation {kind}) is {} but should be {expect}", s.a == c);
        chk!(cx, C19, (c == s.a) == expect, "reverse equality with a copy (variation {kind}) is {}", c == s.a);
        let d = &self.s[o];
        let want = s.m.len() == d.m.len()
            && s.m.order.iter().all(|p| match (s.m.get(*p), d.m.get(*p)) {
                (Some(x), Some(y)) => x.val == y.val && x.mark == y.mark && {
                    let ((a, b), (c, e)) = (s.lk(*p), d.lk(*p));
                    if A::NG {
                        a.map(|p| p.i()) == c.map(|p| p.i()) && b.map(|p| p.i()) == e.map(|p| p.i())
                    } else {
                        a == c && b == e
                    }
                },
                _ => false,
            });
        chk!(cx, C19, (s.a == d.a) == want && (d.a == s.a) == want, "equality of two arenas is {} / {} but should be {want}", s.a == d.a, d.a == s.a);
        cx.poll()
    }

    fn recast(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize) -> R {
        let s = &self.s[i];
        if s.b.blocked() {
            return Ok(())
        }
        let order = &s.m.order;
        let mut lists: HMap<P, Vec<P>> = HMap::default();
        let mut g = s.a.graph(|p| {
            let v: Vec<P> = (0..rng.n(3)).map(|_| *rng.pick(order)).collect();
            lists.insert(p, v.clone());
            v
        });
        let rec = A::graph_recaster(&mut g);
        chk!(cx, C13, rec.len() == s.m.len(), "recaster has {} of {} entries", rec.len(), s.m.len());
        for p in order {
            match rec.get(*p) {
                Some(n) => match A::graph_get(&g, *n) {
                    Some((val, _, l)) => {
                        chk!(cx, C13, val == s.m.get(*p).unwrap().id, "recaster maps {p:?} to {n:?}, another element");
                        let (a, b) = s.lk(*p);
                        let m = |x: Option<P>| x.and_then(|x| rec.get(x).copied());
                        chk!(cx, C13, il(l.0, m(a)) && il(l.1, m(b)), "interlinks of {n:?} after compression are {l:?}");
                    }
                    None => chk!(cx, C13, false, "recaster maps {p:?} to {n:?}, which is invalid"),
                },
                None => chk!(cx, C13, false, "recaster does not know {p:?}"),
            }
        }
        cx.ev(C13, "recast");
        let bad = if rng.p(1, 3) && P::HG { s.b.dead.last().copied().filter(|p| !s.m.has(*p)) } else { None };
        let at = A::graph_ptrs(&g).first().copied();
        if let (Some(bad), Some(at)) = (bad, at) {
            A::graph_push(&mut g, at, bad);
            let r = A::graph_recast(&mut g, &rec);
            chk!(cx, C13, r == Err(bad), "recasting an unknown {bad:?} gives {r:?}");
            cx.ev(C13, "recast_unknown_ptr");
        } else {
            let r = A::graph_recast(&mut g, &rec);
            chk!(cx, C13, r.is_ok(), "recast failed with {r:?}");
            for p in order {
                let n = *rec.get(*p).unwrap();
                let got = A::graph_get(&g, n).unwrap().1.clone();
                let want: Vec<P> = lists[p].iter().map(|x| *rec.get(*x).unwrap()).collect();
                chk!(cx, C13, got == want, "recast Ptrs are {got:?} instead of {want:?}");
            }
            // links recast their interlinks as well
            if !A::NG {
                let ends = (order.first().copied().filter(|_| rng.p(2, 3)), order.last().copied().filter(|_| rng.p(2, 3)));
                let held: Vec<P> = (0..rng.n(3)).filter_map(|_| order.get(rng.n(order.len().max(1))).copied()).collect();
                let mut l: Link<P, Held<P>> = Link::new(ends, Held(held.clone()));
                struct Rc<'a, P: TP>(&'a Arena<P, P>);
                impl<P: TP> Recaster for Rc<'_, P> {
                    type Item = P;

                    fn recast_item(&self, item: &mut P) -> Result<(), P> {
                        self.0.recast_item(item)
                    }
                }
                let r = LinkR(&mut l).recast(&Rc(&rec));
                let m = |x: Option<P>| x.and_then(|x| rec.get(x).copied());
                chk!(cx, C13, r.is_ok() && l.prev() == m(ends.0) && l.next() == m(ends.1), "recast of a link gives {:?}", l.prev_next());
                let want: Vec<P> = held.iter().map(|x| *rec.get(*x).unwrap()).collect();
                chk!(cx, C13, l.t.0 == want, "recast of a link with {held:?} gives {:?} instead of {want:?}", l.t.0);
                cx.ev(C13, "link_recast");
                if let Some(bad) = s.b.dead.last().copied().filter(|p| P::HG && !order.contains(p)) {
                    let mut l: Link<P, Held<P>> = match rng.n(3) {
                        0 => Link::new((Some(bad), None), Held(held)),
                        1 => Link::new((None, Some(bad)), Held(held)),
                        _ => Link::new(ends, Held(vec![bad])),
                    };
                    let r = LinkR(&mut l).recast(&Rc(&rec));
                    chk!(cx, C13, r == Err(bad), "recasting a link with the unknown {bad:?} gives {r:?}");
                }
            }
        }
        cx.poll()
    }

    fn advance(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, from: Option<P>) -> R {
        let start_p = from.and_then(|p| self.norm(i, p));
        let s = &self.s[i];
        let scope: Vec<P> = match (from, start_p) {
            (None, _) => s.m.order.clone(),
            (Some(_), Some(p)) => s.chain_of(p),
            (Some(_), None) => vec![],
        };
        let mut cont: HMap<P, u64> = scope.iter().map(|p| (*p, s.m.get(*p).unwrap().id)).collect();
        let chainset: HSet<P> = scope.iter().copied().collect();
        let mut adv: Box<dyn FnMut(&A) -> Option<P>> = match from {
            None => s.a.adv(),
            Some(p) => s.a.adv_chain(p),
        };
        let mut seen: HSet<(P, u64)> = HSet::default();
        let mut budget = rng.n(24);
        let mut steps = 0usize;
        let quiet = rng.p(1, 6);
        // what is being walked is changed as well, then only termination and validity are promised
        let wild = !quiet && from.is_some() && rng.p(1, 4);
        let mut calm = 0usize;
        let (start, issues0) = (if wild { s.m.len() } else { cont.len() }, s.b.issues);
        let key = |s: &S<P, A>, p: P| (p, if P::HG { 0 } else { s.m.get(p).unwrap().id });
        loop {
            let p = adv(&self.s[i].a);
            steps += 1;
            let Some(p) = p else { break };
            let s = &self.s[i];
            chk!(cx, C10 | C01, s.a.contains(p) && s.m.has(p), "advancer yields {p:?}, which is invalid");
            chk!(cx, C10, seen.insert(key(s, p)) || wild, "advancer yields the element of {p:?} twice");
            if from.is_some() && !wild {
                chk!(cx, C10 | C01, chainset.contains(&p), "chain advancer from {from:?} yields {p:?} of another chain");
            }
            cx.ev(C10, "advanced");
            let born = s.b.issues - issues0;
            calm += 1;
            if wild {
                chk!(cx, C10, calm <= start + born + 1, "advancer does not end, {calm} steps since the last modification");
            } else {
                chk!(cx, C10, steps <= start + born + 1, "advancer made {steps} steps with {start} elements at the start and {born} insertions");
            }
            if quiet {
                continue
            }
            let mut k = rng.n(3);
            while k > 0 && budget > 0 {
                k -= 1;
                budget -= 1;
                if wild && rng.p(1, 3) && start_p != Some(p) && self.s[i].m.has(p) {
                    // a cycle that the start is no longer part of
                    let s = &mut self.s[i];
                    let len0 = s.m.len();
                    cx.op(MAIN | C10, 4, || format!("cycle off the chain of {start_p:?} at {p:?}"));
                    if let Some(b) = s.prev.get(&p).copied() {
                        chk!(cx, MAIN, s.a.break_prev(p) == Some(()), "break_prev({p:?}) failed");
                        s.cut_next(b);
                    }
                    let end = *s.chain_of(p).last().unwrap();
                    if !s.next.contains_key(&end) && s.chain_of(p)[0] == p {
                        chk!(cx, MAIN, s.a.connect(end, p) == Some(()), "connect({end:?}, {p:?}) failed");
                        s.join(end, p);
                    }
                    s.post(cx, rng, (0, 0), Cap::Same, len0, 0, true)?;
                } else if from.is_none() || wild {
                    let op = *rng.pick(BODY);
                    if !P::HG && matches!(TAB[op].0, "swap" | "replace_update") {
                        continue
                    }
                    self.step(cx, rng, i, op, true)?;
                } else {
                    self.foreign_op(cx, rng, i, &chainset)?;
                }
                let s = &self.s[i];
                cont.retain(|p, id| s.m.get(*p).map(|r| P::HG || r.id == *id) == Some(true));
                calm = 0;
                cx.ev(C10, "mutation_during_advance");
            }
        }
        if wild {
            cx.ev(C10, "loop_over_changing_scope");
            return Ok(())
        }
        for (p, id) in &cont {
            chk!(cx, C10, seen.contains(&(*p, if P::HG { 0 } else { *id })), "{p:?} was valid during the whole loop but was not visited");
        }
        if start > 0 {
            cx.ev(C10, if from.is_some() { "complete_chain_loop" } else { "complete_loop" });
        }
        Ok(())
    }

    /// an operation that leaves the given chain alone
    fn foreign_op(&mut self, cx: &mut Cx, rng: &mut Rng, i: usize, chain: &HSet<P>) -> R {
        let t = self.tok(rng);
        let r = t.rec();
        let s = &mut self.s[i];
        let len0 = s.m.len();
        let others: Vec<P> = s.m.order.iter().copied().filter(|p| !chain.contains(p)).collect();
        cx.op(MAIN | C10, 3, || "operation on another chain".to_string());
        if others.is_empty() || rng.p(1, 2) {
            if len0 as u128 == P::INX_MAX {
                return Ok(())
            }
            let n = s.a.insert_new(0, t, &mut vec![]);
            s.add(cx, n, r)?;
            s.post(cx, rng, (0, 0), Cap::Ins, len0, 0, true)
        } else {
            drop(t);
            if s.b.blocked() {
                return Ok(())
            }
            let p = *rng.pick(&others);
            let res = s.a.remove(true, p);
            chk!(cx, MAIN, res.is_some(), "remove of live {p:?} failed");
            drop(res);
            s.rem(p);
            s.post(cx, rng, (1, 1), Cap::Same, len0, 0, true)
        }
    }
}

/// a value with `Ptr`s
struct Held<P>(Vec<P>);
impl<P: TP> Recast<P> for Held<P> {
    fn recast<R: Recaster<Item = P>>(&mut self, r: &R) -> Result<(), P> {
        self.0.iter_mut().try_for_each(|p| r.recast_item(p))
    }
}

struct LinkR<'a, P: TP>(&'a mut Link<P, Held<P>>);
impl<P: TP> LinkR<'_, P> {
    fn recast<R: Recaster<Item = P>>(&mut self, r: &R) -> Result<(), P> {
        self.0.recast(r)
    }
}

fn case<P: TP, A: CA<P>>(cx: &mut Cx, rng: &mut Rng) -> R {
    let mut w: W<P, A> = W::new(cx, rng)?;
    w.run(cx, rng)?;
    cx.op(C08 | C09, 1, || "drop all".to_string());
    drop(w);
    end_of_case(cx)
}

pub fn case_gen<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    case::<P, ChainArena<P, Tok>>(cx, rng)
}

pub fn case_nogen<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    case::<P, ChainNoGenArena<P, Tok>>(cx, rng)
}
