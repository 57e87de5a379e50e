//! Parts shared by the reference models of all arena types
use std::hash::Hash;

use crate::{cx::*, ptrs::TP, rng::Rng, tok::*};

/// Set of live `Ptr`s with what the model knows about each
#[derive(Clone)]
pub struct Live<P, V> {
    map: HMap<P, (usize, V)>,
    pub order: Vec<P>,
}

impl<P: Copy + Eq + Hash, V> Live<P, V> {
    pub fn new() -> Self {
        Live {
            map: HMap::default(),
            order: vec![],
        }
    }

    pub fn len(&self) -> usize {
        self.order.len()
    }

    pub fn has(&self, p: P) -> bool {
        self.map.contains_key(&p)
    }

    pub fn get(&self, p: P) -> Option<&V> {
        self.map.get(&p).map(|x| &x.1)
    }

    pub fn get_mut(&mut self, p: P) -> Option<&mut V> {
        self.map.get_mut(&p).map(|x| &mut x.1)
    }

    pub fn insert(&mut self, p: P, v: V) {
        let i = self.order.len();
        if let Some(old) = self.map.insert(p, (i, v)) {
            // keep the position
            self.map.get_mut(&p).unwrap().0 = old.0;
        } else {
            self.order.push(p);
        }
    }

    pub fn remove(&mut self, p: P) -> Option<V> {
        let (i, v) = self.map.remove(&p)?;
        self.order.swap_remove(i);
        if let Some(q) = self.order.get(i) {
            self.map.get_mut(q).unwrap().0 = i;
        }
        Some(v)
    }

    pub fn clear(&mut self) {
        self.map.clear();
        self.order.clear();
    }
}

/// What to expect of the capacity after an operation
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cap {
    Same,
    /// an insertion, may grow only if it was full
    Ins,
    Exact(usize),
    Range(usize, usize),
}

/// Handle bookkeeping of one arena
#[derive(Clone)]
pub struct Book<P> {
    pub issued: HSet<P>,
    pub dead: Vec<P>,
    pub gen: u128,
    pub cap: usize,
    pub ptag: Tags,
    /// number of `Ptr`s handed out
    pub issues: usize,
}

impl<P: TP> Book<P> {
    pub fn new(ptag: Tags) -> Self {
        Book {
            issued: HSet::default(),
            dead: vec![],
            gen: if P::HG { 2 } else { 0 },
            cap: 0,
            ptag,
            issues: 0,
        }
    }

    pub fn blocked(&self) -> bool {
        P::HG && self.gen == P::GEN_MAX
    }

    /// `p` was handed out as a new `Ptr`
    pub fn issue(&mut self, cx: &mut Cx, p: P, live: bool, gen: u128) -> R {
        self.issues += 1;
        chk!(cx, C01 | self.ptag, !live, "{p:?} was issued although it is in use");
        if P::HG {
            chk!(cx, C01, p != P::invalid(), "the invalid Ptr was issued");
            chk!(
                cx,
                C01 | C16,
                !self.issued.contains(&p),
                "{p:?} was issued a second time"
            );
            chks!(
                cx,
                C23,
                p.g() == gen,
                "{p:?} was issued with generation {} but the generation of the arena is {gen}",
                p.g()
            );
            self.issued.insert(p);
        }
        Ok(())
    }

    pub fn kill(&mut self, p: P) {
        self.dead.push(p);
        if self.dead.len() > 4000 {
            self.dead.drain(..2000);
        }
    }

    /// checks generation and capacity after an operation and resynchronises
    pub fn meta(
        &mut self,
        cx: &mut Cx,
        gen: u128,
        dgen: (u128, u128),
        cap: usize,
        capx: Cap,
        len_before: usize,
        tags: Tags,
    ) -> R {
        if P::HG {
            let (lo, hi) = (self.gen.saturating_add(dgen.0), self.gen.saturating_add(dgen.1));
            let old = self.gen;
            cx.ev(C23, if dgen.0 > 0 { "generation_incremented" } else { "generation_kept" });
            self.gen = gen;
            let t = if dgen == (0, 0) { tags & C17 } else { 0 };
            chks!(
                cx,
                C23 | t,
                lo <= gen && gen <= hi,
                "generation went from {old} to {gen}, expected {lo}..={hi}"
            );
        }
        let old = self.cap;
        self.cap = cap;
        let (lo, hi) = match capx {
            Cap::Same => (old, old),
            Cap::Ins => {
                if len_before < old {
                    (old, old)
                } else {
                    (old + 1, (4 * old).max(64))
                }
            }
            Cap::Exact(n) => (n, n),
            Cap::Range(a, b) => (a, b),
        };
        chks!(
            cx,
            C18 | (tags & (C17 | C11 | C13)),
            lo <= cap && cap <= hi,
            "capacity went from {old} to {cap}, expected {lo}..={hi}"
        );
        Ok(())
    }

    /// A `Ptr` operand
    pub fn pick(&self, rng: &mut Rng, live: &[P], other: &[P]) -> P {
        let r = rng.n(100);
        if r < 74 && !live.is_empty() {
            return *rng.pick(live)
        }
        if r < 88 && !self.dead.is_empty() {
            // favour recently killed ones
            let n = self.dead.len();
            return if rng.p(2, 3) {
                self.dead[n - 1 - rng.n(n.min(6))]
            } else {
                *rng.pick(&self.dead)
            }
        }
        if r < 92 && !other.is_empty() {
            return *rng.pick(other)
        }
        if r < 95 {
            return P::invalid()
        }
        self.forge(rng, live)
    }

    pub fn forge(&self, rng: &mut Rng, live: &[P]) -> P {
        let i = if !live.is_empty() && rng.p(1, 2) {
            rng.pick(live).i()
        } else if rng.p(1, 12) {
            // far out
            *rng.pick(&[usize::MAX, usize::MAX / 2, 1 << 40, 65535, 255])
        } else {
            rng.range(1, self.cap + 3)
        };
        let g = match rng.n(6) {
            0 => 1,
            1 => 2,
            2 => self.gen.saturating_sub(1),
            3 => self.gen,
            4 => self.gen.saturating_add(1),
            _ => rng.u() as u128,
        };
        P::make(i, g)
    }

    pub fn adopt_clone(&mut self, src: &Book<P>) {
        self.issued = src.issued.clone();
        self.dead = src.dead.clone();
        self.gen = src.gen;
    }
}

/// Result of comparing a found value with the model
pub fn same(t: &Tok, r: &TR) -> bool {
    t.rec() == *r && t.ok()
}

/// Weight table of an engine: name, base weight, properties that boost it, class
pub type OpTab = [(&'static str, u32, Tags, u8)];
pub const NEU: u8 = 0;
pub const GROW: u8 = 1;
pub const SHRINK: u8 = 2;
pub const RARE: u8 = 3;

#[derive(Clone)]
pub struct Cfg {
    pub nops: usize,
    pub target: usize,
    /// full comparison every so many operations
    pub every: usize,
    pub w: Vec<u32>,
    /// per-arena phase: growing or shrinking
    pub tab: &'static OpTab,
    pub arenas: usize,
}

impl Cfg {
    pub fn new(cx: &Cx, rng: &mut Rng, tab: &'static OpTab) -> Cfg {
        let size = if cx.miri {
            rng.weighted(&[4, 4, 0, 0])
        } else if cx.profile & (C16 | C18) != 0 {
            rng.weighted(&[2, 4, 4, 3])
        } else {
            rng.weighted(&[4, 7, 4, 1])
        };
        let (nops, target, every) = match size {
            0 => (rng.range(4, 16), rng.range(1, 4), 1),
            1 => (rng.range(15, 60), rng.range(2, 12), 1),
            2 => (rng.range(60, 250), rng.range(6, 50), rng.range(1, 4)),
            _ => (rng.range(200, 900), rng.range(40, 300), 16),
        };
        let mut w: Vec<u32> = tab
            .iter()
            .map(|(_, b, t, _)| if t & cx.profile != 0 { b * 5 } else { *b })
            .collect();
        // swarm
        let off = rng.n(60);
        for (i, (_, _, t, class)) in tab.iter().enumerate() {
            if *class == GROW && rng.p(3, 4) {
                continue
            }
            let off = if t & cx.profile != 0 { off / 3 } else { off };
            if rng.p(off, 100) {
                w[i] = 0;
            } else if rng.p(1, 6) {
                w[i] *= 4;
            }
        }
        // something must grow
        if !tab.iter().enumerate().any(|(i, t)| t.3 == GROW && w[i] > 0) {
            w[0] = tab[0].1.max(4);
        }
        Cfg {
            nops,
            target,
            every,
            w,
            tab,
            arenas: *rng.pick(&[1, 2, 2, 2, 3]),
        }
    }

    /// After the generation counter was brought close to its limit the next operation on the same
    /// arena is often one that invalidates many `Ptr`s at once
    pub fn follow(&self, rng: &mut Rng, op: usize) -> Option<usize> {
        if self.tab[op].0 != "burn" || !rng.p(2, 3) {
            return None
        }
        let bulk: Vec<usize> = (0..self.tab.len())
            .filter(|i| {
                matches!(
                    self.tab[*i].0,
                    "compress" | "recast" | "remove_chain" | "remove_by" | "clear" | "clear_and_shrink" | "drain" | "into_iter" | "remove" | "clone_from"
                )
            })
            .collect();
        Some(*rng.pick(&bulk))
    }

    pub fn next_op(&self, rng: &mut Rng, len: usize) -> usize {
        let mut w = self.w.clone();
        for (i, t) in self.tab.iter().enumerate() {
            match t.3 {
                GROW if len < self.target => w[i] *= 3,
                SHRINK if len < self.target => w[i] = w[i].div_ceil(2),
                SHRINK if len > self.target + self.target / 2 => w[i] *= 4,
                // resets of big arenas are rare, else they never become big
                RARE if self.target > 20 => w[i] = w[i].div_ceil(4),
                _ => (),
            }
        }
        rng.weighted(&w)
    }
}

/// How many invalidations in a row to do
pub fn burn_count<P: TP>(cx: &Cx, rng: &mut Rng, g: u128) -> usize {
    let near = rng.p(2, 3);
    if P::GEN_MAX <= 255 || (P::GEN_MAX <= 65535 && cx.profile & C16 != 0 && rng.p(1, 25) && !cx.miri) {
        if near {
            (P::GEN_MAX - g).saturating_sub(rng.n(4) as u128) as usize
        } else {
            rng.n(P::GEN_MAX as usize + 45)
        }
    } else {
        rng.n(20)
    }
}

/// Yields what `it` yields with another, correct size hint
pub struct Hinted<I> {
    it: I,
    kind: usize,
}
impl<I: ExactSizeIterator> Hinted<I> {
    pub fn new(rng: &mut Rng, it: I) -> Self {
        Hinted { it, kind: rng.n(6) }
    }
}
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;

    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.kind {
            0 => (0, None),
            1 => (0, Some(n)),
            2 => (n / 2, None),
            3 => (n.saturating_sub(1), Some(n + 1)),
            4 => (0, Some(usize::MAX)),
            _ => (n, Some(n)),
        }
    }
}
