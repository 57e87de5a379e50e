//! Engine for the depth of `OrdArena` trees: adversarial insertion and removal orders, the
//! comparisons of lookups are counted
use std::cmp::Ordering;

use triple_arena::OrdArena;

use crate::{
    cx::*,
    e_ord::bound,
    ptrs::*,
    rng::*,
    tok::{count, tick, K_CMP},
};

/// light key whose comparisons are counted
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct LK(u64);
impl PartialOrd for LK {
    fn partial_cmp(&self, o: &LK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for LK {
    fn cmp(&self, o: &LK) -> Ordering {
        tick(K_CMP);
        self.0.cmp(&o.0)
    }
}

struct B<P: TP> {
    a: OrdArena<P, LK, u64>,
    /// ascending
    seq: Vec<(u64, P)>,
    /// nothing but insertions happened
    pure: bool,
}

/// largest number of nodes on a path if only insertions happened
fn pure_bound(n: usize) -> u64 {
    (1.4405 * ((n + 2) as f64).log2() - 0.3277).floor().max(0.0) as u64 + 1
}

const MID: u64 = 1 << 62;

impl<P: TP> B<P> {
    fn bnd(&self) -> u64 {
        let n = self.seq.len();
        if self.pure {
            pure_bound(n).min(bound(n))
        } else {
            bound(n)
        }
    }

    fn depth(&self, cx: &mut Cx, j: usize) -> R<u64> {
        let (k, p) = self.seq[j];
        let c = count(K_CMP);
        let r = self.a.find_key(&LK(k));
        let c = count(K_CMP) - c;
        chk!(cx, C05, r == Some(p), "find_key({k}) is {r:?} instead of {p:?}");
        Ok(c)
    }

    /// depths of all or some entries are within the bound
    fn measure(&self, cx: &mut Cx, rng: &mut Rng, what: &str) -> R<u64> {
        let n = self.seq.len();
        chk!(cx, C05, self.a.len() == n, "len {} instead of {n} after {what}", self.a.len());
        let bnd = self.bnd();
        let (mut max, mut sum) = (0, 0);
        let all = n <= 700;
        let m = if all { n } else { 250 };
        for j in 0..m {
            let j = if all {
                j
            } else {
                match j {
                    0..=9 => j,
                    10..=19 => n - 1 - (j - 10),
                    _ => rng.n(n),
                }
            };
            let c = self.depth(cx, j)?;
            chk!(cx, C06, c <= bnd, "find_key with {n} entries (insertions only: {}) made {c} comparisons after {what}, bound {bnd}", self.pure);
            max = max.max(c);
            sum += c;
        }
        // absent keys
        for _ in 0..6 {
            let k = if n > 0 { self.seq[rng.n(n)].0.wrapping_add(1) } else { 5 };
            if self.seq.binary_search_by_key(&k, |x| x.0).is_ok() {
                continue
            }
            let c = count(K_CMP);
            let r = self.a.find_similar_key(&LK(k));
            let c = count(K_CMP) - c;
            chk!(cx, C05, r.is_some() == (n > 0), "find_similar_key gives {r:?} with {n} entries");
            chk!(cx, C06, c <= bnd, "find_similar_key with {n} entries made {c} comparisons after {what}, bound {bnd}");
        }
        cx.ev(C06 | C05, if self.pure { "depths_measured_insert_only" } else { "depths_measured" });
        if max + 1 >= bnd && n > 4 {
            cx.ev(C06, "depth_at_bound");
        }
        cx.state(h(&(n, max, sum)));
        Ok(max)
    }

    fn insert(&mut self, cx: &mut Cx, rng: &mut Rng, k: u64) -> R {
        let Err(pos) = self.seq.binary_search_by_key(&k, |x| x.0) else {
            return Ok(())
        };
        let n = self.seq.len();
        if n as u128 >= P::INX_MAX {
            return Ok(())
        }
        let bnd = self.bnd();
        let c = count(K_CMP);
        let (p, num) = match rng.n(12) {
            0 => (self.a.insert_nonhereditary(LK(k), k), 0),
            1 if n > 0 => {
                let near = self.seq[pos.min(n - 1)].1;
                (self.a.insert_linear(near, 3, LK(k), k).0, 3)
            }
            2 if n > 0 => {
                let x = if pos > 0 {
                    (self.seq[pos - 1].1, Ordering::Greater)
                } else {
                    (self.seq[0].1, Ordering::Less)
                };
                (self.a.insert_inx_manual_unwrap(x.0.inx(), x.1, LK(k), k).0, 0)
            }
            _ => (self.a.insert(LK(k), k).0, 0),
        };
        let c = count(K_CMP) - c;
        chk!(cx, C06, c <= bnd + num, "an insertion with {n} entries made {c} comparisons, bound {bnd}");
        self.seq.insert(pos, (k, p));
        Ok(())
    }

    fn can_remove(&self) -> bool {
        !self.seq.is_empty() && (!P::HG || P::gnum(self.a.generation()) < P::GEN_MAX)
    }

    fn remove(&mut self, cx: &mut Cx, j: usize) -> R {
        let (k, p) = self.seq.remove(j);
        self.pure = false;
        let r = self.a.remove(p);
        chk!(cx, C05, r.map(|x| x.0 .0) == Some(k), "remove({p:?}) of key {k} gives {r:?}");
        Ok(())
    }

    /// Ptrs changed
    fn relearn(&mut self, cx: &mut Cx) -> R {
        let v: Vec<(u64, P)> = self.a.iter().map(|(p, k, _)| (k.0, p)).collect();
        let same = v.len() == self.seq.len() && v.iter().zip(&self.seq).all(|(a, b)| a.0 == b.0);
        chk!(cx, C05, same, "the keys changed");
        self.seq = v;
        Ok(())
    }
}

fn between(lo: u64, hi: u64) -> u64 {
    lo + (hi - lo) / 2
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let nmax: usize = if cx.miri {
        12
    } else {
        match rng.n(100) {
            0..=39 => rng.range(3, 32),
            40..=74 => rng.range(20, 150),
            75..=94 => rng.range(100, 600),
            95..=98 => rng.range(500, 3000),
            _ => rng.range(2000, if cx.thorough { 40000 } else { 8000 }),
        }
    };
    let nmax = (nmax as u128).min(P::INX_MAX) as usize;
    let mut b = B::<P> {
        a: OrdArena::new(),
        seq: vec![],
        pure: true,
    };
    let mut other: OrdArena<P, LK, u64> = OrdArena::new();
    let every = nmax <= 64;
    let phases = if nmax > 1000 { rng.range(2, 4) } else { rng.range(2, 10) };
    for ph in 0..phases {
        let n = b.seq.len();
        let grow = ph == 0 || (n < nmax / 4) || (n < nmax && rng.p(1, 2));
        let m = if grow {
            rng.range(1, (nmax - n).max(1))
        } else {
            rng.range(1, n.max(1))
        };
        let pat = rng.n(10);
        cx.op(C06 | C05, h(&(grow, pat, m, n)), || format!("ordbal {} {m} entries, pattern {pat}, of {n}", if grow { "insert" } else { "remove" }));
        let mut up = 0u64;
        let mut spot = rng.u() >> 1;
        let nn = m.next_power_of_two().trailing_zeros();
        for i in 0..m {
            let n = b.seq.len();
            if grow {
                let k = match pat {
                    0 => b.seq.last().map(|x| x.0.saturating_add(1000)).unwrap_or(MID),
                    1 => b.seq.first().map(|x| x.0.saturating_sub(1000)).unwrap_or(MID),
                    2 => {
                        if i % 2 == 0 {
                            b.seq.last().map(|x| x.0.saturating_add(1000)).unwrap_or(MID)
                        } else {
                            b.seq.first().map(|x| x.0.saturating_sub(1000)).unwrap_or(MID)
                        }
                    }
                    // always next to the middle
                    3 if n >= 2 => between(b.seq[n / 2 - 1].0, b.seq[n / 2].0),
                    // always above or below the same entry
                    4 if n >= 2 => {
                        let j = b.seq.partition_point(|x| x.0 < spot).clamp(1, n - 1);
                        let k = between(b.seq[j - 1].0, b.seq[j].0);
                        if k == b.seq[j - 1].0 {
                            spot = rng.u() >> 1;
                        }
                        k
                    }
                    // bit reversed
                    5 => {
                        if nn == 0 {
                            MID
                        } else {
                            (i as u64).reverse_bits() >> 2
                        }
                    }
                    // runs
                    6 => {
                        if up == 0 {
                            up = rng.range(1, 20) as u64;
                            spot = rng.u() >> 1;
                        }
                        up -= 1;
                        spot + (up + 1) * 3
                    }
                    // next to the deepest
                    7 if n >= 2 && n <= 200 => {
                        let mut best = (0, 0);
                        for j in 0..n {
                            best = best.max((b.depth(cx, j)?, j));
                        }
                        let j = best.1.clamp(1, n - 1);
                        between(b.seq[j - 1].0, b.seq[j].0)
                    }
                    _ => rng.u() >> 1,
                };
                b.insert(cx, rng, k)?;
            } else {
                if !b.can_remove() {
                    break
                }
                let j = match pat {
                    0 => 0,
                    1 => n - 1,
                    2 => n / 2,
                    3 => (i * 2 + 1) % n,
                    // a block
                    4 => (spot as usize % n.max(1)).min(n - 1),
                    // shallow leaves first, the deep ones stay
                    5 | 6 if n <= 200 => {
                        let mut best = (u64::MAX, 0);
                        let off = rng.n(n);
                        for j in 0..n {
                            let j = (j + off) % n;
                            let d = b.depth(cx, j)?;
                            // leaves are at the ends of their subtrees: look at neighbours
                            let leaf = (j == 0 || b.depth(cx, j - 1)? < d) && (j + 1 == n || b.depth(cx, j + 1)? < d);
                            if leaf || pat == 6 {
                                best = best.min((d, j));
                            }
                        }
                        best.1
                    }
                    // all but one side of the deepest
                    7 if n <= 200 => {
                        let mut best = (0, 0);
                        for j in 0..n {
                            best = best.max((b.depth(cx, j)?, j));
                        }
                        if best.1 < n / 2 {
                            n - 1
                        } else {
                            0
                        }
                    }
                    _ => rng.n(n),
                };
                b.remove(cx, j)?;
            }
            if every || (b.seq.len() <= 200 && rng.p(1, 20)) {
                b.measure(cx, rng, "an operation")?;
            }
            OPSEQ.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        b.measure(cx, rng, if grow { "insertions" } else { "removals" })?;
        // bulk operations
        if rng.p(1, 2) {
            let what = rng.n(6);
            let name = ["compress_and_shrink", "clone", "clone_from", "clone_from_with", "compress_and_shrink_recaster", "clone_from a smaller"][what];
            cx.op(C06 | C05, h(&(what, b.seq.len())), || format!("ordbal {name} with {} entries", b.seq.len()));
            match what {
                0 | 4 => {
                    if P::HG && P::gnum(b.a.generation()) >= P::GEN_MAX {
                        continue
                    }
                    if what == 0 {
                        b.a.compress_and_shrink();
                    } else {
                        b.a.compress_and_shrink_recaster();
                    }
                    b.relearn(cx)?;
                    // as good as it gets, and a margin
                    let n = b.seq.len();
                    let max = b.measure(cx, rng, name)?;
                    let ideal = usize::BITS as u64 - n.leading_zeros() as u64;
                    chk!(cx, C06, max <= pure_bound(n).max(ideal), "after {name} of {n} entries a lookup makes {max} comparisons");
                    cx.ev(C06, "depth_after_compression");
                    b.pure = false;
                }
                1 => {
                    let c = b.a.clone();
                    other = std::mem::replace(&mut b.a, c);
                }
                2 => {
                    other.clone_from(&b.a);
                    std::mem::swap(&mut other, &mut b.a);
                }
                3 => {
                    other.clone_from_with(&b.a, |_, v| *v);
                    std::mem::swap(&mut other, &mut b.a);
                }
                _ => {
                    let mut small: OrdArena<P, LK, u64> = OrdArena::new();
                    small.insert(LK(3), 3);
                    small.clone_from(&b.a);
                    b.a = small;
                }
            }
            b.measure(cx, rng, name)?;
            cx.ev(C06, "depths_measured_after_bulk_operation");
        }
    }
    Ok(())
}
