//! Engine for the `Ptr` types themselves: every width of index and generation, every form of
//! `ptr_struct`
use std::num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize};

use recasting::{Recast, Recaster};
use triple_arena::{
    ptr_struct,
    utils::{PtrGen, PtrInx, PtrNoGen},
    Arena, ChainArena, Ptr,
};

use crate::{cx::*, ptrs::*, rng::*};

macro_rules! zoo {
    ($(($($t:tt)*) $n:ident $i:ident $g:ty;)*) => {
        $(ptr_struct!($($t)*);)*
        /// name, index type and generation type as declared
        const ZOO: &[fn(&mut Cx, &mut Rng) -> R] = &[
            $(
                |cx, rng| probe::<$n>(cx, rng, stringify!($n), <$i as Num>::MAX, <$g as Num>::MAX),
                |cx, rng| probe::<PtrNoGen<$n>>(cx, rng, stringify!($n), <$i as Num>::MAX, 0),
            )*
        ];
    };
}

zoo! {
    (Z00) Z00 NonZeroUsize NonZeroU64;
    (Z01()) Z01 NonZeroUsize ();
    (Z02(NonZeroU8)) Z02 NonZeroUsize NonZeroU8;
    (Z03(NonZeroU16) doc = "with an attribute") Z03 NonZeroUsize NonZeroU16;
    (Z04(NonZeroU32)) Z04 NonZeroUsize NonZeroU32;
    (Z05(NonZeroU64)) Z05 NonZeroUsize NonZeroU64;
    (Z06(NonZeroU128)) Z06 NonZeroUsize NonZeroU128;
    (Z10[NonZeroU8]) Z10 NonZeroU8 NonZeroU64;
    (Z11[NonZeroU16]) Z11 NonZeroU16 NonZeroU64;
    (Z12[NonZeroU32]) Z12 NonZeroU32 NonZeroU64;
    (Z13[NonZeroU64]) Z13 NonZeroU64 NonZeroU64;
    (Z14[NonZeroU128]) Z14 NonZeroU128 NonZeroU64;
    (Z15[NonZeroUsize]) Z15 NonZeroUsize NonZeroU64;
    (Z20[NonZeroU8]()) Z20 NonZeroU8 ();
    (Z21[NonZeroU16]()) Z21 NonZeroU16 ();
    (Z22[NonZeroU32]()) Z22 NonZeroU32 ();
    (Z23[NonZeroU64]()) Z23 NonZeroU64 ();
    (Z24[NonZeroU128]()) Z24 NonZeroU128 ();
    (Z30[NonZeroU8](NonZeroU8)) Z30 NonZeroU8 NonZeroU8;
    (Z31[NonZeroU16](NonZeroU8)) Z31 NonZeroU16 NonZeroU8;
    (Z32[NonZeroU32](NonZeroU16)) Z32 NonZeroU32 NonZeroU16;
    (Z33[NonZeroU64](NonZeroU32)) Z33 NonZeroU64 NonZeroU32;
    (Z34[NonZeroU128](NonZeroU128)) Z34 NonZeroU128 NonZeroU128;
    (Z35[NonZeroU8](NonZeroU128)) Z35 NonZeroU8 NonZeroU128;
    (Z36[NonZeroU32](NonZeroU32)) Z36 NonZeroU32 NonZeroU32;
    (Z37[NonZeroU16](NonZeroU16)) Z37 NonZeroU16 NonZeroU16;
}

/// a number up to `max`, often next to a power of two or to the end
fn num(rng: &mut Rng, max: u128) -> u128 {
    let x = match rng.n(4) {
        0 => 1 + rng.n(20) as u128,
        1 => max - rng.n(4) as u128,
        2 => (1u128 << rng.n(128)).wrapping_add(rng.n(3) as u128).wrapping_sub(1),
        _ => (rng.u() as u128) << 64 >> rng.n(64) | rng.u() as u128 >> rng.n(64),
    };
    if x == 0 || x > max {
        1 + x % max
    } else {
        x
    }
}

struct To<P>(P, P);

impl<P: TP> Recaster for To<P> {
    type Item = P;

    fn recast_item(&self, p: &mut P) -> Result<(), P> {
        if *p == self.0 {
            *p = self.1;
            Ok(())
        } else {
            Err(*p)
        }
    }
}

fn probe<P: TP + Default + std::fmt::Display>(cx: &mut Cx, rng: &mut Rng, name: &str, imax: u128, gmax: u128) -> R {
    let hg = gmax != 0;
    let imax = imax.min(usize::MAX as u128);
    cx.op(C25, h(&(name, hg)), || format!("{name} with indexes up to {imax} and generations up to {gmax}"));
    chk!(cx, C25, P::name() == name, "{name} is named {}", P::name());
    chk!(cx, C25, P::HG == hg && P::GEN_MAX == gmax && P::INX_MAX.min(usize::MAX as u128) == imax, "{name} has other index and generation types than declared");
    chk!(cx, C25 | C16, <P::Inx as PtrInx>::max().get() as u128 == imax, "{name}: the maximum index is {} instead of {imax}", <P::Inx as PtrInx>::max());
    let inv = P::invalid();
    chk!(cx, C25 | C01, inv == P::default() && inv.i() as u128 == imax && (!hg || inv.g() == 1), "{name}: the invalid Ptr is {inv:?}, the default {:?}", P::default());
    let g1 = P::gnum(<P::Gen as PtrGen>::one());
    let g2 = P::gnum(<P::Gen as PtrGen>::two());
    chk!(cx, C25 | C23, !hg || (g1 == 1 && g2 == 2), "{name}: one is {g1} and two is {g2}");
    for _ in 0..40 {
        // conversions
        let i = num(rng, imax) as usize;
        let x: P::Inx = PtrInx::new(NonZeroUsize::new(i).unwrap());
        chk!(cx, C25 | C16, PtrInx::get(x).get() == i, "{name}: the index {i} becomes {}", PtrInx::get(x));
        let g = if hg { num(rng, gmax) } else { 1 };
        let p = P::make(i, g);
        chk!(cx, C25 | C01, p.inx() == x && p.i() == i && (!hg || p.g() == g), "{name}: index {i} and generation {g} make {p:?}");
        // the generations are counted one by one until the end
        if hg {
            let r = catch(|| P::gnum(PtrGen::increment(p.generation())));
            if g < gmax {
                chk!(cx, C25 | C16 | C23, r == Ok(g + 1), "{name}: the generation after {g} is {r:?}");
            } else {
                chk!(cx, C25 | C16 | C23, r.is_err(), "{name}: after the last generation comes {r:?}");
            }
        }
        // comparison
        let j = match rng.n(4) {
            0 => i,
            1 if i > 1 => i - 1,
            _ => num(rng, imax) as usize,
        };
        let k = match rng.n(4) {
            _ if !hg => 1,
            0 => g,
            1 if g > 1 => g - 1,
            _ => num(rng, gmax),
        };
        let q = P::make(j, k);
        cx.fp = mix2(cx.fp, h(&(i, g, j, k)));
        let (a, b) = (if hg { (i, g) } else { (i, 0) }, if hg { (j, k) } else { (j, 0) });
        chk!(cx, C25 | C01, (p == q) == (a == b) && (p != q) == (a != b), "{name}: {p:?} == {q:?} is {}", p == q);
        chk!(cx, C25, p.cmp(&q) == a.cmp(&b) && p.partial_cmp(&q) == Some(a.cmp(&b)), "{name}: {p:?} compared with {q:?} is {:?}", p.cmp(&q));
        chk!(cx, C25, a != b || h(&p) == h(&q), "{name}: {p:?} and {q:?} are equal with different hashes");
        let (s, t) = (format!("{p:?}"), format!("{q:?}"));
        chk!(cx, C25, (s == t) == (a == b) && s == format!("{p}") && s.contains(name), "{name}: {a:?} and {b:?} are shown as {s} and {t}");
        // recasting
        let mut r = p;
        let ok = r.recast(&To(p, q));
        chk!(cx, C25 | C13, ok == Ok(()) && r == q, "{name}: recasting {p:?} to {q:?} gives {r:?}");
        let mut r = q;
        let res = r.recast(&To(p, p));
        chk!(cx, C25 | C13, (res == Err(q) && r == q) == (p != q), "{name}: recasting {q:?} without an entry gives {r:?}");
        #[cfg(feature = "serde")]
        if i as u128 <= u64::MAX as u128 {
            let s = serde_json::to_string(&p).unwrap();
            let r: P = serde_json::from_str(&s).unwrap();
            chk!(cx, C25 | C14, r == P::make(i, 2), "{name}: {p:?} comes back from {s} as {r:?}");
        }
    }
    cx.ev(C25 | C16 | C23, "ptr_type_probed");
    // a short life
    let mut a: Arena<P, u64> = Arena::new();
    let mut b: ChainArena<P, u64> = ChainArena::new();
    let mut live: Vec<(P, P, u64)> = vec![];
    let mut dead: Vec<(P, P)> = vec![(inv, inv)];
    let mut gone = 0;
    for x in 0..rng.range(10, 60) as u64 {
        if live.is_empty() || rng.p(3, 5) {
            let p = a.insert(x);
            let q = match live.last() {
                Some((_, q, _)) => b.insert((Some(*q), None), x),
                None => Ok(b.insert_new(x)),
            };
            chk!(cx, C25 | C03, q.is_ok(), "{name}: insertion failed");
            let q = q.unwrap();
            chk!(cx, C25 | C01, !live.iter().any(|l| l.0 == p || l.1 == q), "{name}: {p:?} or {q:?} is in use");
            chk!(cx, C25 | C01, !hg || !dead.iter().any(|l| l.0 == p || l.1 == q), "{name}: {p:?} or {q:?} was in use");
            live.push((p, q, x));
        } else {
            let (p, q, x) = live.swap_remove(rng.n(live.len()));
            chk!(cx, C25 | C02, a.remove(p) == Some(x) && b.remove(q).map(|l| l.t) == Some(x), "{name}: removal of {p:?} or {q:?} failed");
            dead.push((p, q));
            gone += 1;
        }
        let (g, k) = (P::gnum(a.generation()), P::gnum(b.generation()));
        chk!(cx, C25 | C23, !hg || (g == 2 + gone && k == g), "{name}: generations {g} and {k} after {gone} removals");
        for (p, q, x) in &live {
            chk!(cx, C25 | C01, a.get(*p) == Some(x) && b.get(*q) == Some(x), "{name}: {p:?} or {q:?} is lost");
        }
        if hg {
            for (p, q) in &dead {
                chk!(cx, C25 | C01, !a.contains(*p) && !b.contains(*q), "{name}: {p:?} or {q:?} is still accepted");
            }
        }
    }
    cx.ev(C25 | C01, "short_life");
    cx.state(h(&(name, hg, gone, live.len())));
    Ok(())
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    let k = rng.n(ZOO.len());
    ZOO[k](cx, rng)
}
