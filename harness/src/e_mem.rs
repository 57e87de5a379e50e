//! Engine for memory: what the arenas take from the allocator is measured around every call and
//! compared with what their capacity explains.
use triple_arena::{utils::ChainNoGenArena, Arena, ChainArena, OrdArena, SurjectArena};

use crate::{alloc::held, cx::*, ptrs::*, rng::*};

trait M<P: TP>: Sized {
    const NAME: &'static str;
    const EXTRA: i64;
    fn new() -> Self;
    fn len(&self) -> usize;
    /// capacity, and capacity of a second part if there is one
    fn caps(&self) -> [usize; 2];
    fn insert(&mut self, x: u64) -> P;
    fn remove(&mut self, p: P);
    fn reserve(&mut self, n: usize);
    fn clear(&mut self);
    fn clear_and_shrink(&mut self);
    fn compress(&mut self) -> usize;
    fn drain(&mut self, n: usize);
    fn dup(&self) -> Self;
    fn dup_from(&mut self, o: &Self);
    fn map_from(&mut self, o: &Self);
    fn ptrs(&self) -> Vec<P>;
}

macro_rules! m {
    ($t:ident<P $(, $x:ty)*>, $name:literal, |$s:ident, $v:ident| $ins:expr, |$s2:ident| $caps:expr, $lenf:ident,
        |$s3:ident, $n:ident| $res:expr, |$s4:ident, $c:ident| $comp:expr, |$s5:ident, $d:ident| $drain:expr,
        |$s6:ident, $o:ident| $map:expr) => {
        impl<P: TP> M<P> for $t<P $(, $x)*> {
            const NAME: &'static str = $name;
            const EXTRA: i64 = 0 $(+ std::mem::size_of::<$x>() as i64)*;
            fn new() -> Self { $t::new() }
            fn len(&self) -> usize { self.$lenf() }
            fn caps(&self) -> [usize; 2] { let $s2 = self; $caps }
            fn insert(&mut self, $v: u64) -> P { let $s = self; $ins }
            fn remove(&mut self, p: P) { let _ = self.remove(p); }
            fn reserve(&mut self, $n: usize) { let $s3 = self; $res }
            fn clear(&mut self) { self.clear() }
            fn clear_and_shrink(&mut self) { self.clear_and_shrink() }
            fn compress(&mut self) -> usize { let $s4 = self; let mut $c = 0; $comp; $c }
            fn drain(&mut self, $d: usize) { let $s5 = self; $drain }
            fn dup(&self) -> Self { self.clone() }
            fn dup_from(&mut self, o: &Self) { self.clone_from(o) }
            fn map_from(&mut self, $o: &Self) { let $s6 = self; $map }
            fn ptrs(&self) -> Vec<P> { self.ptrs().collect() }
        }
    };
}
m!(Arena<P, u64>, "Arena", |s, v| s.insert(v), |s| [s.capacity(); 2], len, |s, n| s.reserve(n),
    |s, c| s.compress_and_shrink_with(|_, _, _| c += 1), |s, n| { let _ = s.drain().take(n).count(); },
    |s, o| s.clone_from_with(o, |_, x| *x));
m!(ChainArena<P, u64>, "ChainArena", |s, v| match s.ptrs().next().filter(|_| v % 2 == 0) {
        Some(p) => s.insert((Some(p), None), v).unwrap_or_else(|v| s.insert_new(v)),
        None => s.insert_new(v),
    }, |s| [s.capacity(); 2], len, |s, n| s.reserve(n),
    |s, c| s.compress_and_shrink_with(|_, _, _| c += 1), |s, n| { let _ = s.drain().take(n).count(); },
    |s, o| s.clone_from_with(o, |_, x| x.t));
m!(ChainNoGenArena<P, u64>, "ChainNoGenArena", |s, v| s.insert_new(v), |s| [s.capacity(); 2], len, |s, n| s.reserve(n),
    |s, c| s.compress_and_shrink_with(|_, _, _| c += 1), |s, n| { let _ = s.drain().take(n).count(); },
    |s, o| s.clone_from_with(o, |_, x| x.t));
m!(SurjectArena<P, u64, u64>, "SurjectArena", |s, v| s.insert(v, v), |s| [s.capacity_keys(), s.capacity_vals()], len_keys,
    |s, n| { s.reserve_keys(n); s.reserve_vals(n) },
    |s, c| s.compress_and_shrink_with(|_, _, _, _| c += 1), |s, _n| s.clear(),
    |s, o| s.clone_from_with(o, |_, k| *k, |_, v| *v));
m!(SurjectArena<P, u8, [u64; 16]>, "SurjectArena with big values", |s, v| s.insert(v as u8, [v; 16]),
    |s| [s.capacity_keys(), s.capacity_vals()], len_keys, |s, n| { s.reserve_keys(n); s.reserve_vals(n) },
    |s, c| s.compress_and_shrink_with(|_, _, _, _| c += 1), |s, _n| s.clear(),
    |s, o| s.clone_from_with(o, |_, k| *k, |_, v| *v));
m!(OrdArena<P, u64, u64>, "OrdArena", |s, v| s.insert(v, v).0, |s| [s.capacity(); 2], len, |s, n| s.reserve(n),
    |s, c| s.compress_and_shrink_with(|_, _, _, _| c += 1), |s, n| { let _ = s.drain().take(n).count(); },
    |s, o| s.clone_from_with(o, |_, v| *v));

struct S<A> {
    a: A,
    /// bytes taken from the allocator
    bytes: i64,
    /// largest capacities since the memory was last given back
    peak: [usize; 2],
    /// allocations since then
    calls: u64,
}

fn meas<T>(f: impl FnOnce() -> T) -> (T, i64, u64) {
    let (b0, c0) = held();
    let t = f();
    let (b1, c1) = held();
    (t, b1 - b0, c1 - c0)
}

fn log2(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

fn typed<P: TP, A: M<P>>(cx: &mut Cx, rng: &mut Rng) -> R {
    let max = P::INX_MAX.min(5000) as usize;
    // memory per entry, and the least that was seen
    let mut least = i64::MAX;
    let mut e = 0;
    for n in [64, 100, 128, max.min(250)] {
        let (mut r, _, _) = meas(A::new);
        let (_, b, _) = meas(|| r.reserve(n));
        let (_, d, _) = meas(|| drop(r));
        chk!(cx, C18 | C09, b + d == 0, "{}: {b} bytes reserved, {} given back at the end", A::NAME, -d);
        least = least.min(b / n as i64 + 1);
        // a tenfold Ptr and the element is more than any entry needs
        e = (b / n as i64 + 1).min(2 * (10 * std::mem::size_of::<P>() as i64 + 64 + A::EXTRA));
    }
    let mut s: Vec<S<A>> = vec![];
    for _ in 0..2 {
        let (a, bytes, calls) = meas(A::new);
        chk!(cx, C18, bytes == 0 && a.caps() == [0; 2], "{}: a new arena has {bytes} bytes and capacity {:?}", A::NAME, a.caps());
        s.push(S { a, bytes, calls, peak: [0; 2] });
    }
    let mut x = 0u64;
    let big = *rng.pick(&[6, 30, 200, 1000, 4000]);
    for _ in 0..rng.range(5, 40) {
        let i = rng.n(2);
        let j = 1 - i;
        let kind = rng.n(12);
        cx.op(C18, 17 * kind as u64 + i as u64, || format!("{} {i}: operation {kind}, up to {big}", A::NAME));
        let n = if rng.p(1, 2) { rng.n(big) } else { rng.n(8) };
        let mut fresh = false;
        match kind {
            0..=2 => {
                for _ in 0..n {
                    let t = &mut s[i];
                    if t.a.len() >= max {
                        break
                    }
                    // keys in no particular order
                    x += 1;
                    let v = mix(x);
                    let (c, l) = (t.a.caps(), t.a.len());
                    let (_, b, k) = meas(|| t.a.insert(v));
                    t.bytes += b;
                    t.calls += k;
                    if l < c[0] && l < c[1] {
                        chk!(cx, C18, k == 0, "{}: an insertion with {l} of {c:?} slots in use allocated", A::NAME);
                        chk!(cx, C18, t.a.caps() == c, "{}: an insertion with {l} of {c:?} slots in use made capacity {:?}", A::NAME, t.a.caps());
                    }
                }
                cx.ev(C18, "allocations_of_insertions_measured");
            }
            3 | 4 => {
                let mut ptrs = s[i].a.ptrs();
                rng.shuffle(&mut ptrs);
                if rng.p(1, 2) {
                    ptrs.truncate(n);
                } else {
                    ptrs.truncate(ptrs.len().saturating_sub(n));
                }
                let t = &mut s[i];
                let (_, b, k) = meas(|| ptrs.iter().for_each(|p| t.a.remove(*p)));
                t.bytes += b;
                t.calls += k;
            }
            5 => {
                let t = &mut s[i];
                let n = n.min(max - t.a.len());
                if (t.a.caps()[0].max(t.a.caps()[1]) + n) as u128 <= P::INX_MAX {
                    let (_, b, k) = meas(|| t.a.reserve(n));
                    t.bytes += b;
                    t.calls += k;
                    let c = t.a.caps();
                    chk!(cx, C18, c[0].min(c[1]) >= t.a.len() + n, "{}: capacity is {c:?} after reserving {n} with length {}", A::NAME, t.a.len());
                }
            }
            6 => {
                let t = &mut s[i];
                let (_, b, k) = meas(|| t.a.clear());
                t.bytes += b;
                t.calls += k;
            }
            7 => {
                let t = &mut s[i];
                let (_, b, _) = meas(|| t.a.clear_and_shrink());
                t.bytes += b;
                chk!(cx, C18, t.bytes == 0, "{}: {} bytes are held after clear_and_shrink", A::NAME, t.bytes);
                fresh = true;
                cx.ev(C18, "memory_given_back");
            }
            8 => {
                let t = &mut s[i];
                let (c, b, _) = meas(|| t.a.compress());
                t.bytes += b;
                chk!(cx, C18 | C13, c == t.a.len(), "{}: compression reported {c} of {} entries", A::NAME, t.a.len());
                let most = least * c as i64;
                chk!(cx, C18, t.bytes <= most + most / 10 + 512, "{}: {} bytes are held by {c} entries after compression, {least} per entry are enough", A::NAME, t.bytes);
                fresh = true;
                cx.ev(C18, "memory_given_back");
            }
            9 => {
                let t = &mut s[i];
                let (_, b, k) = meas(|| t.a.drain(n));
                t.bytes += b;
                t.calls += k;
            }
            10 => {
                let (l, r) = s.split_at_mut(1);
                let (t, o) = if i == 0 { (&mut l[0], &r[0]) } else { (&mut r[0], &l[0]) };
                let mapped = rng.p(1, 2);
                let (_, b, k) = meas(|| if mapped { t.a.map_from(&o.a) } else { t.a.dup_from(&o.a) });
                t.bytes += b;
                t.calls += k;
                cx.ev(C18, "memory_of_cloning_measured");
            }
            _ => {
                let (a, b, k) = meas(|| s[j].a.dup());
                let (old, ob) = (std::mem::replace(&mut s[i].a, a), s[i].bytes);
                let (_, d, _) = meas(move || drop(old));
                chk!(cx, C18 | C09, d == -ob, "{}: {ob} bytes were held and {} given back by dropping", A::NAME, -d);
                let t = &mut s[i];
                t.bytes = b;
                t.calls = k;
                t.peak = [0; 2];
            }
        }
        let t = &mut s[i];
        let c = t.a.caps();
        if fresh {
            t.peak = [0; 2];
            t.calls = 0;
        }
        t.peak = [t.peak[0].max(c[0]), t.peak[1].max(c[1])];
        let most = t.peak[0].max(t.peak[1]);
        let lim = 4 * e * most as i64 + 4096;
        // `e` is for all parts together
        chk!(cx, C18, t.bytes <= lim, "{}: {} bytes are held with capacity {c:?}, at most {:?}, {e} bytes per entry", A::NAME, t.bytes, t.peak);
        let lim = 8 * log2(most) + 24;
        chk!(cx, C18, t.calls <= lim || kind > 2, "{}: {} allocations for a capacity of at most {:?}", A::NAME, t.calls, t.peak);
        if kind > 2 {
            // only those of insertions count
            t.calls = 0;
        }
        cx.ev(C18, "memory_measured");
        cx.poll()?;
    }
    for t in s {
        let a = t.a;
        let (_, d, _) = meas(move || drop(a));
        chk!(cx, C18 | C09, d == -t.bytes, "{}: {} bytes were held and {} given back by dropping", A::NAME, t.bytes, -d);
    }
    cx.poll()
}

pub fn case<P: TP>(cx: &mut Cx, rng: &mut Rng) -> R {
    match rng.n(6) {
        0 => typed::<P, Arena<P, u64>>(cx, rng),
        1 => typed::<P, ChainArena<P, u64>>(cx, rng),
        2 => typed::<P, ChainNoGenArena<P, u64>>(cx, rng),
        3 => typed::<P, SurjectArena<P, u64, u64>>(cx, rng),
        4 => typed::<P, SurjectArena<P, u8, [u64; 16]>>(cx, rng),
        _ => typed::<P, OrdArena<P, u64, u64>>(cx, rng),
    }
}
