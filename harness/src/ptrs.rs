//! The `Ptr` types under test and numeric access to their parts
use std::num::{
    NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize,
};

use triple_arena::{ptr_struct, utils::{PtrGen, PtrInx}, Ptr};

ptr_struct!(PA);
ptr_struct!(PB[NonZeroU8](NonZeroU8));
ptr_struct!(PC[NonZeroU8]());
ptr_struct!(PD[NonZeroU16](NonZeroU16));
ptr_struct!(PE[NonZeroU128](NonZeroU32));
ptr_struct!(PF());

pub const PTR_NAMES: [&str; 6] = ["PA", "PB", "PC", "PD", "PE", "PF"];

pub trait Num {
    const MAX: u128;
    const HAS: bool;
    fn num(self) -> u128;
    fn mk(x: u128) -> Self;
}

macro_rules! num {
    ($($t:ident, $i:ty);*) => {$(
        impl Num for $t {
            const MAX: u128 = <$i>::MAX as u128;
            const HAS: bool = true;
            fn num(self) -> u128 { self.get() as u128 }
            fn mk(x: u128) -> Self { $t::new((x.min(<Self as Num>::MAX).max(1)) as $i).unwrap() }
        }
    )*};
}
num!(NonZeroU8, u8; NonZeroU16, u16; NonZeroU32, u32; NonZeroU64, u64; NonZeroU128, u128; NonZeroUsize, usize);
impl Num for () {
    const HAS: bool = false;
    const MAX: u128 = 0;

    fn num(self) -> u128 {
        0
    }

    fn mk(_: u128) -> Self {}
}

pub trait TP: Ptr + 'static {
    const HG: bool;
    const GEN_MAX: u128;
    const INX_MAX: u128;
    fn g(self) -> u128;
    fn i(self) -> usize;
    fn make(i: usize, g: u128) -> Self;
    fn gnum(g: Self::Gen) -> u128;
}

impl<P: Ptr + 'static> TP for P
where
    P::Gen: Num,
    P::Inx: Num,
{
    const GEN_MAX: u128 = <P::Gen as Num>::MAX;
    const HG: bool = <P::Gen as Num>::HAS;
    const INX_MAX: u128 = <P::Inx as Num>::MAX;

    fn g(self) -> u128 {
        self.generation().num()
    }

    fn i(self) -> usize {
        PtrInx::get(self.inx()).get()
    }

    fn make(i: usize, g: u128) -> Self {
        let i = (i.max(1) as u128).min(Self::INX_MAX) as usize;
        Ptr::_from_raw(
            PtrInx::new(NonZeroUsize::new(i).unwrap()),
            <P::Gen as Num>::mk(g.max(1)),
        )
    }

    fn gnum(g: P::Gen) -> u128 {
        g.num()
    }
}

pub fn inx_of<P: TP>(i: usize) -> P::Inx {
    P::make(i, 1).inx()
}

#[allow(dead_code)]
pub fn two<G: PtrGen>() -> G {
    G::two()
}
