//! Context of one case: verdict collection, event counting, tracing
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{BuildHasherDefault, Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};

pub type Tags = u32;
macro_rules! tags {
    ($($n:ident $i:expr),*) => {$(pub const $n: Tags = 1 << $i;)*};
}
tags!(C01 1, C02 2, C03 3, C04 4, C05 5, C06 6, C07 7, C08 8, C09 9, C10 10, C11 11, C12 12, C13 13,
    C14 14, C15 15, C16 16, C17 17, C18 18, C19 19, C20 20, C21 21, C22 22, C23 23, C24 24, C25 25, C26 26);
pub const NPROPS: usize = 26;

pub type DHash = BuildHasherDefault<Mix>;

/// Fixed and fast hash function (folded multiplication)
#[derive(Default, Clone, Copy)]
pub struct Mix(u64);

impl Mix {
    #[inline]
    fn add(&mut self, x: u64) {
        let m = (self.0 ^ x ^ 0x9e37_79b9_7f4a_7c15) as u128 * 0xa076_1d64_78bd_642f;
        self.0 = (m as u64 ^ (m >> 64) as u64).rotate_left(23).wrapping_add(x);
    }
}

impl Hasher for Mix {
    #[inline]
    fn finish(&self) -> u64 {
        let m = (self.0 ^ 0x8ebc_6af0_9c88_c6e3) as u128 * 0x5899_65cc_7537_4cc3;
        m as u64 ^ (m >> 64) as u64
    }

    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(x) ^ ((c.len() as u64) << 56));
        }
    }

    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.add(x as u64);
    }

    #[inline]
    fn write_u16(&mut self, x: u16) {
        self.add(x as u64);
    }

    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.add(x as u64);
    }

    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.add(x);
    }

    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.add(x as u64);
    }
}
pub type HMap<K, V> = std::collections::HashMap<K, V, DHash>;
pub type HSet<K> = std::collections::HashSet<K, DHash>;

/// ends the case
#[derive(Debug)]
pub struct Stop;
pub type R<T = ()> = Result<T, Stop>;

pub static OPSEQ: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug)]
pub struct Fail {
    pub tags: Tags,
    pub msg: String,
    pub op: u64,
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub ops: u64,
    /// monitor evaluations that speak about the property
    pub evals: u64,
    pub evals_all: u64,
    pub events: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub foreign: BTreeMap<String, u64>,
    pub per_engine: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Cx {
    /// property under check
    pub prop: Tags,
    /// whose operations are favoured
    pub profile: Tags,
    /// tags of the engine, for unexpected panics
    pub primary: Tags,
    /// tags of what happened before in this case
    pub taint: Tags,
    /// tags of the operation being executed
    pub optags: Tags,
    pub fails: Vec<Fail>,
    pub opno: u64,
    pub curop: String,
    pub trace: Option<std::fs::File>,
    pub log: Vec<String>,
    pub tracing: bool,
    pub fp: u64,
    pub relevant: u64,
    pub st: Stats,
    pub thorough: bool,
    pub miri: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().downcast_ref::<crate::tok::Injected>().is_some() {
            "injected".to_string()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{msg} at {loc}");
            }
        });
        if std::env::var_os("MON_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// Runs `f`, turning a panic into its message
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn h<T: Hash>(t: &T) -> u64 {
    let mut s = Mix::default();
    t.hash(&mut s);
    s.finish()
}

pub fn tag_names(t: Tags) -> Vec<String> {
    (1..=NPROPS).filter(|i| t >> i & 1 == 1).map(|i| format!("C{i:02}")).collect()
}

const MAX_STATES: usize = 150_000;

impl Cx {
    pub fn new(prop: Tags, thorough: bool) -> Cx {
        Cx {
            prop,
            profile: prop,
            primary: 0,
            taint: 0,
            optags: 0,
            fails: vec![],
            opno: 0,
            curop: String::new(),
            trace: None,
            log: vec![],
            tracing: false,
            fp: 0,
            relevant: 0,
            st: Stats::default(),
            thorough,
            miri: cfg!(miri),
        }
    }

    pub fn start_case(&mut self, primary: Tags) {
        self.primary = primary;
        self.taint = 0;
        self.optags = 0;
        self.fails.clear();
        self.opno = 0;
        self.log.clear();
        self.fp = 0;
        self.relevant = 0;
        crate::tok::reset();
    }

    /// Announces an operation. `tags` are blamed for crashes in it.
    pub fn op(&mut self, tags: Tags, fpv: u64, desc: impl FnOnce() -> String) {
        self.optags = tags;
        self.opno += 1;
        self.st.ops += 1;
        OPSEQ.fetch_add(1, Relaxed);
        crate::tok::set_fuse();
        self.fp = crate::rng::mix2(self.fp, fpv);
        if self.tracing {
            let s = desc();
            if let Some(f) = &mut self.trace {
                use std::io::Write;
                let _ = writeln!(f, "{}|{}|{}", self.opno, self.primary | self.taint | tags, s);
            }
            self.log.push(format!("{}: {}", self.opno, s));
            self.curop = s;
        }
    }

    /// Counts a monitor evaluation
    #[inline]
    pub fn n(&mut self, tags: Tags) {
        self.st.evals_all += 1;
        if (tags | self.taint) & self.prop != 0 {
            self.st.evals += 1;
        }
    }

    /// Something relevant for the `tags` was observed
    #[inline]
    pub fn ev(&mut self, tags: Tags, name: &'static str) {
        if tags & self.prop != 0 {
            self.relevant += 1;
            *self.st.events.entry(name).or_insert(0) += 1;
        }
    }

    pub fn state(&mut self, s: u64) {
        if self.st.states.len() < MAX_STATES {
            self.st.states.insert(s);
        }
    }

    pub fn fail(&mut self, tags: Tags, hard: bool, msg: String) -> R {
        let tags = tags | self.taint;
        if self.fails.len() < 20 || tags & self.prop != 0 {
            self.fails.push(Fail {
                tags,
                msg,
                op: self.opno,
            });
        }
        if hard || tags & self.prop != 0 {
            Err(Stop)
        } else {
            Ok(())
        }
    }

    /// polls the registry and the allocator monitor
    pub fn poll(&mut self) -> R {
        let e = crate::tok::reg_errors();
        if !e.is_empty() {
            self.fail(C08 | C09 | C20 | self.optags, true, e[0].clone())?;
        }
        if let Some(e) = crate::alloc::take_error() {
            self.fail(C09 | C20 | self.optags, true, e)?;
        }
        Ok(())
    }

    /// Runs `f`, which must panic if `blocked`. A panic without `blocked` propagates.
    pub fn lim<T>(&mut self, blocked: bool, f: impl FnOnce() -> T) -> R<Option<T>> {
        if blocked {
            self.n(C16);
            match catch(f) {
                Ok(_) => {
                    self.fail(
                        C16,
                        true,
                        "an operation past an index or generation limit neither panicked nor \
                         failed"
                            .to_string(),
                    )?;
                    Err(Stop)
                }
                Err(_) => {
                    self.ev(C16, "limit_panic_observed");
                    self.taint |= C16;
                    Ok(None)
                }
            }
        } else {
            Ok(Some(f()))
        }
    }
}

#[macro_export]
macro_rules! chk {
    ($cx:expr, $tags:expr, $cond:expr, $($fmt:tt)*) => {{
        let t: $crate::cx::Tags = $tags;
        $cx.n(t);
        if !$cond {
            let m = format!($($fmt)*);
            $cx.fail(t, true, m)?;
        }
    }};
}

/// soft check: a failure of another property does not end the case
#[macro_export]
macro_rules! chks {
    ($cx:expr, $tags:expr, $cond:expr, $($fmt:tt)*) => {{
        let t: $crate::cx::Tags = $tags;
        $cx.n(t);
        if !$cond {
            let m = format!($($fmt)*);
            $cx.fail(t, false, m)?;
        }
    }};
}
