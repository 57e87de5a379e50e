//! Instrumented user types: values with identity, keys with a hooked ordering,
//! and the registry that sees births, clones, drops and double drops.
use std::{
    cell::{Cell, RefCell},
    cmp::Ordering,
    fmt,
    mem::ManuallyDrop,
};

pub const K_CLOSURE: usize = 0;
pub const K_CMP: usize = 1;
pub const K_CLONE: usize = 2;
pub const K_DROP: usize = 3;
pub const KIND_NAMES: [&str; 4] = ["closure", "comparison", "clone", "destructor"];

#[derive(Default)]
pub struct Reg {
    /// 1 alive, 2 dropped
    state: Vec<u8>,
    parent: Vec<u64>,
    pub alive: u64,
    pub errors: Vec<String>,
    pub drops: u64,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    static COUNT: [Cell<u64>; 4] = const { [Cell::new(0), Cell::new(0), Cell::new(0), Cell::new(0)] };
    static ARMED: Cell<(usize, u64)> = const { Cell::new((99, 0)) };
    static CHAOS: Cell<(u32, u64)> = const { Cell::new((0, 0)) };
    /// comparisons at which the current operation is broken off, and if it happened
    static FUSE: Cell<(u64, bool)> = const { Cell::new((u64::MAX, false)) };
}

/// No single operation of any workload comes near this number of comparisons
const RUNAWAY: u64 = 100_000_000;

/// Called when an operation starts
pub fn set_fuse() {
    FUSE.with(|f| f.set((count(K_CMP) + RUNAWAY, f.get().1)));
}

/// returns if some operation did not stop comparing
pub fn take_runaway() -> bool {
    FUSE.with(|f| f.replace((u64::MAX, false))).1
}

/// the payload of injected panics
pub struct Injected;

/// Called from all instrumented user code
pub fn tick(kind: usize) {
    COUNT.with(|c| c[kind].set(c[kind].get() + 1));
    if kind == K_CMP && count(K_CMP) > FUSE.with(|f| f.get().0) && !std::thread::panicking() {
        FUSE.with(|f| f.set((u64::MAX, true)));
        panic!("an operation does not stop comparing");
    }
    let (k, n) = ARMED.with(|a| a.get());
    if k == kind {
        if kind == K_DROP && std::thread::panicking() {
            return
        }
        if n == 0 {
            ARMED.with(|a| a.set((99, 0)));
            std::panic::panic_any(Injected);
        }
        ARMED.with(|a| a.set((k, n - 1)));
    }
}

pub fn arm(kind: usize, at: u64) {
    ARMED.with(|a| a.set((kind, at)));
}

/// returns if the fault did not fire
pub fn disarm() -> bool {
    ARMED.with(|a| a.replace((99, 0))).0 != 99
}

pub fn count(kind: usize) -> u64 {
    COUNT.with(|c| c[kind].get())
}

/// 0 lawful, 1 random, 2 non-transitive, 3 all equal, 4 reversed, 5 always less, 6 always greater,
/// 7 depends on time
pub fn set_chaos(mode: u32, seed: u64) {
    CHAOS.with(|c| c.set((mode, seed)));
}

pub fn get_chaos() -> (u32, u64) {
    CHAOS.with(|c| c.get())
}

pub fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
    disarm();
    set_chaos(0, 0);
}

fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T {
    REG.with(|r| f(&mut r.borrow_mut()))
}

pub fn reg_alive(id: u64) -> bool {
    reg(|r| r.state.get(id as usize) == Some(&1))
}

pub fn reg_parent(id: u64) -> u64 {
    reg(|r| r.parent.get(id as usize).copied().unwrap_or(u64::MAX))
}

pub fn reg_alive_count() -> u64 {
    reg(|r| r.alive)
}

pub fn reg_errors() -> Vec<String> {
    reg(|r| std::mem::take(&mut r.errors))
}

pub fn reg_alive_ids() -> Vec<u64> {
    reg(|r| {
        r.state
            .iter()
            .enumerate()
            .filter(|(_, s)| **s == 1)
            .map(|(i, _)| i as u64)
            .collect()
    })
}

pub fn reg_born() -> u64 {
    reg(|r| r.state.len() as u64)
}

const MAGIC: u64 = 0x7f4a_7c15_9e37_79b9;

/// Instrumented value
pub struct Tok {
    pub id: u64,
    pub val: u64,
    pub mark: u64,
    heap: ManuallyDrop<Box<u64>>,
}

/// What a model remembers about a `Tok`
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TR {
    pub id: u64,
    pub val: u64,
    pub mark: u64,
}

impl Tok {
    fn born(val: u64, mark: u64, parent: u64) -> Tok {
        let id = reg(|r| {
            r.state.push(1);
            r.parent.push(parent);
            r.alive += 1;
            r.state.len() as u64 - 1
        });
        Tok {
            id,
            val,
            mark,
            heap: ManuallyDrop::new(Box::new(id ^ MAGIC)),
        }
    }

    pub fn new(val: u64) -> Tok {
        Self::born(val, 0, u64::MAX)
    }

    pub fn rec(&self) -> TR {
        TR {
            id: self.id,
            val: self.val,
            mark: self.mark,
        }
    }

    /// alive and the heap part is intact
    pub fn ok(&self) -> bool {
        reg_alive(self.id) && **self.heap == (self.id ^ MAGIC)
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        tick(K_CLONE);
        if !self.ok() {
            let id = self.id;
            reg(|r| r.errors.push(format!("value {id} cloned after it was dropped")));
        }
        Self::born(self.val, self.mark, self.id)
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.val == o.val && self.mark == o.mark
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> Ordering {
        (self.val, self.mark).cmp(&(o.val, o.mark))
    }
}

impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T{}", self.val)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.id;
        let first = reg(|r| {
            r.drops += 1;
            match r.state.get(id as usize) {
                Some(1) => {
                    r.state[id as usize] = 2;
                    r.alive -= 1;
                    true
                }
                Some(_) => {
                    r.errors.push(format!("value {id} dropped twice"));
                    false
                }
                None => {
                    r.errors
                        .push(format!("dropped garbage that never was a value (id {id:#x})"));
                    false
                }
            }
        });
        if first {
            if **self.heap != (id ^ MAGIC) {
                reg(|r| r.errors.push(format!("heap part of value {id} is corrupt")));
            }
            // Safety: only reached on the first drop of this id
            unsafe { ManuallyDrop::drop(&mut self.heap) };
        }
        tick(K_DROP);
    }
}

/// Instrumented key: ordering and equality look at `k` only
#[derive(Clone, Debug)]
pub struct Key {
    pub k: u64,
    pub t: Tok,
}

impl Key {
    pub fn new(k: u64) -> Key {
        Key { k, t: Tok::new(k) }
    }
}

impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.k == o.k
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        tick(K_CMP);
        let (mode, s) = CHAOS.with(|c| c.get());
        if mode == 0 {
            return self.k.cmp(&o.k)
        }
        let s = crate::rng::mix(s);
        CHAOS.with(|c| c.set((mode, s)));
        let three = |x: u64| match x % 3 {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        };
        match mode {
            1 => three(s),
            2 => match (self.k % 3 + 3 - o.k % 3) % 3 {
                0 => self.k.cmp(&o.k),
                1 => Ordering::Less,
                _ => Ordering::Greater,
            },
            3 => Ordering::Equal,
            4 => o.k.cmp(&self.k),
            5 => Ordering::Less,
            6 => Ordering::Greater,
            7 => {
                if s & 7 == 0 {
                    three(s >> 8)
                } else if (s >> 3) & 3 == 0 {
                    o.k.cmp(&self.k)
                } else {
                    self.k.cmp(&o.k)
                }
            }
            // never equal
            _ => {
                if s & 1 == 0 {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            }
        }
    }
}
