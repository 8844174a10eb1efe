use std::panic::{catch_unwind, AssertUnwindSafe};
uint::construct_uint! { pub struct B(16); }

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(prop: &str, seed: u64, iter: u64) -> Rng {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        let mut r = Rng(h ^ iter.wrapping_mul(0xD1342543DE82EF95));
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, p: u64) -> bool { self.below(100) < p }
    pub fn b(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn u128(&mut self) -> u128 { ((self.next() as u128) << 64) | self.next() as u128 }
    pub fn below128(&mut self, n: u128) -> u128 { if n == 0 { 0 } else { self.u128() % n } }
    /// value with a uniformly chosen bit length up to `bits`, often at an edge
    pub fn amt(&mut self, bits: u32) -> u128 {
        let n = self.below(bits as u64 + 1) as u32;
        let v = if n == 0 { 0 } else if n >= 128 { self.u128() } else { self.u128() & ((1u128 << n) - 1) };
        match self.below(12) {
            0 => if n >= 128 || n >= bits { if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 } } else { 1u128 << n },
            1 => if n >= 128 { u128::MAX } else { (1u128 << n) - 1 },
            2 => { let e = self.below(39) as u32; let p = 10u128.pow(e); let p = if bits < 128 && p >> bits != 0 { 1 } else { p }; match self.below(3) { 0 => p, 1 => p - 1, _ => p.saturating_add(1) } }
            3 => self.below(4) as u128,
            _ => v,
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}

/// Some(result) or None when the call panicked (a panic reverts the transaction)
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

pub fn b(x: u128) -> B { B::from(x) }
thread_local!(static POW10: Vec<B> = (0..120u32).map(|n| B::from(10u64).pow(B::from(n))).collect());
pub fn e(n: u32) -> B { POW10.with(|v| v[n as usize]) }
pub fn fl(a: B, d: B) -> B { a / d }
pub fn cl(a: B, d: B) -> B { (a + d - B::from(1u64)) / d }
pub fn small(x: B) -> Option<u128> { if x.bits() <= 128 { Some(x.as_u128()) } else { None } }
pub fn mx(bits: u32) -> B { (B::from(1u64) << bits) - B::from(1u64) }
pub fn absd(a: u128, c: u128) -> u128 { if a > c { a - c } else { c - a } }

#[macro_export]
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
