//! C21: clamping, number conversion, channel accessors.
use crate::returned;
use auto_palette::verif_hooks::*;

/// The value a machine number stands for, when it is a non-negative integer below 2^128.
trait Exact: Copy {
    fn exact(self) -> Option<u128>;
    /// n is representable.
    fn holds(n: u128) -> bool;
}
macro_rules! int { ($($t:ty),+) => { $(
    impl Exact for $t {
        fn exact(self) -> Option<u128> { Some(self as u128) }
        fn holds(n: u128) -> bool { n <= <$t>::MAX as u128 }
    }
)+ } }
int!(u8, u16, u32, u64, u128);
// decoded from the IEEE 754 encoding, without floating-point arithmetic
impl Exact for f32 {
    fn exact(self) -> Option<u128> {
        let b = self.to_bits();
        if b == 0 { return Some(0); }
        let (s, e, m) = (b >> 31, ((b >> 23) & 0xff) as i32 - 127 - 23, (b & 0x7f_ffff) as u128 | 0x80_0000);
        if s != 0 || e < -23 || e > 100 { return None; }
        if e >= 0 { return Some(m << e); }
        if m & ((1u128 << -e) - 1) != 0 { None } else { Some(m >> -e) }
    }
    fn holds(n: u128) -> bool { n == 0 || n >> n.trailing_zeros() < 1 << 24 }
}
impl Exact for f64 {
    fn exact(self) -> Option<u128> {
        let b = self.to_bits();
        if b == 0 { return Some(0); }
        let (s, e, m) = (b >> 63, ((b >> 52) & 0x7ff) as i32 - 1023 - 52, (b & 0xf_ffff_ffff_ffff) as u128 | 0x10_0000_0000_0000);
        if s != 0 || e < -52 || e > 70 { return None; }
        if e >= 0 { return Some(m << e); }
        if m & ((1u128 << -e) - 1) != 0 { None } else { Some(m >> -e) }
    }
    fn holds(n: u128) -> bool { n == 0 || n >> n.trailing_zeros() < 1 << 53 }
}

macro_rules! contracts { ($($t:ident: $nan:expr),+) => { $( mod $t {
    use super::*;
    type T = $t;
    #[kani::requires(!$nan(v) && !$nan(lo) && !$nan(hi) && lo <= hi)]
    #[kani::ensures(|r: &T| if v < lo { *r == lo } else if v > hi { *r == hi } else { *r == v })]
    fn clamp(v: T, lo: T, hi: T) -> T { <T as Clamp>::clamp(v, lo, hi) }
    #[kani::proof_for_contract(clamp)]
    fn c21_clamp() { clamp(kani::any(), kani::any(), kani::any()); }

    #[kani::proof]
    #[kani::should_panic]
    fn c21_inverted() {
        let (v, lo, hi): (T, T, T) = kani::any();
        kani::assume(!$nan(v) && !$nan(lo) && !$nan(hi) && lo > hi);
        let _ = <T as Clamp>::clamp(v, lo, hi);
        returned();
    }

    #[kani::ensures(|r: &T| r.exact() == Some(n as u128))]
    fn from_u8(n: u8) -> T { <T as Number>::from_u8(n) }
    #[kani::proof_for_contract(from_u8)]
    fn c21_from_u8() { from_u8(kani::any()); }
    #[kani::requires(T::holds(n as u128))]
    #[kani::ensures(|r: &T| r.exact() == Some(n as u128))]
    fn from_u32(n: u32) -> T { <T as Number>::from_u32(n) }
    #[kani::proof_for_contract(from_u32)]
    fn c21_from_u32() { from_u32(kani::any()); }
    #[kani::requires(T::holds(n as u128))]
    #[kani::ensures(|r: &T| r.exact() == Some(n as u128))]
    fn from_u64(n: u64) -> T { <T as Number>::from_u64(n) }
    #[kani::proof_for_contract(from_u64)]
    fn c21_from_u64() { from_u64(kani::any()); }
    #[kani::requires(T::holds(n as u128))]
    #[kani::ensures(|r: &T| r.exact() == Some(n as u128))]
    fn from_usize(n: usize) -> T { <T as Number>::from_usize(n) }
    #[kani::proof_for_contract(from_usize)]
    fn c21_from_usize() { from_usize(kani::any()); }

    #[kani::proof]
    fn c21_channels() {
        let (r, g, b, a): (u8, u8, u8, u8) = kani::any();
        let c = Rgba::new(r, g, b, a);
        assert!(c.r::<T>().exact() == Some(r as u128));
        assert!(c.g::<T>().exact() == Some(g as u128));
        assert!(c.b::<T>().exact() == Some(b as u128));
        assert!(c.a::<T>().exact() == Some(a as u128));
        assert!(Rgba::max_value::<T>().exact() == Some(255));
    }
})+ } }
fn no<T>(_: T) -> bool { false }
contracts!(u8: no, u16: no, u32: no, u64: no, u128: no, f32: f32::is_nan, f64: f64::is_nan);
