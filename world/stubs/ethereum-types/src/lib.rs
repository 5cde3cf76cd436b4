use std::ops::*;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Default)]
pub struct U256(pub [u64; 4]);
impl U256 {
    pub fn from_big_endian(b: &[u8]) -> U256 { let mut x = U256::default(); for c in b { x.0[0] = x.0[0].wrapping_mul(256).wrapping_add(*c as u64); } x }
    pub fn to_big_endian(&self) -> [u8; 32] { let mut o = [0; 32]; o[31] = self.0[0] as u8; o }
    pub fn zero() -> Self { Self::default() }
    pub fn one() -> Self { U256([1, 0, 0, 0]) }
    pub fn max_value() -> Self { U256([u64::MAX; 4]) }
    pub fn div_mod(self, o: U256) -> (U256, U256) { (U256([self.0[0] / o.0[0], 0, 0, 0]), U256([self.0[0] % o.0[0], 0, 0, 0])) }
    pub fn low_u64(&self) -> u64 { self.0[0] }
    pub fn low_u32(&self) -> u32 { self.0[0] as u32 }
    pub fn as_u64(&self) -> u64 { self.0[0] }
    pub fn is_zero(&self) -> bool { self.0 == [0; 4] }
}
macro_rules! f { ($($t:ty)*) => { $(impl From<$t> for U256 { fn from(x: $t) -> Self { U256([x as u64, 0, 0, 0]) } })* } }
f!(u8 u16 u32 u64 u128 usize i32);
macro_rules! o { ($($t:ident $m:ident $w:ident;)*) => { $(impl $t for U256 { type Output = U256; fn $m(self, o: U256) -> U256 { U256([self.0[0].$w(o.0[0]), 0, 0, 0]) } })* } }
o! { Add add wrapping_add; Sub sub wrapping_sub; Mul mul wrapping_mul; Div div wrapping_div; Rem rem wrapping_rem; }
