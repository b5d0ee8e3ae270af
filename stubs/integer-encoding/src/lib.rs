pub trait VarInt: Sized + Copy {
 fn required_space(self) -> usize; fn decode_var(_src: &[u8]) -> Option<(Self, usize)>; fn encode_var(self, _dst: &mut [u8]) -> usize; fn encode_var_vec(self) -> Vec<u8>;
}
pub trait FixedInt: Sized + Copy { fn encode_fixed(self, _d: &mut [u8]); fn encode_fixed_vec(self) -> Vec<u8>; fn decode_fixed(_s: &[u8]) -> Self; }
macro_rules! im { ($($t:ty)*) => { $( impl VarInt for $t { fn required_space(self) -> usize { unimplemented!() } fn decode_var(_s: &[u8]) -> Option<(Self, usize)> { unimplemented!() } fn encode_var(self, _d: &mut [u8]) -> usize { unimplemented!() } fn encode_var_vec(self) -> Vec<u8> { unimplemented!() } }
impl FixedInt for $t { fn encode_fixed(self, _d: &mut [u8]) { unimplemented!() } fn encode_fixed_vec(self) -> Vec<u8> { unimplemented!() } fn decode_fixed(_s: &[u8]) -> Self { unimplemented!() } } )* } }
im!(usize u64 u32 u16 u8 isize i64 i32 i16 i8);
