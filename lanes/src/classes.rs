//! Byte classes of our own, built with vsimd's table construction.
pub mod c64 {
    use vsimd::alsw::AlswLut;
    use vsimd::vector::{V128, V256};
    pub struct C;
    impl C {
        const fn decode(c: u8) -> u8 {
            match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => 0xff,
            }
        }
        const fn check_hash(i: u8) -> u8 {
            match i {
                0 => 5,
                1..=9 => 2,
                0xA => 4,
                0xB => 6,
                0xC..=0xE => 8,
                _ => 6,
            }
        }
        const fn decode_hash(i: u8) -> u8 {
            match i {
                0xB => 7,
                0xF => 8,
                _ => 1,
            }
        }
    }
    vsimd::impl_alsw!(C);
    pub const CHECK: AlswLut<V128> = C::check_lut();
    pub const DECODE: AlswLut<V128> = C::decode_lut();
    pub const CHECK2: AlswLut<V256> = C::check_lut().x2();
    pub const DECODE2: AlswLut<V256> = C::decode_lut().x2();
}
pub mod c32 {
    use vsimd::alsw::AlswLut;
    use vsimd::vector::{V128, V256};
    pub struct C;
    impl C {
        const fn decode(c: u8) -> u8 {
            match c {
                b'A'..=b'Z' => c - b'A',
                b'2'..=b'7' => c - b'2' + 26,
                _ => 0xff,
            }
        }
        const fn check_hash(i: u8) -> u8 {
            match i {
                0 | 1 => 1,
                2..=7 => 6,
                8..=10 => 1,
                _ => 7,
            }
        }
        const fn decode_hash(i: u8) -> u8 {
            Self::check_hash(i)
        }
    }
    vsimd::impl_alsw!(C);
    pub const CHECK: AlswLut<V128> = C::check_lut();
    pub const DECODE: AlswLut<V128> = C::decode_lut();
    pub const CHECK2: AlswLut<V256> = C::check_lut().x2();
    pub const DECODE2: AlswLut<V256> = C::decode_lut().x2();
}
