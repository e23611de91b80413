//! C03: conversions between machine integers, secret and public.
use hacspec::traits::{Integer, NumericBase, SecretInteger};
use mc::words::*;
use mc::*;
use secret_integers::*;

fn ext(x: u128, from: u32, signed: bool, to: u32) -> u128 {
    let x = if signed && x >> (from - 1) & 1 == 1 { x | !mask(from) } else { x };
    x & mask(to)
}
/// a machine integer as a raw word
trait W: Copy {
    const B: u32;
    const S: bool;
    const N: &'static str;
    fn mk(x: u128) -> Self;
    fn un(self) -> u128;
}
macro_rules! w {
    ($(($P:ident, $S:ident, $u:ty, $b:expr, $s:expr)),*) => {$(
        impl W for $P {
            const B: u32 = $b; const S: bool = $s; const N: &'static str = stringify!($P);
            fn mk(x: u128) -> Self { x as $u as $P }
            fn un(self) -> u128 { self as $u as u128 }
        }
        impl W for $S {
            const B: u32 = $b; const S: bool = $s; const N: &'static str = stringify!($S);
            fn mk(x: u128) -> Self { $S(x as $u as $P) }
            fn un(self) -> u128 { self.0 as $u as u128 }
        }
    )*};
}
w!((u8, U8, u8, 8, false), (u16, U16, u16, 16, false), (u32, U32, u32, 32, false), (u64, U64, u64, 64, false), (u128, U128, u128, 128, false),
   (i8, I8, u8, 8, true), (i16, I16, u16, 16, true), (i32, I32, u32, 32, true), (i64, I64, u64, 64, true), (i128, I128, u128, 128, true));
impl W for usize {
    const B: u32 = 64;
    const S: bool = false;
    const N: &'static str = "usize";
    fn mk(x: u128) -> Self {
        x as usize
    }
    fn un(self) -> u128 {
        self as u128
    }
}

fn domain(b: u32) -> Vec<u128> {
    if b <= 16 {
        (0..1u128 << b).collect()
    } else {
        runs(b)
    }
}
fn cast<A: W + Sync, B: W + From<A>>(mc: &Mc) {
    let v = domain(A::B);
    mc.phase(&format!("{}-to-{}", A::N, B::N), (v.len() + 255) / 256, |i, t| {
        let c = &v[i * 256..(i * 256 + 256).min(v.len())];
        t.row(&format!("{} from {}", B::N, A::N), c.len(), |j| format!("{:#x}", c[j]), |j| {
            let w = ext(c[j], A::B, A::S, B::B);
            let g = B::from(A::mk(c[j])).un();
            if g == w { None } else { Some((format!("{:#x}", w), format!("{:#x}", g))) }
        });
    });
}
macro_rules! casts {
    ($mc:expr; $($a:ident => $($b:ident),+);+ $(;)?) => { $( $( cast::<$a, $b>(&$mc); )+ )+ };
}
macro_rules! wrap {
    ($mc:expr, $($S:ident $p:ident [$($c:ident),*]),+) => {$({
        let v = domain(<$p as W>::B);
        $mc.phase(&format!("classify-{}", stringify!($S)), (v.len() + 63) / 64, |i, t| {
            let n = stringify!($S);
            for &x in &v[i * 64..(i * 64 + 64).min(v.len())] {
                let p = <$p as W>::mk(x);
                t.eq(&format!("{n} classify/declassify"), || format!("{:#x}", x), x, || $S::classify(p).declassify().un());
                t.eq(&format!("{n} from/declassify"), || format!("{:#x}", x), x, || $S::from(p).declassify().un());
                t.eq(&format!("{n} SecretInteger::classify"), || format!("{:#x}", x), x, || <$S as SecretInteger>::classify(p).un());
                t.eq(&format!("{n} Display"), || format!("{:#x}", x), format!("{}", p), || format!("{}", $S(p)));
                t.eq(&format!("{n} Debug"), || format!("{:#x}", x), format!("{}", p), || format!("{:?}", $S(p)));
                t.eq(&format!("{n} LowerHex"), || format!("{:#x}", x), format!("{:08x}", p), || format!("{:08x}", $S(p)));
            }
        });
        $({
            let v = domain(<$c as W>::B);
            $mc.phase(&format!("classify-{}-from-{}", stringify!($S), stringify!($c)), 1, |_, t| {
                for &x in &v {
                    t.eq(&format!("{} classify {}", stringify!($S), stringify!($c)), || format!("{:#x}", x), ext(x, <$c as W>::B, <$c as W>::S, <$p as W>::B),
                        || $S::classify(<$c as W>::mk(x)).un());
                }
            });
        })*
        lit::<$S>(&$mc);
        lit::<$p>(&$mc);
    })+};
}
/// from_literal, the constants and max_val
fn lit<T: W + Integer + NumericBase + Sync>(mc: &Mc) {
    let v = runs(128);
    mc.phase(&format!("literal-{}", T::N), 16, |i, t| {
        let max = if T::S { mask(T::B) >> 1 } else { mask(T::B) };
        if i == 0 {
            t.eq(&format!("{} ZERO", T::N), String::new, 0, || T::ZERO.un());
            t.eq(&format!("{} ONE", T::N), String::new, 1, || T::ONE.un());
            t.eq(&format!("{} TWO", T::N), String::new, 2, || T::TWO.un());
            t.eq(&format!("{} NUM_BITS", T::N), String::new, T::B, || T::NUM_BITS);
            t.eq(&format!("{} max_val", T::N), String::new, max, || T::max_val().un());
        }
        for &x in v.iter().skip(i).step_by(16) {
            if x <= max {
                t.eq(&format!("{} from_literal", T::N), || format!("{:#x}", x), x, || T::from_literal(x).un());
            } else {
                // a literal that does not fit is reduced to the width or refused, nothing else
                t.eq_or_refuse(&format!("{} from_literal", T::N), || format!("{:#x}", x), x & mask(T::B), || T::from_literal(x).un());
            }
        }
    });
}

fn main() {
    let mc = Mc::new("C03");
    mc.bound("every value of 8- and 16-bit sources; every contiguous run of ones, its complement and the boundary alphabet for wider ones");
    casts!(mc;
        U8 => U16, U32, U64, U128, I8, u8, u16, u32, u64, u128, usize;
        U16 => U8, U32, U64, U128, I16, u16, u32, u64, u128;
        U32 => U8, U16, U64, U128, I32, u32, u64, u128;
        U64 => U8, U16, U32, U128, I64, u64, u128;
        U128 => U8, U16, U32, U64, I128, u128;
        I8 => I16, I32, I64, I128, U8;
        I16 => I8, I32, I64, I128, U16;
        I32 => I8, I16, I64, I128, U32;
        I64 => I8, I16, I32, I128, U64;
        I128 => I8, I16, I32, I64, U128;
        u8 => U8, U16, U32, U64, U128;
        u16 => U16, U32, U64, U128;
        u32 => U32, U64, U128;
        u64 => U64, U128;
        u128 => U128;
        usize => U8, U64, U128;
        i8 => I8; i16 => I16; i32 => I32; i64 => I64; i128 => I128;
    );
    wrap!(mc, U8 u8 [], U16 u16 [u8], U32 u32 [u8, u16], U64 u64 [u8, u16, u32], U128 u128 [u8, u16, u32, u64],
        I8 i8 [], I16 i16 [i8, u8], I32 i32 [i8, i16, u16], I64 i64 [i8, i16, i32, u32], I128 i128 [i8, i16, i32, i64, u64]);
    mc.finish()
}
