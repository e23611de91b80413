//! C04: the typing discipline of secret values.  The relation (type, operation, operand type) is
//! finite; every triple is asked of the compiler itself and compared with the documented table.
use hacspec::prelude::*;
use mc::{Mc, Tr};
use std::hash::Hash;
use std::marker::PhantomData;

bytes!(SB, 4);
array!(SA32, 4, U32);
array!(SA128, 2, U128);
public_bytes!(PB, 4);
array!(PA32, 4, u32);
unsigned_integer!(SU, 64);
signed_integer!(SI, 64);
unsigned_public_integer!(PU, 64);
signed_public_integer!(PI, 64);
nat_mod!(SM, SMBase, 64, "00000000ffffff1d");
public_nat_mod!(PM, PMBase, 64, "00000000ffffff1d");
both_bytes!(BothP, BothS, 4);
generic_array!(GA, 4);

struct Q<T: ?Sized>(PhantomData<T>);
trait No {
    const V: bool = false;
}
impl<T: ?Sized> No for Q<T> {}

/// does `$t: $b` hold?  (an inherent constant shadows the blanket one exactly when the bound holds)
macro_rules! is {
    ($t:ty : $($b:tt)+) => {{
        struct Y<T>(PhantomData<T>);
        impl<T> No for Y<T> {}
        #[allow(dead_code)]
        impl<T: $($b)+> Y<T> {
            const V: bool = true;
        }
        <Y<$t>>::V
    }};
}
struct Row {
    key: String,
    want: bool,
    got: bool,
}
macro_rules! deny {
    ($v:expr, $t:ty : $($b:tt)+) => { $v.push(Row { key: concat!(stringify!($t), " must not be ", stringify!($($b)+)).to_string(), want: false, got: is!($t : $($b)+) }) };
}
macro_rules! allow {
    ($v:expr, $t:ty : $($b:tt)+) => { $v.push(Row { key: concat!(stringify!($t), " is ", stringify!($($b)+)).to_string(), want: true, got: is!($t : $($b)+) }) };
}
/// no branch, order, hash, division, secret shift, iteration or pointer view of a secret value
macro_rules! sealed {
    ($v:expr, $($t:ty),+) => {$(
        deny!($v, $t: PartialEq);
        deny!($v, $t: PartialOrd);
        deny!($v, $t: Eq);
        deny!($v, $t: Ord);
        deny!($v, $t: Hash);
        deny!($v, $t: Div);
        deny!($v, $t: Rem);
        deny!($v, $t: DivAssign);
        deny!($v, $t: RemAssign);
        deny!($v, $t: std::ops::Deref);
        deny!($v, $t: Into<bool>);
        deny!($v, $t: Shl<$t>);
        deny!($v, $t: Shr<$t>);
        deny!($v, $t: std::slice::SliceIndex<[u8]>);
        allow!($v, $t: Copy);
        allow!($v, $t: Add);
        allow!($v, $t: Sub);
        allow!($v, $t: Mul);
    )+};
}
/// the same against every public integer type
macro_rules! nomix {
    ($v:expr, [$($t:ty),+], $ps:tt) => {$( nomix!(@ $v, $t, $ps); )+};
    (@ $v:expr, $t:ty, [$($p:ty),+]) => {$(
        deny!($v, $t: PartialEq<$p>);
        deny!($v, $t: PartialOrd<$p>);
        deny!($v, $t: Div<$p>);
        deny!($v, $t: Rem<$p>);
        deny!($v, $p: PartialEq<$t>);
        deny!($v, $p: PartialOrd<$t>);
        deny!($v, $p: Div<$t>);
        deny!($v, $p: Rem<$t>);
        deny!($v, $p: Add<$t>);
        deny!($v, $p: Shl<$t>);
        deny!($v, $p: Shr<$t>);
    )+};
}
/// secret integers never index memory
macro_rules! noindex {
    ($v:expr, [$($c:ty),+], $ss:tt) => {$( noindex!(@ $v, $c, $ss); )+};
    (@ $v:expr, $c:ty, [$($s:ty),+]) => {$(
        deny!($v, $c: Index<$s>);
        deny!($v, $c: IndexMut<$s>);
        deny!($v, $c: Index<Range<$s>>);
    )+};
}
macro_rules! noconv {
    ($v:expr, $($s:ident -> [$($p:ty),*]);+ $(;)?) => {$($( deny!($v, $s: Into<$p>); )*)+};
}

fn main() {
    let _ = Q::<u8>::V;
    let mc = Mc::new("C04");
    // the detector itself
    mc.selftest("trait detector", is!(u8: PartialEq) && is!(u8: Div) && !is!(u8: Index<u8>) && !is!(Vec<u8>: Copy) && is!(Vec<u8>: Index<usize>));
    let mut v: Vec<Row> = vec![];
    sealed!(v, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128);
    sealed!(v, SU, SI, SM);
    macro_rules! arr { ($($t:ty),+) => {$(
        deny!(v, $t: PartialEq); deny!(v, $t: PartialOrd); deny!(v, $t: Eq); deny!(v, $t: Ord); deny!(v, $t: Hash);
        deny!(v, $t: Div); deny!(v, $t: std::ops::Deref); deny!(v, $t: AsRef<[u8]>); deny!(v, $t: AsRef<[u32]>);
    )+}; }
    arr!(SB, SA32, SA128, BothS, SecretSeq<U8>, SecretSeq<U32>, SecretSeq<I64>, Seq<U32>, Seq<U64>, Seq<I8>, GA<U8>, GA<U32>);
    nomix!(v, [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128], [u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128]);
    noindex!(v, [Seq<u8>, Seq<U8>, Seq<U32>, PublicSeq<u8>, PublicSeq<u32>, SecretSeq<U8>, SB, PB, SA32, PA32, GA<u8>, GA<U8>, [u8; 4], Vec<u8>, Vec<U8>],
        [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128]);
    // a secret of one width is not silently mixed with another one
    macro_rules! widths { ($($a:ty => [$($b:ty),+]);+) => {$($( deny!(v, $a: Add<$b>); deny!(v, $a: BitXor<$b>); deny!(v, $a: PartialEq<$b>); )+)+}; }
    widths!(U8 => [U16, U32, U64, U128, I8]; U16 => [U8, U32, U64, U128, I16]; U32 => [U8, U16, U64, U128, I32]; U64 => [U8, U16, U32, U128, I64]; U128 => [U8, U16, U32, U64, I128]);
    // conversions out of the secret world: only the documented widening table (unsigned, never narrowing, never bool/char)
    noconv!(v,
        U8 -> [bool, char, i8, i16, i32, i64, i128, isize];
        U16 -> [bool, char, u8, usize, i8, i16, i32, i64, i128, isize];
        U32 -> [bool, char, u8, u16, usize, i8, i16, i32, i64, i128, isize];
        U64 -> [bool, char, u8, u16, u32, usize, i8, i16, i32, i64, i128, isize];
        U128 -> [bool, char, u8, u16, u32, u64, usize, i8, i16, i32, i64, i128, isize];
        I8 -> [bool, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize];
        I16 -> [bool, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize];
        I32 -> [bool, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize];
        I64 -> [bool, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize];
        I128 -> [bool, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize]);
    noconv!(v, SU -> [u8, u16, u32, u64, u128, usize, bool]; SM -> [u8, u16, u32, u64, u128, usize, bool]);
    // kinds: a type is secret or public, never both
    macro_rules! kind { (sec [$($s:ty),+] pub [$($p:ty),+]) => {
        $( allow!(v, $s: SecretInteger); deny!(v, $s: PublicInteger); )+
        $( deny!(v, $p: SecretInteger); allow!(v, $p: PublicInteger); allow!(v, $p: PartialEq); allow!(v, $p: Div); )+
    }; }
    kind!(sec [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128] pub [u8, u16, u32, u64, u128, i8, i16, i32, i64, i128]);
    macro_rules! sgn { ($($s:ty, $u:ty);+) => {$(
        allow!(v, $u: UnsignedInteger); deny!(v, $u: SignedInteger); allow!(v, $s: SignedInteger); deny!(v, $s: UnsignedInteger);
    )+}; }
    sgn!(i8, u8; i16, u16; i32, u32; i64, u64; i128, u128; I8, U8; I16, U16; I32, U32; I64, U64; I128, U128);
    // public counterparts keep what a public value may do
    macro_rules! open { ($($t:ty),+) => {$( allow!(v, $t: PartialEq); allow!(v, $t: PartialOrd); allow!(v, $t: Div); allow!(v, $t: Rem); )+}; }
    open!(PU, PI, PM);
    allow!(v, PB: PartialEq);
    allow!(v, PA32: Ord);
    // every ordered pair of different secret integer types, every binary operation
    macro_rules! pairs {
        ($f:ident; $x:ty; $($rest:ty),*) => { $( $f!($x, $rest); $f!($rest, $x); )* pairs!($f; $($rest),*); };
        ($f:ident; $x:ty, $($rest:ty),*) => { $( $f!($x, $rest); $f!($rest, $x); )* pairs!($f; $($rest),*); };
        ($f:ident; $x:ty) => {};
    }
    macro_rules! apart { ($a:ty, $b:ty) => {
        deny!(v, $a: Add<$b>); deny!(v, $a: Sub<$b>); deny!(v, $a: Mul<$b>); deny!(v, $a: Div<$b>); deny!(v, $a: Rem<$b>);
        deny!(v, $a: BitAnd<$b>); deny!(v, $a: BitOr<$b>); deny!(v, $a: BitXor<$b>); deny!(v, $a: Shl<$b>); deny!(v, $a: Shr<$b>);
        deny!(v, $a: AddAssign<$b>); deny!(v, $a: SubAssign<$b>); deny!(v, $a: MulAssign<$b>); deny!(v, $a: DivAssign<$b>); deny!(v, $a: RemAssign<$b>);
        deny!(v, $a: BitAndAssign<$b>); deny!(v, $a: BitOrAssign<$b>); deny!(v, $a: BitXorAssign<$b>); deny!(v, $a: ShlAssign<$b>); deny!(v, $a: ShrAssign<$b>);
        deny!(v, $a: PartialEq<$b>); deny!(v, $a: PartialOrd<$b>);
    }; }
    pairs!(apart; U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, SU, SI, SM);
    // no secret as a shift amount of anything
    macro_rules! noshift { ($([$s:ty; $($p:ty),+])+) => {$($(
        deny!(v, $p: Shl<$s>); deny!(v, $p: Shr<$s>); deny!(v, $p: ShlAssign<$s>); deny!(v, $p: ShrAssign<$s>); deny!(v, $p: Rem<$s>); deny!(v, $p: Div<$s>);
        deny!(v, $p: PartialEq<$s>); deny!(v, $p: PartialOrd<$s>);
    )+)+}; }
    noshift!([SU; u8, u16, u32, u64, u128, usize, PU, PI] [SI; u8, u16, u32, u64, u128, usize, PU, PI] [SM; u8, u16, u32, u64, u128, usize, PU, PI, PM]
        [U8; usize, isize, PU, PI, PM, SB, SA32] [U16; usize, isize, PU, PI, PM] [U32; usize, isize, PU, PI, PM, SA32] [U64; usize, isize, PU, PI, PM] [U128; usize, isize, PU, PI, PM, SA128]
        [I8; usize, isize, PU, PI, PM] [I32; usize, isize, PU, PI, PM] [I64; usize, isize, PU, PI, PM] [BothS; BothP, SB]);
    noindex!(v, [BothS, BothP, SA128, SecretSeq<U32>, SecretSeq<I64>, Seq<U64>, Seq<u64>, PublicSeq<u64>, Vec<u64>, [u64; 4]], [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128]);
    noindex!(v, [Seq<u8>, Seq<U8>, PublicSeq<u8>, SecretSeq<U8>, SB, PB, SA32, PA32, GA<u8>, Vec<u8>], [SU, SI, SM]);
    // (the remainder of arrays exists and always panics)
    // arrays and sequences of secrets: nothing that compares, orders, hashes or reveals
    macro_rules! contents { ($($t:ty),+) => {$(
        deny!(v, $t: PartialOrd); deny!(v, $t: Eq); deny!(v, $t: Ord); deny!(v, $t: Hash); deny!(v, $t: Div); deny!(v, $t: DivAssign); deny!(v, $t: RemAssign);
        deny!(v, $t: std::ops::Deref); deny!(v, $t: std::ops::DerefMut); deny!(v, $t: AsRef<[u8]>); deny!(v, $t: AsMut<[u8]>); deny!(v, $t: std::borrow::Borrow<[u8]>);
        deny!(v, $t: AsRef<[u32]>); deny!(v, $t: AsRef<[u64]>); deny!(v, $t: AsRef<[u128]>); deny!(v, $t: AsRef<str>);
        deny!(v, $t: Into<Vec<u8>>); deny!(v, $t: Into<Vec<u32>>); deny!(v, $t: Into<Vec<u64>>); deny!(v, $t: Into<[u8; 4]>); deny!(v, $t: Into<[u32; 4]>); deny!(v, $t: Into<String>);
        deny!(v, $t: Into<PublicSeq<u8>>); deny!(v, $t: Into<PublicSeq<u32>>); deny!(v, $t: Into<Seq<u8>>); deny!(v, $t: Into<PB>); deny!(v, $t: Into<BothP>); deny!(v, $t: Into<PA32>);
        deny!(v, $t: Into<u8>); deny!(v, $t: Into<u32>); deny!(v, $t: Into<u64>); deny!(v, $t: Into<u128>); deny!(v, $t: Into<bool>);
        deny!(v, $t: PartialEq<PB>); deny!(v, $t: PartialEq<[u8]>); deny!(v, $t: PartialEq<[u8; 4]>); deny!(v, $t: PartialEq<Vec<u8>>); deny!(v, $t: PartialEq<Seq<u8>>); deny!(v, $t: PartialEq<PublicSeq<u8>>);
        deny!(v, $t: Iterator); deny!(v, $t: IntoIterator<Item = u8>); deny!(v, $t: IntoIterator<Item = u32>); deny!(v, $t: IntoIterator<Item = u64>);
    )+}; }
    contents!(SB, SA32, SA128, BothS, Seq<U8>, Seq<U16>, Seq<U32>, Seq<U64>, Seq<U128>, Seq<I8>, Seq<I32>, Seq<I64>, SecretSeq<U8>, SecretSeq<U16>, SecretSeq<U32>, SecretSeq<U64>, SecretSeq<U128>, SecretSeq<I8>, SecretSeq<I32>, SecretSeq<I64>, GA<U8>, GA<U32>, Seq<SB>, Seq<SA32>);
    macro_rules! nocontents { ($($t:ty),+) => {$( deny!(v, $t: PartialEq); )+}; }
    nocontents!(Seq<U16>, Seq<U128>, Seq<I32>, Seq<I64>, SecretSeq<U16>, SecretSeq<U64>, SecretSeq<U128>, SecretSeq<I8>, SecretSeq<I32>, Seq<SB>, Seq<SA32>);
    // scalars: no view of the contents, no fallible or floating-point way out either
    macro_rules! scalar { ($($t:ty),+) => {$(
        deny!(v, $t: AsRef<u8>); deny!(v, $t: AsRef<u32>); deny!(v, $t: AsRef<u64>); deny!(v, $t: AsRef<u128>); deny!(v, $t: AsRef<[u8]>); deny!(v, $t: std::ops::DerefMut);
        deny!(v, $t: std::borrow::Borrow<u8>); deny!(v, $t: std::borrow::Borrow<u32>); deny!(v, $t: std::borrow::Borrow<u64>); deny!(v, $t: std::borrow::Borrow<u128>);
        deny!(v, $t: Into<bool>); deny!(v, $t: Into<char>); deny!(v, $t: Into<f32>); deny!(v, $t: Into<f64>); deny!(v, $t: Into<isize>); deny!(v, $t: Into<Option<bool>>); deny!(v, $t: TryInto<bool>); deny!(v, $t: TryInto<char>);
        deny!(v, $t: Into<String>); deny!(v, $t: Into<Vec<u8>>); deny!(v, $t: std::ops::Not<Output = bool>); deny!(v, $t: std::ops::RangeBounds<usize>);
        deny!(v, std::ops::Range<$t>: Iterator); deny!(v, $t: PartialEq<bool>); deny!(v, bool: PartialEq<$t>); deny!(v, bool: From<$t>); deny!(v, usize: TryFrom<$t, Error = std::num::TryFromIntError>);
    )+}; }
    scalar!(U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, SU, SI, SM);
    macro_rules! notry { ($($s:ident -> [$($p:ty),*]);+ $(;)?) => {$($( deny!(v, $s: TryInto<$p>); )*)+}; }
    notry!(U16 -> [u8, i8, i16, i32]; U32 -> [u8, u16, usize, i32]; U64 -> [u8, u16, u32, usize, i64]; U128 -> [u8, u16, u32, u64, usize, i128];
        I8 -> [u8, i8, i16, i32, i64]; I16 -> [u8, u16, i8, i16, i32]; I32 -> [u8, u32, i8, i32, i64]; I64 -> [u64, i32, i64, i128]; I128 -> [u64, u128, i64, i128];
        SU -> [u8, u16, u32, u64, u128, usize]; SI -> [u8, u32, u64, i8, i32, i64, i128]; SM -> [u8, u16, u32, u64, u128, usize]);
    // a secret modular or bounded integer does not turn into its public twin
    deny!(v, SU: Into<PU>); deny!(v, SI: Into<PI>); deny!(v, SM: Into<PM>); deny!(v, SU: Into<PI>); deny!(v, SM: Into<PU>); deny!(v, SI: Into<PU>);
    mc.bound(format!("{} (type, operation, operand) triples", v.len()));
    mc.phase("typing", v.len(), |i, t: &mut Tr| {
        let r = &v[i];
        t.eq(&r.key, || "trait table".into(), r.want, || r.got);
    });
    mc.finish()
}
