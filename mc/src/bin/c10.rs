//! C10: hexadecimal text conversion is exact and refuses everything else.
use hacspec::prelude::*;
use mc::*;

bytes!(S1, 1);
bytes!(S2, 2);
bytes!(S3, 3);
public_bytes!(P1, 1);
public_bytes!(P2, 2);
public_bytes!(P3, 3);
bytes!(S40, 40);
public_bytes!(P40, 40);

/// the reference: an even number of hexadecimal digits
fn parse(s: &str) -> Option<Vec<u8>> {
    let d: Option<Vec<u8>> = s.chars().map(|c| match c { '0'..='9' => Some(c as u8 - b'0'), 'a'..='f' => Some(c as u8 - b'a' + 10), 'A'..='F' => Some(c as u8 - b'A' + 10), _ => None }).collect();
    let d = d?;
    if d.len() % 2 == 0 { Some(d.chunks(2).map(|c| c[0] * 16 + c[1]).collect()) } else { None }
}
fn at(v: Option<Vec<u8>>, l: usize) -> Option<String> {
    v.filter(|v| v.len() == l).map(|v| hx(&v))
}
fn judge(t: &mut Tr, s: &str) {
    let c = || format!("{:?}", s);
    let w = parse(s);
    let h = w.clone().map(|v| hx(&v));
    t.opt("hex_string_to_bytes", c, h.clone(), || hx(&hex_string_to_bytes(s)));
    t.opt("Seq<U8>::from_hex", c, h.clone(), || hx(&conv::vb(&Seq::<U8>::from_hex(s))));
    t.opt("Seq<U8>::from_string", c, h.clone(), || hx(&conv::vb(&Seq::<U8>::from_string(s.to_string()))));
    t.opt("PublicSeq<u8>::from_hex", c, h.clone(), || hx(&PublicSeq::<u8>::from_hex(s).iter().copied().collect::<Vec<u8>>()));
    t.opt("PublicSeq<u8>::from_string", c, h, || hx(&PublicSeq::<u8>::from_string(s.to_string()).iter().copied().collect::<Vec<u8>>()));
    macro_rules! arr { ($($S:ident $P:ident $l:expr),+) => {$(
        t.opt(concat!("bytes ", $l, " from_hex"), c, at(w.clone(), $l), || hx(&conv::vb(&$S::from_hex(s))));
        t.opt(concat!("public_bytes ", $l, " from_hex"), c, at(w.clone(), $l), || hx(&$P::from_hex(s).iter().copied().collect::<Vec<u8>>()));
    )+} }
    arr!(S1 P1 1, S2 P2 2, S3 P3 3, S40 P40 40);
}
fn main() {
    let mc = Mc::new("C10");
    mc.selftest("parser", parse("00fFA9") == Some(vec![0, 255, 0xa9]) && parse("0").is_none() && parse("+f").is_none() && parse("") == Some(vec![]));
    // every text of one and two ASCII characters, alone and inside longer texts
    mc.bound("every one- and two-character ASCII text, alone and at every place of a three-byte text");
    mc.phase("pairs", 128, |i, t| {
        let a = i as u8 as char;
        judge(t, &a.to_string());
        for j in 0..128u8 {
            let p = format!("{}{}", a, j as char);
            judge(t, &p);
            judge(t, &format!("{p}4d"));
            judge(t, &format!("4d{p}"));
            judge(t, &format!("4d{p}e1"));
            judge(t, &format!("c{p}a"));
        }
    });
    let al: Vec<char> = "09aAfFgG+-/:@`x \n_\u{e9}\u{661}\0".chars().collect();
    let n = mc.q(4u32, 5);
    mc.bound(format!("every text of up to {n} characters over {} boundary characters", al.len()));
    let k = al.len();
    mc.phase("texts", k * k, |i, t| {
        let mut m = 2;
        while m <= n {
            for r in 0..k.pow(m - 2) {
                let mut x = r;
                let mut s: String = [al[i / k], al[i % k]].iter().collect();
                for _ in 2..m {
                    s.push(al[x % k]);
                    x /= k;
                }
                judge(t, &s);
            }
            m += 1;
        }
    });
    mc.phase("empty", 1, |_, t| judge(t, ""));
    // long texts: every length around the array length, one bad character at every position
    mc.bound("length-80 texts with every boundary character at every position; every length 0..=90 in both cases");
    mc.phase("long", 91, |l, t| {
        let b = hx(&pattern(4, 50));
        judge(t, &b[..l]);
        judge(t, &b[..l].to_uppercase());
        if l < 80 {
            for c in &al {
                let mut v: Vec<char> = b[..80].chars().collect();
                v[l] = *c;
                judge(t, &v.into_iter().collect::<String>());
            }
        }
    });
    let big = [127usize, 128, 129, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537];
    mc.bound("texts of up to 131074 digits around the powers of two, sequences in both directions, one bad character at either end and in the middle");
    mc.phase("very-long", big.len() * 2, |i, t| {
        let b = pattern(4, big[i / 2]);
        let h = if i % 2 == 0 { hx(&b) } else { hx(&b).to_uppercase() };
        let n = h.len();
        t.eq("Seq<U8>::from_hex long", || format!("{n} digits"), b.clone(), || conv::vb(&ByteSeq::from_hex(&h)));
        t.eq("PublicSeq<u8>::from_hex long", || format!("{n} digits"), b.clone(), || PublicSeq::<u8>::from_hex(&h).iter().copied().collect::<Vec<u8>>());
        t.eq("Seq<U8>::to_hex long", || format!("{} bytes", n / 2), hx(&b), || conv::bs(&b).to_hex());
        t.refuses("Seq<U8>::from_hex long odd", || format!("{} digits", n - 1), || ByteSeq::from_hex(&h[1..]).len());
        for at in [0, n / 2, n / 2 + 1, n - 2, n - 1] {
            for c in ["g", "+", " "] {
                let s = format!("{}{c}{}", &h[..at], &h[at + 1..]);
                t.refuses("Seq<U8>::from_hex long", || format!("{n} digits, {c:?} at {at}"), || ByteSeq::from_hex(&s).len());
                t.refuses("PublicSeq<u8>::from_hex long", || format!("{n} digits, {c:?} at {at}"), || PublicSeq::<u8>::from_hex(&s).len());
            }
        }
    });
    // and back
    let n = mc.q(260, 1100);
    mc.bound(format!("to_hex of every byte value at every position of 3 bytes, and {PATTERNS} contents of every length 0..={n}"));
    mc.phase("to_hex", n + 1, |l, t| {
        for p in 0..PATTERNS {
            let b = pattern(p, l);
            let c = || hxs(&b);
            t.eq("Seq<U8>::to_hex", c, hx(&b), || conv::bs(&b).to_hex());
            t.eq("PublicSeq<u8>::to_hex", c, hx(&b), || PublicSeq::<u8>::from_slice(&b).to_hex());
            t.eq("Seq<U8> hex round trip", c, hx(&b), || Seq::<U8>::from_hex(&conv::bs(&b).to_hex()).to_hex());
            if l == 40 {
                t.eq("bytes 40 to_hex", c, hx(&b), || S40::from_public_slice(&b).to_hex());
                t.eq("public_bytes 40 to_hex", c, hx(&b), || P40::from_slice(&b).to_hex());
            }
        }
    });
    mc.phase("to_hex-values", 256, |v, t| {
        for i in 0..3 {
            let mut b = vec![0x1f, 0xf1, 0x00];
            b[i] = v as u8;
            t.eq("bytes 3 to_hex", || hx(&b), hx(&b), || S3::from_public_slice(&b).to_hex());
            t.eq("public_bytes 3 to_hex", || hx(&b), hx(&b), || P3::from_slice(&b).to_hex());
        }
    });
    mc.finish()
}
