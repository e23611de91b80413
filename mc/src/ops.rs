//! Container operations as data, and the reference model: a plain vector.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ix {
    U8,
    U32,
    I32,
    Usize,
}
pub const IXS: [Ix; 4] = [Ix::U8, Ix::U32, Ix::I32, Ix::Usize];
/// how an argument sequence is presented to the operation
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Arg {
    /// Seq<T> of that length
    Seq(usize),
    /// the container under test itself (fixed arrays: only at their own length)
    Own(usize),
    /// a fixed array of 3 elements
    Arr3,
}
impl Arg {
    pub fn len(&self) -> usize {
        match self {
            Arg::Seq(n) | Arg::Own(n) => *n,
            Arg::Arr3 => 3,
        }
    }
    pub fn vals(&self) -> Vec<u64> {
        (0..self.len() as u64).map(|i| (i + 100) % 200 + 1).collect()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Get(Ix, i64),
    Set(Ix, i64, u64),
    UpdateSub(usize, Arg, usize, usize),
    Update(usize, Arg),
    UpdateStart(Arg),
    Sub(usize, usize),
    Subr(usize, usize),
    FromSub(Arg, usize, usize),
    FromSubRange(Arg, usize, usize),
    NumChunks(usize),
    GetChunk(usize, usize),
    SetChunk(usize, usize, Arg),
    ChunkLen(usize, usize),
    Range(usize, usize),
    FromVec(usize),
    FromSlice(usize),
    FromSeq(Arg),
    New(usize),
    Create(usize),
    Default,
    /// write through the original after cloning; the clone is kept
    CloneThenWrite(usize, u64),
}
/// what a step lets the caller see besides the container itself
pub type Obs = (usize, Vec<u64>);
pub enum Want {
    /// new contents and observation
    Is(Vec<u64>, Obs),
    /// as above, but refusing is allowed too
    IsOrRefused(Vec<u64>, Obs),
    Refused,
}
fn fits(a: usize, b: usize, n: usize) -> bool {
    a.checked_add(b).map_or(false, |x| x <= n)
}
/// `fixed`: a fixed-length array (results of sub/chunk reads do not replace the container).
pub fn model(s: &[u64], op: &Op, fixed: bool) -> Want {
    use Want::*;
    let n = s.len();
    let no = || (0usize, vec![]);
    let put = |at: usize, v: &[u64]| {
        let mut o = s.to_vec();
        o[at..at + v.len()].copy_from_slice(v);
        o
    };
    let keep = |r: Vec<u64>, o: Obs| if fixed { Is(s.to_vec(), o) } else { Is(r, o) };
    let valid = |ix: Ix, i: i64| i >= 0 && (i as usize) < n && (ix != Ix::U8 || i < 256);
    match *op {
        Op::Get(ix, i) => {
            if valid(ix, i) {
                Is(s.to_vec(), (0, vec![s[i as usize]]))
            } else {
                Refused
            }
        }
        Op::Set(ix, i, v) => {
            if valid(ix, i) {
                Is(put(i as usize, &[v]), no())
            } else {
                Refused
            }
        }
        Op::UpdateSub(so, a, si, l) => {
            if fits(so, l, n) && fits(si, l, a.len()) {
                Is(put(so, &a.vals()[si..si + l]), no())
            } else {
                Refused
            }
        }
        Op::Update(so, a) => {
            if fits(so, a.len(), n) {
                Is(put(so, &a.vals()), no())
            } else {
                Refused
            }
        }
        Op::UpdateStart(a) => {
            if a.len() <= n {
                Is(put(0, &a.vals()), no())
            } else {
                Refused
            }
        }
        Op::Sub(st, l) => {
            if fits(st, l, n) {
                keep(s[st..st + l].to_vec(), (l, s[st..st + l].to_vec()))
            } else {
                Refused
            }
        }
        Op::Subr(a, b) => {
            if a <= b && b <= n {
                keep(s[a..b].to_vec(), (b - a, s[a..b].to_vec()))
            } else {
                Refused
            }
        }
        Op::FromSub(a, st, l) => {
            if fits(st, l, a.len()) && (!fixed || l == n) {
                Is(a.vals()[st..st + l].to_vec(), no())
            } else {
                Refused
            }
        }
        Op::FromSubRange(a, x, y) => {
            if x <= y && y <= a.len() && (!fixed || y - x == n) {
                Is(a.vals()[x..y].to_vec(), no())
            } else {
                Refused
            }
        }
        Op::NumChunks(c) => {
            if c == 0 {
                Refused
            } else {
                Is(s.to_vec(), ((n + c - 1) / c, vec![]))
            }
        }
        Op::GetChunk(c, k) | Op::ChunkLen(c, k) => {
            let st = c * k;
            if st > n {
                return Refused;
            }
            let l = c.min(n - st);
            let o = if matches!(op, Op::ChunkLen(..)) { (l, vec![]) } else { (l, s[st..st + l].to_vec()) };
            if c == 0 || st == n {
                // no such chunk: an empty one, or refused
                return IsOrRefused(if fixed || matches!(op, Op::ChunkLen(..)) { s.to_vec() } else { s[st..st + l].to_vec() }, o);
            }
            if matches!(op, Op::ChunkLen(..)) {
                Is(s.to_vec(), o)
            } else {
                keep(s[st..st + l].to_vec(), o)
            }
        }
        Op::SetChunk(c, k, a) => {
            let st = c * k;
            if st > n || a.len() != c.min(n - st) {
                Refused
            } else if a.len() == 0 {
                IsOrRefused(s.to_vec(), no())
            } else {
                Is(put(st, &a.vals()), no())
            }
        }
        Op::Range(a, b) => {
            if a <= b && b <= n {
                Is(s.to_vec(), (0, s[a..b].to_vec()))
            } else {
                Refused
            }
        }
        Op::FromVec(m) => {
            if fixed && m != n {
                Refused
            } else {
                Is(Arg::Seq(m).vals(), no())
            }
        }
        Op::FromSlice(m) => {
            if fixed && m > n {
                Refused
            } else {
                let mut v = Arg::Seq(m).vals();
                if fixed {
                    // shorter slices are zero-extended
                    v.resize(n, 0);
                }
                Is(v, no())
            }
        }
        Op::FromSeq(a) => {
            if fixed && a.len() != n {
                Refused
            } else {
                Is(a.vals(), no())
            }
        }
        Op::New(m) => Is(vec![0; if fixed { n } else { m }], no()),
        Op::Create(m) => {
            if fixed && m != n {
                Refused
            } else {
                Is(vec![0; m], no())
            }
        }
        Op::Default => Is(vec![0; if fixed { n } else { 0 }], no()),
        Op::CloneThenWrite(i, v) => {
            if i < n {
                Is(s.to_vec(), (0, put(i, &[v])))
            } else {
                Refused
            }
        }
    }
}
/// Every operation with parameters up to a little beyond length n; `own` = lengths the container itself can be presented at.
pub fn all_ops(n: usize, own: &dyn Fn(usize) -> bool, alen: usize, huge: bool) -> Vec<Op> {
    let mut v = vec![Op::Default];
    let mut args = vec![Arg::Arr3];
    for l in 0..=alen {
        args.push(Arg::Seq(l));
        if own(l) {
            args.push(Arg::Own(l));
        }
    }
    for ix in IXS {
        let mut is: Vec<i64> = (0..=n as i64 + 2).collect();
        match ix {
            Ix::I32 => is.extend([-1, -2, i32::MIN as i64, i32::MAX as i64]),
            Ix::U32 => is.extend([u32::MAX as i64, 256 + n as i64 / 2, 65536]),
            Ix::Usize => is.extend([i64::MAX, 256]),
            Ix::U8 => is.extend([255]),
        }
        for i in is {
            if ix == Ix::U8 && i > 255 {
                continue;
            }
            v.push(Op::Get(ix, i));
            v.push(Op::Set(ix, i, 77));
        }
    }
    for &a in &args {
        for so in 0..=n + 1 {
            v.push(Op::Update(so, a));
            for si in 0..=a.len() + 1 {
                for l in 0..=n.max(a.len()) + 1 {
                    v.push(Op::UpdateSub(so, a, si, l));
                }
            }
        }
        v.push(Op::UpdateStart(a));
        v.push(Op::FromSeq(a));
        for x in 0..=a.len() + 1 {
            for y in 0..=a.len() + 1 {
                v.push(Op::FromSub(a, x, y));
                v.push(Op::FromSubRange(a, x, y));
            }
        }
        for c in 0..=n + 2 {
            for k in 0..=n + 2 {
                if a.len() <= c + 1 {
                    v.push(Op::SetChunk(c, k, a));
                }
            }
        }
    }
    for x in 0..=n + 2 {
        for y in 0..=n + 2 {
            v.push(Op::Sub(x, y));
            v.push(Op::Subr(x, y));
            v.push(Op::Range(x, y));
            v.push(Op::GetChunk(x, y));
            v.push(Op::ChunkLen(x, y));
        }
        v.push(Op::NumChunks(x));
        v.push(Op::FromVec(x));
        v.push(Op::FromSlice(x));
        v.push(Op::New(x));
        v.push(Op::Create(x));
        v.push(Op::CloneThenWrite(x, 88));
    }
    if huge {
        let h = usize::MAX;
        for (a, b) in [(h, 1), (1, h), (h, h), (h, 0)] {
            v.push(Op::Sub(a, b));
            v.push(Op::UpdateSub(a, Arg::Arr3, 0, b.min(3)));
            v.push(Op::UpdateSub(0, Arg::Arr3, a, b.min(3)));
        }
        v.push(Op::Update(h, Arg::Arr3));
    }
    v
}
/// A container under test.
pub trait Cont: Clone {
    fn mk(v: &[u64]) -> Self;
    fn vals(&self) -> Vec<u64>;
    fn run(self, op: &Op) -> (Self, Obs);
}
/// Judge one step; returns the container to continue with (the old one after a refusal).
pub fn judge<C: Cont>(t: &mut crate::Tr, nm: &str, fixed: bool, c: C, hist: &dyn Fn() -> String, op: &Op) -> C {
    let before = c.vals();
    let keep = c.clone();
    let (want, may) = match model(&before, op, fixed) {
        Want::Is(s, o) => (Some((s, o)), false),
        Want::IsOrRefused(s, o) => (Some((s, o)), true),
        Want::Refused => (None, true),
    };
    if may && crate::lenient() {
        return c;
    }
    t.step();
    t.state(&(nm, op, &before));
    match crate::attempt(|| {
        let (c, o) = c.run(op);
        let v = c.vals();
        (c, v, o)
    }) {
        Ok((c, v, o)) => match want {
            Some((w, wo)) if w == v && wo == o => c,
            w => {
                t.fail(&format!("{nm} {}", name(op)), format!("{} on {:?}{}", show(op), before, hist()), format!("{:?}", w), format!("{:?}", (v, o)));
                c
            }
        },
        Err(e) => {
            if !may {
                t.fail(&format!("{nm} {}", name(op)), format!("{} on {:?}{}", show(op), before, hist()), format!("{:?}", want), format!("panic: {e}"));
            }
            keep
        }
    }
}
pub fn show(op: &Op) -> String {
    format!("{:?}", op)
}
pub fn name(op: &Op) -> String {
    let s = show(op);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}
/// element access shared by all containers
#[macro_export]
macro_rules! index_ops {
    ($c:ident, $op:expr, $w:expr, $r:expr) => {
        match *$op {
            Op::Get(Ix::U8, i) => Some($r($c[i as u8])),
            Op::Get(Ix::U32, i) => Some($r($c[i as u32])),
            Op::Get(Ix::I32, i) => Some($r($c[i as i32])),
            Op::Get(Ix::Usize, i) => Some($r($c[i as usize])),
            Op::Set(Ix::U8, i, v) => { $c[i as u8] = $w(v); None }
            Op::Set(Ix::U32, i, v) => { $c[i as u32] = $w(v); None }
            Op::Set(Ix::I32, i, v) => { $c[i as i32] = $w(v); None }
            Op::Set(Ix::Usize, i, v) => { $c[i as usize] = $w(v); None }
            _ => unreachable!(),
        }
    };
}
