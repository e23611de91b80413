//! C30: a test-vector file is loaded exactly as written, or refused.
use hacspec_dev::*;
use mc::*;
use serde_json::Value;
use std::path::PathBuf;

create_test_vectors!(Inner, x: u32, s: String);
create_test_vectors!(Vect, name: String, id: usize, flag: bool, data: Vec<u8>, note: Option<String>, inner: Vec<Inner>);
create_test_vectors!(Pair, s: String, n: i64);

type I = (u32, String);
type V = (String, usize, bool, Vec<u8>, Option<String>, Vec<I>);
type P = (String, i64);

fn plain_v(v: Vect) -> V {
    (v.name, v.id, v.flag, v.data, v.note, v.inner.into_iter().map(|i| (i.x, i.s)).collect())
}
fn plain_p(p: Pair) -> P {
    (p.s, p.n)
}
// ---- the model: what a JSON document means for a declared list of typed fields
fn fields(v: &Value, names: &[&str]) -> Option<Vec<Value>> {
    match v {
        Value::Object(m) => Some(names.iter().map(|n| m.get(*n).cloned().unwrap_or(Value::String("\u{0}absent".into()))).collect()),
        // a list in place of a record: fields by position (may also be refused)
        Value::Array(a) if a.len() == names.len() => Some(a.clone()),
        _ => None,
    }
}
fn absent(v: &Value) -> bool {
    v.as_str() == Some("\u{0}absent")
}
fn text(v: &Value) -> Option<String> {
    if absent(v) { None } else { v.as_str().map(|s| s.to_string()) }
}
fn nat(v: &Value, max: u64) -> Option<u64> {
    v.as_u64().filter(|x| *x <= max)
}
fn list<T>(v: &Value, f: impl Fn(&Value) -> Option<T>) -> Option<Vec<T>> {
    v.as_array()?.iter().map(f).collect()
}
fn model_i(v: &Value) -> Option<I> {
    let f = fields(v, &["x", "s"])?;
    Some((nat(&f[0], u32::MAX as u64)? as u32, text(&f[1])?))
}
fn model_v(v: &Value) -> Option<V> {
    let f = fields(v, &["name", "id", "flag", "data", "note", "inner"])?;
    let note = if f[4].is_null() || absent(&f[4]) { None } else { Some(text(&f[4])?) };
    Some((text(&f[0])?, nat(&f[1], u64::MAX)? as usize, f[2].as_bool()?, list(&f[3], |x| nat(x, 255).map(|x| x as u8))?, note, list(&f[5], model_i)?))
}
fn model_p(v: &Value) -> Option<P> {
    let f = fields(v, &["s", "n"])?;
    Some((text(&f[0])?, f[1].as_i64()?))
}
fn keys(v: &Value) -> usize {
    match v {
        Value::Object(m) => m.len() + m.values().map(keys).sum::<usize>(),
        Value::Array(a) => a.iter().map(keys).sum(),
        _ => 0,
    }
}
/// a record written as a list somewhere (positional fields), which may be accepted or refused
fn positional(v: &Value, depth: usize) -> bool {
    match v {
        Value::Array(a) => depth == 0 || a.iter().any(|x| positional(x, depth - 1)),
        Value::Object(m) => m.get("inner").and_then(|x| x.as_array()).map_or(false, |a| a.iter().any(|x| x.is_array())),
        _ => false,
    }
}
/// members written in a (well-formed) document: the colons outside strings
fn members(doc: &[u8]) -> usize {
    let (mut n, mut inside, mut esc) = (0, false, false);
    for c in doc {
        match (inside, esc, c) {
            (true, true, _) => esc = false,
            (true, false, b'\\') => esc = true,
            (_, _, b'"') => inside = !inside,
            (false, _, b':') => n += 1,
            _ => {}
        }
    }
    n
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Load {
    One,
    Many,
}
thread_local! { static SLOT: std::cell::RefCell<Option<&'static str>> = std::cell::RefCell::new(None); }
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn slot(dir: &PathBuf) -> &'static str {
    SLOT.with(|s| {
        *s.borrow_mut().get_or_insert_with(|| {
            let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            Box::leak(dir.join(format!("v{n}.json")).to_str().unwrap().to_string().into_boxed_str())
        })
    })
}
fn load_v(l: Load, f: &'static str) -> Vec<V> {
    match l {
        Load::One => vec![plain_v(Vect::new(f))],
        Load::Many => Vect::new_array(f).into_iter().map(plain_v).collect(),
    }
}
fn load_p(l: Load, f: &'static str) -> Vec<P> {
    match l {
        Load::One => vec![plain_p(Pair::new(f))],
        Load::Many => Pair::new_array(f).into_iter().map(plain_p).collect(),
    }
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned()
}
/// Write the document, load it, and compare with the model.
fn judge(t: &mut Tr, dir: &PathBuf, key: &str, doc: &[u8], l: Load) {
    let f = slot(dir);
    std::fs::write(f, doc).unwrap();
    let v: Option<Value> = serde_json::from_slice(doc).ok();
    let want = v.as_ref().and_then(|v| match l {
        Load::One => model_v(v).map(|x| vec![x]),
        Load::Many => list(v, model_v),
    });
    let twice = v.as_ref().map_or(false, |v| keys(v) < members(doc)); // a key written twice: refused, or one of the two
    let soft = twice || v.as_ref().map_or(false, |v| positional(v, if l == Load::One { 0 } else { 1 }));
    let case = || format!("{:?} of {}", l, show(doc));
    match want {
        Some(w) if soft => t.eq_or_refuse(key, case, w, || load_v(l, f)),
        None if twice => {}
        w => t.opt(key, case, w, || load_v(l, f)),
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    perms(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| { let mut q = p.clone(); q.insert(i, n - 1); q })).collect()
}
const KEYS: [&str; 6] = ["name", "id", "flag", "data", "note", "inner"];
fn record(k: usize) -> [String; 6] {
    let d: Vec<String> = (0..k % 4).map(|i| ((k * 37 + i * 101) % 256).to_string()).collect();
    [
        format!("\"v{k}\""),
        (k * 1000 + 7).to_string(),
        (k % 2 == 0).to_string(),
        format!("[{}]", d.join(",")),
        if k % 3 == 0 { "null".into() } else { format!("\"n{k}\"") },
        format!("[{}]", (0..k % 3).map(|i| format!("{{\"x\":{},\"s\":\"i{i}\"}}", k + i)).collect::<Vec<_>>().join(",")),
    ]
}
fn doc(r: &[String; 6]) -> String {
    format!("{{{}}}", (0..6).map(|i| format!("\"{}\":{}", KEYS[i], r[i])).collect::<Vec<_>>().join(","))
}
const TOKENS: &[&[u8]] = &[b"\xef\xbb\xbf", b"//x\n", b"/**/", b"# x\n", b"\r\n", b"NaN", b"Infinity", b"null", b"true", b",,", b"{}", b"[]", b"\\u0000", b"\\n", b"\xc2\xa0", b"\xc3\xa9", b"\0\0", b"1e2", b"0x", b".0", b"e0", b"00", b"-1"];

fn main() {
    let mc = Mc::new("C30");
    let dir = std::env::temp_dir().join(format!("mc-c30-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    // the loader prints its parse errors: keep them out of the report
    engine::mute();
    let dir = &dir;

    let ws: [(&str, &str, &str); 6] = [("", "", ""), (" ", " ", " "), ("\n", "\n  ", "\n"), ("\t", "\t\t", "\t "), ("\r\n", "\r\n\t", "\r\n"), ("   \n\n\n", " \t\r\n ", "\n\n")];
    mc.bound("every order of the six fields of a record, six whitespace layouts, as a single record and in an array");
    let ps = perms(6);
    mc.phase("field order", ps.len(), |i, t| {
        for (o, m, c) in ws {
            for k in 0..4 {
                let r = record(k);
                let d = format!("{o}{{{m}{}{c}}}{o}", ps[i].iter().map(|j| format!("\"{}\"{c}:{m}{}", KEYS[*j], r[*j])).collect::<Vec<_>>().join(&format!("{c},{m}")));
                judge(t, dir, "field order", d.as_bytes(), Load::One);
                judge(t, dir, "field order", format!("{o}[{m}{d}{c}]{o}").as_bytes(), Load::Many);
                judge(t, dir, "one for many", d.as_bytes(), Load::Many);
                judge(t, dir, "many for one", format!("[{d}]").as_bytes(), Load::One);
            }
        }
    });

    let vals = [
        "null", "true", "false", "0", "-0", "1", "255", "256", "-1", "-128", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "1.0", "1e2", "0.5", "1e400", "01", "+1", "0x10", "NaN",
        "\"\"", "\"7\"", "\"true\"", "\"null\"", "\"a\\\"b\\\\\\u0041\\n\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "'x'", "x", "\"unterminated", "[]", "[0]", "[255,0]", "[256]", "[-1]", "[\"1\"]", "[1.5]", "[null]", "[[1]]", "[1,]", "{}", "{\"x\":1}", "[{}]",
        "[{\"x\":1,\"s\":\"q\"}]", "[{\"x\":4294967295,\"s\":\"\"},{\"s\":\"w\",\"x\":0}]", "[{\"x\":4294967296,\"s\":\"q\"}]", "[{\"x\":1}]", "[{\"x\":\"1\",\"s\":\"q\"}]", "[{\"x\":1,\"s\":2}]", "[{\"x\":1,\"s\":\"q\",\"z\":3}]", "[{\"x\":1,\"s\":null}]", "", "[1 2]", "{\"x\" 1}",
    ];
    let nv = vals.len();
    mc.bound(format!("every field set to each of {nv} JSON values, every pair of fields, missing fields in every combination, an unknown field at every place"));
    mc.phase("values", 36 * nv, |i, t| {
        let (a, b, x) = (i / nv / 6, i / nv % 6, i % nv);
        for y in if a == b { 0..1 } else { 0..nv } {
            let mut r = record(5);
            r[a] = vals[x].into();
            if a != b {
                r[b] = vals[y].into();
            }
            let d = doc(&r);
            judge(t, dir, "values", d.as_bytes(), Load::One);
            if a == b {
                judge(t, dir, "values", format!("[{},{d}]", doc(&record(1))).as_bytes(), Load::Many);
                judge(t, dir, "values", format!("[{d},{}]", doc(&record(1))).as_bytes(), Load::Many);
            }
        }
    });
    let extra = ["\"extra\":1", "\"Name\":\"x\"", "\"ID\":3", "\"name_\":[1,{\"name\":\"y\"}]", "\"\":null", "\"dat\":[9]"];
    mc.phase("missing and unknown", 64, |i, t| {
        let r = record(5);
        for e in 0..=extra.len() {
            for p in 0..7 {
                let mut f: Vec<String> = (0..6).filter(|j| i >> j & 1 == 1).map(|j| format!("\"{}\":{}", KEYS[j], r[j])).collect();
                if e < extra.len() {
                    f.insert(p.min(f.len()), extra[e].to_string());
                }
                judge(t, dir, "missing and unknown", format!("{{{}}}", f.join(",")).as_bytes(), Load::One);
                judge(t, dir, "missing and unknown", format!("[{},{{{}}}]", doc(&record(2)), f.join(",")).as_bytes(), Load::Many);
            }
        }
    });

    // arrays: every sequence of up to `len` records out of five (the last of which is malformed)
    let len = mc.q(5, 6);
    mc.bound(format!("every array of up to {len} records out of four good ones and one with a wrong type"));
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    for _ in 0..len {
        let end = seqs.len();
        for k in at..end {
            for x in 0..5 {
                let mut q = seqs[k].clone();
                q.push(x);
                seqs.push(q);
            }
        }
        at = end;
    }
    let rec: Vec<String> = (0..5).map(|k| { let mut r = record(k); if k == 4 { r[1] = "\"12\"".into() } doc(&r) }).collect();
    mc.phase("arrays", seqs.len(), |i, t| {
        let d = format!("[{}]", seqs[i].iter().map(|k| rec[*k].clone()).collect::<Vec<_>>().join(",\n"));
        judge(t, dir, "arrays", d.as_bytes(), Load::Many);
        // records one after the other without a list are not one document
        if seqs[i].len() > 1 {
            let d = seqs[i].iter().map(|k| rec[*k].clone()).collect::<Vec<_>>().join("\n");
            judge(t, dir, "several documents", d.as_bytes(), Load::One);
            judge(t, dir, "several documents", d.as_bytes(), Load::Many);
        }
    });
    // lengths around the buffer sizes of a buffered reader
    mc.bound("documents whose length sweeps every value around 4096, 8192, 16384 and 65536 bytes; an array of 20000 records");
    mc.phase("lengths", 4 * 64, |i, t| {
        let n = [4096, 8192, 16384, 65536][i / 64] - 40 + i % 64;
        for fill in ["a", "\\u00e9", "é", "😀"] {
            let mut r = record(5);
            r[0] = format!("\"{}\"", fill.repeat((n - doc(&record(5)).len()) / fill.len()));
            judge(t, dir, "lengths", doc(&r).as_bytes(), Load::One);
        }
        let mut r = record(5);
        r[3] = format!("[{}]", (0..n / 4).map(|k| (k % 256).to_string()).collect::<Vec<_>>().join(","));
        judge(t, dir, "lengths", doc(&r).as_bytes(), Load::One);
        let many: Vec<String> = (0..n / 80).map(|k| doc(&record(k))).collect();
        judge(t, dir, "lengths", format!("[{}]", many.join(",")).as_bytes(), Load::Many);
        judge(t, dir, "lengths", format!("[{}", many.join(",")).as_bytes(), Load::Many);
    });
    mc.phase("long array", 1, |_, t| {
        let many: Vec<String> = (0..20000).map(|k| doc(&record(k))).collect();
        judge(t, dir, "long array", format!("[{}]", many.join(",")).as_bytes(), Load::Many);
    });
    // every character
    mc.bound("every Unicode scalar value in a string, escaped and verbatim (blocks of 256)");
    mc.phase("characters", 0x110000 / 256, |i, t| {
        let cs: Vec<char> = (i as u32 * 256..i as u32 * 256 + 256).filter_map(char::from_u32).collect();
        let esc: String = cs.iter().map(|c| { let mut b = [0u16; 2]; c.encode_utf16(&mut b).iter().map(|u| format!("\\u{u:04x}")).collect::<String>() }).collect();
        let raw: String = cs.iter().filter(|c| **c >= ' ' && **c != '"' && **c != '\\').collect();
        let s: String = cs.iter().collect();
        let f = slot(dir);
        let rs: String = raw.clone();
        std::fs::write(f, format!("{{\"s\":\"{esc}\",\"n\":{}}}", -(i as i64))).unwrap();
        t.eq("escaped characters", || format!("block {i:x}"), vec![(s, -(i as i64))], || load_p(Load::One, f));
        std::fs::write(f, format!("[{{\"n\":{i},\"s\":\"{raw}\"}}]")).unwrap();
        t.eq("characters", || format!("block {i:x}"), vec![(rs, i as i64)], || load_p(Load::Many, f));
    });
    // damaged files
    let base = |m: bool| -> Vec<u8> {
        let d = "{\"name\":\"v\\u00e9 x\",\"id\":12,\"flag\":true,\"data\":[1,20],\"note\":\"é\",\"zz\":null,\"inner\":[{\"x\":3,\"s\":\"q\"}]}";
        if m { format!("[{d},\n{d}]").into_bytes() } else { d.as_bytes().to_vec() }
    };
    let full = mc.q(false, true);
    mc.bound("a record and an array of two records: truncation at every byte, removal, doubling and replacement of every byte by every value (array: every value in the thorough tier), insertion of every value and of tokens that lax parsers tolerate (byte order mark, comments, NaN, separators) at every place, removal of every span, repetition of every short span, swaps of neighbouring bytes; trailing bytes");
    for m in [false, true] {
        let b = base(m);
        let l = if m { Load::Many } else { Load::One };
        let vs: Vec<u8> = if full || !m { (0..=255).collect() } else { b" \n\"\\,:[]{}0159-.eEtfnlaxsz\x00\x7f\x80\xc3\xff".to_vec() };
        mc.phase(if m { "damaged array" } else { "damaged record" }, b.len() + 1, |i, t| {
            judge(t, dir, "truncated", &b[..i], l);
            for v in &vs {
                let mut x = b.clone();
                x.insert(i, *v);
                judge(t, dir, "inserted byte", &x, l);
                if i < b.len() {
                    x.remove(i + 1);
                    judge(t, dir, "replaced byte", &x, l);
                }
            }
            for tok in TOKENS {
                let mut x = b[..i].to_vec();
                x.extend_from_slice(tok);
                x.extend_from_slice(&b[i..]);
                judge(t, dir, "inserted token", &x, l);
            }
            for j in i + 2..=b.len() {
                let mut x = b[..i].to_vec();
                x.extend_from_slice(&b[j..]);
                judge(t, dir, "removed span", &x, l);
                if j - i < 24 {
                    let mut x = b[..j].to_vec();
                    x.extend_from_slice(&b[i..]);
                    judge(t, dir, "repeated span", &x, l);
                }
            }
            if i < b.len() {
                let mut x = b.clone();
                x.remove(i);
                judge(t, dir, "removed byte", &x, l);
                let mut x = b.clone();
                x.insert(i, b[i]);
                judge(t, dir, "doubled byte", &x, l);
                judge(t, dir, "head missing", &b[i..], l);
                if i + 1 < b.len() {
                    let mut x = b.clone();
                    x.swap(i, i + 1);
                    judge(t, dir, "swapped bytes", &x, l);
                }
            }
        });
    }
    // histories of writing and loading one file: a load sees the file as it is now
    let d = mc.q(5, 6);
    mc.bound(format!("every history of {d} events out of: write record A, write record B, write an array, write a damaged file, remove the file, load one, load many (other declared type, too)"));
    let ev = 8usize;
    let n = ev.pow(d as u32 - 2);
    mc.phase("histories", n, |i, t| {
        for tail in 0..ev * ev {
            let f = slot(dir);
            let _ = std::fs::remove_file(f);
            let mut now: Option<Vec<u8>> = None;
            let mut x = i * ev * ev + tail;
            let mut past = String::new();
            for _ in 0..d {
                let e = x % ev;
                x /= ev;
                past.push_str(["A ", "B ", "array ", "damaged ", "remove ", "one ", "many ", "pair "][e]);
                let mut put = |b: &str| { std::fs::write(f, b).unwrap(); now = Some(b.as_bytes().to_vec()) };
                match e {
                    0 => put(&rec[1]),
                    1 => put(&rec[2].replace(":\"v2\"", ":\"v2\", \"s\" :\"t\", \"n\": -5")),
                    2 => put(&format!("[{},{}]", rec[3], rec[0])),
                    3 => put(&rec[1][..rec[1].len() - 1]),
                    4 => { let _ = std::fs::remove_file(f); now = None }
                    7 => {
                        let want = now.as_ref().and_then(|b| serde_json::from_slice::<Value>(b).ok()).and_then(|v| model_p(&v)).map(|x| vec![x]);
                        t.opt("history pair", || past.clone(), want, || load_p(Load::One, f))
                    }
                    e => {
                        let v = now.as_ref().and_then(|b| serde_json::from_slice::<Value>(b).ok());
                        let (l, want) = if e == 5 { (Load::One, v.and_then(|v| model_v(&v)).map(|x| vec![x])) } else { (Load::Many, v.and_then(|v| list(&v, model_v))) };
                        t.opt("history", || past.clone(), want, || load_v(l, f))
                    }
                }
            }
        }
    });
    mc.phase("no file", 4, |i, t| {
        let p: &'static str = match i {
            0 => Box::leak(dir.join("absent.json").to_str().unwrap().to_string().into_boxed_str()),
            1 => Box::leak(dir.to_str().unwrap().to_string().into_boxed_str()),
            2 => "",
            _ => "no/such/dir/x.json",
        };
        t.refuses("no file", || p.to_string(), || load_v(Load::One, p));
        t.refuses("no file", || p.to_string(), || load_v(Load::Many, p));
        t.refuses("no file", || p.to_string(), || load_p(Load::Many, p));
    });
    std::fs::remove_dir_all(dir).unwrap();
    mc.assume("serde_json's generic Value parser decides which byte strings are JSON documents (a third-party crate, not part of the repository)");
    mc.finish()
}
