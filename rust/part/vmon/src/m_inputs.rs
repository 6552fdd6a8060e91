//! Input files and symbol files: C14, C15, C16 and the Rust half of C17.
use crate::m_r1cs::put;
use crate::m_serial::text;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use zkenc_cli::{circom::parse_inputs, sym_parser::*};

// ---------------------------------------------------------------- C14
/// JSON text for a string: every character spelled in one of the ways JSON allows.
fn jstr(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        let must = (ch as u32) < 0x20 || ch == '"' || ch == '\\';
        if must || r.chance(1, 12) {
            match (ch, r.chance(1, 2)) {
                ('"', true) => o += "\\\"",
                ('\\', true) => o += "\\\\",
                ('/', true) => o += "\\/",
                ('\n', true) => o += "\\n",
                ('\r', true) => o += "\\r",
                ('\t', true) => o += "\\t",
                ('\u{8}', true) => o += "\\b",
                ('\u{c}', true) => o += "\\f",
                _ => {
                    let mut b = [0u16; 2];
                    for u in ch.encode_utf16(&mut b) {
                        o += &if r.chance(1, 2) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
                    }
                }
            }
        } else {
            o.push(ch);
        }
    }
    o.push('"');
    o
}
fn ws(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", "", " ", "\n", "\t", "\r\n", "  \n "])
}
struct G<'a> {
    r: &'a mut Rng,
    leaves: usize,
}
impl G<'_> {
    fn leaf(&mut self, out: &mut String, want: &mut Vec<String>) {
        let r = &mut *self.r;
        match r.below(10) {
            0 => {
                let b = r.chance(1, 2);
                out.push_str(if b { "true" } else { "false" });
                want.push(if b { "1" } else { "0" }.into());
            }
            1 => {
                out.push_str("null");
                want.push("0".into());
            }
            2 | 3 => {
                let v = match r.below(6) {
                    0 => 9007199254740991 + r.below(6),
                    1 => u64::MAX - r.below(4),
                    2 => i64::MAX as u64 + r.below(4),
                    _ => r.u64_edge(),
                };
                let s = v.to_string();
                out.push_str(&s);
                want.push(s);
            }
            4 => {
                let v = match r.below(4) {
                    0 => i64::MIN + r.below(4) as i64,
                    1 => -(1i64 << r.below(63)),
                    _ => -1 - (r.u64_edge() >> 1) as i64,
                };
                let s = v.to_string();
                out.push_str(&s);
                want.push(s);
            }
            5 => {
                let n = r.range(1, 90);
                let s: String = (0..n).map(|i| if i == 0 && r.chance(1, 4) { '-' } else { (b'0' + r.us(10) as u8) as char }).collect();
                out.push_str(&jstr(r, &s));
                want.push(s);
            }
            6 => {
                let s = text(r, 30);
                out.push_str(&jstr(r, &s));
                want.push(s);
            }
            _ => {
                let s = r.pick(&["", "0", "1", "00", "-0", " 1", "0x10", "true", "null", "1.0", "1e3", "[1,2]", "{}", "\u{0}"]).to_string();
                out.push_str(&jstr(r, &s));
                want.push(s);
            }
        }
        self.leaves += 1;
    }
    fn value(&mut self, out: &mut String, want: &mut Vec<String>, depth: usize) {
        if depth > 0 && self.leaves < 400 && self.r.chance(1, 2) {
            out.push('[');
            let n = self.r.size(8);
            for i in 0..n {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(ws(self.r));
                self.value(out, want, depth - 1);
                out.push_str(ws(self.r));
            }
            if n == 0 {
                out.push_str(ws(self.r));
            }
            out.push(']');
        } else {
            self.leaf(out, want);
        }
    }
}
type Want = BTreeMap<String, Vec<String>>;
fn object(r: &mut Rng, members: Vec<(String, String, Vec<String>)>) -> (String, Want) {
    let mut s = String::from(ws(r));
    s.push('{');
    s.push_str(ws(r));
    let mut w = Want::new();
    for (i, (k, v, l)) in members.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
            s.push_str(ws(r));
        }
        s.push_str(&jstr(r, &k));
        s.push_str(ws(r));
        s.push(':');
        s.push_str(ws(r));
        s.push_str(&v);
        s.push_str(ws(r));
        w.insert(k, l);
    }
    s.push('}');
    s.push_str(ws(r));
    (s, w)
}
pub fn gen_doc(r: &mut Rng) -> (String, Want) {
    let n = r.size(30);
    let mut seen = std::collections::HashSet::new();
    let mut m = vec![];
    for i in 0..n {
        let k = match r.below(4) {
            0 => text(r, 12),
            1 => r.pick(&["", "a", "b", "main.a", "a[0]", "puzzle", "solution", "__proto__", "constructor", "length", "0", "1", "10", "2"]).to_string(),
            _ => format!("sig{}", i),
        };
        if !seen.insert(k.clone()) {
            continue;
        }
        let (mut v, mut l) = (String::new(), vec![]);
        let d = r.us(5);
        G { r, leaves: 0 }.value(&mut v, &mut l, d);
        m.push((k, v, l));
    }
    object(r, m)
}
fn run14(c: &mut Case, p: &Path, s: &str, w: &Want) {
    put(p, s.as_bytes());
    let lim = (32 << 20) + s.len() * 128;
    let Some(got) = c.sut_ok("parse_inputs", || metered(lim, || parse_inputs(p)).0) else { return };
    let got: Want = got.into_iter().collect();
    c.count("leaves_compared", w.values().map(|v| v.len() as u64).sum());
    c.count("keys_compared", w.len() as u64);
    c.check(&got == w, "the flattened inputs differ from the document", || {
        let k = w.keys().chain(got.keys()).find(|k| w.get(*k) != got.get(*k)).cloned();
        json!({"key": k, "expected": format!("{:.500?}", k.as_ref().and_then(|k| w.get(k))), "got": format!("{:.500?}", k.as_ref().and_then(|k| got.get(k)))})
    });
}
pub fn c14(x: &mut Ctx) {
    let p = x.scratch.join("c14.json");
    x.run("random", x.q(8000, 200000), |c| {
        let (s, w) = gen_doc(&mut c.rng);
        c.key(h64(&s));
        c.input(json!({"json": format!("{:.600}", s)}));
        c.sample(json!({"json": format!("{:.300}", s), "leaves": w.values().map(|v| v.len()).sum::<usize>()}));
        run14(c, &p, &s, &w);
    });
    let ints = x.interesting(70000);
    x.run("lengths", ints.len() as u64 * 4, |c| {
        let n = ints[c.idx as usize / 4] as usize;
        let mut m = vec![];
        match c.idx % 4 {
            0 => {
                // A long array of distinct leaves.
                let l: Vec<String> = (0..n).map(|i| i.to_string()).collect();
                m.push(("a".to_string(), format!("[{}]", l.join(",")), l));
                m.push(("b".to_string(), "7".to_string(), vec!["7".to_string()]));
            }
            1 => {
                for i in 0..n {
                    m.push((format!("k{}", i), format!("\"{}\"", i), vec![i.to_string()]));
                }
            }
            2 => {
                let s: String = (0..n).map(|i| (b'0' + (i % 10) as u8) as char).collect();
                m.push(("a".to_string(), format!("\"{}\"", s), vec![s.clone()]));
                m.push(("k".repeat(n.max(1)), "[1]".to_string(), vec!["1".to_string()]));
            }
            _ => {
                // Nested as deep as the reader allows.
                let d = n % 120;
                let l = vec!["5".to_string(), "6".to_string()];
                m.push(("a".to_string(), format!("{}5{},6]", "[".repeat(d + 1), "]".repeat(d)), l));
            }
        }
        let (s, w) = object(&mut c.rng, m);
        c.key((n, c.idx % 4));
        c.input(json!({"length": n, "of": (["array", "keys", "string", "nesting"][(c.idx % 4) as usize])}));
        run14(c, &p, &s, &w);
    });
    // Matrices of every small shape, with equal values so that order and count both matter.
    x.run("shapes", x.q(600, 4000), |c| {
        let dims: Vec<usize> = (0..c.rng.range(1, 5)).map(|_| c.rng.us(5)).collect();
        let step = c.rng.below(3).min(1);
        fn build(d: &[usize], k: &mut u64, step: u64, l: &mut Vec<String>) -> String {
            if d.is_empty() {
                *k += step;
                l.push(k.to_string());
                return if *k % 3 == 0 { format!("\"{}\"", k) } else { k.to_string() };
            }
            let v: Vec<String> = (0..d[0]).map(|_| build(&d[1..], k, step, l)).collect();
            format!("[{}]", v.join(","))
        }
        let (mut k, mut l) = (c.rng.below(3), vec![]);
        let v = build(&dims, &mut k, step, &mut l);
        c.key((dims.clone(), k, step));
        c.input(json!({"dims": dims}));
        let (s, w) = object(&mut c.rng, vec![("m".into(), v.clone(), l.clone()), ("n".into(), v, l)]);
        run14(c, &p, &s, &w);
    });
    x.run("rewritten", x.q(60, 1000), |c| {
        // Same path, same length, different content.
        for i in 0..6u64 {
            let v = 100000 + i;
            c.key((c.idx, i));
            run14(c, &p, &format!("{{\"a\":[{},\"{}\"]}}", v, v), &[("a".to_string(), vec![v.to_string(), v.to_string()])].into_iter().collect());
        }
    });
    // What is no JSON object is an error.
    let fixed: Vec<Vec<u8>> = ["", " ", "[]", "[1,2]", "1", "-1", "\"a\"", "null", "true", "{", "}", "{\"a\"}", "{\"a\":}", "{\"a\":1,}", "{\"a\":[1,]}", "{\"a\":[1 2]}", "{\"a\":01}", "{\"a\":1}}", "{\"a\":1} x", "{\"a\":1}{\"b\":2}", "{a:1}", "{'a':1}", "{\"a\":+1}", "{\"a\":.5}", "{\"a\":1.}", "{\"a\":NaN}", "{\"a\":Infinity}", "{\"a\":undefined}", "{\"a\":0x10}", "{\"a\":1n}", "{\"a\":\"\n\"}", "{\"a\":\"\\x41\"}", "{\"a\":\"\\ud800\"}", "{\"a\":\"\\u12\"}", "// c\n{}", "{/*c*/}", "{\"a\":1;\"b\":2}", "{\"a\":[1}", "{\"a\":(1)}", "{\"a\":True}", "{\"a\":nul}", "{\"a\":1", "{\"a\":\"1}", "{\"a\":[[1]}", "{1:1}", "{null:1}", "{\"a\":--1}", "{\"a\":1e}", "{,}", "{\"a\":1,,\"b\":2}", "\u{0}{}"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .chain([b"{\"a\":\"\xff\"}".to_vec(), b"\xff\xfe{\0}\0".to_vec(), b"{\"a\":\"\xc3\"}".to_vec(), b"{\"a\":\"\xed\xa0\x80\"}".to_vec()])
        .collect();
    x.run("invalid", fixed.len() as u64, |c| {
        let b = &fixed[c.idx as usize];
        put(&p, b);
        c.key(h64(b));
        c.input(json!({"text": String::from_utf8_lossy(b)}));
        if let Some(r) = c.sut("parse_inputs", || parse_inputs(&p)) {
            c.check(r.is_err(), "an invalid input file was accepted", || json!({"text": String::from_utf8_lossy(b), "result": format!("{:?}", r.as_ref().ok())}));
        }
    });
    x.run("every_prefix", x.q(60, 1000), |c| {
        let (s, _) = gen_doc(&mut c.rng);
        let s = s.trim_end();
        c.key(h64(&s));
        let step = (s.len() / 200).max(1);
        let mut cut = 0;
        while cut < s.len() {
            put(&p, &s.as_bytes()[..cut]);
            c.input(json!({"json": format!("{:.300}", s), "cut_at": cut}));
            let Some(r) = c.sut("parse_inputs", || parse_inputs(&p)) else { return };
            if !c.check(r.is_err(), "a truncated input file was accepted", || json!({"cut_at": cut, "of": s.len()})) {
                return;
            }
            cut += if cut + 20 > s.len() { 1 } else { step };
        }
    });
    x.run("random_bytes", x.q(3000, 60000), |c| {
        let (s, _) = gen_doc(&mut c.rng);
        let mut b = s.into_bytes();
        for _ in 0..c.rng.range(1, 5) {
            let i = c.rng.us(b.len());
            b[i] = *c.rng.pick(b"{}[]\",:0129-.eEtfn \\u\xff\x00");
        }
        put(&p, &b);
        c.key(h64(&b));
        c.input(json!({"text": format!("{:.400}", String::from_utf8_lossy(&b))}));
        c.sut("parse_inputs", || parse_inputs(&p).is_ok());
        c.ops += 1;
    });
}

// ---------------------------------------------------------------- symbol files
pub fn name(r: &mut Rng, i: usize) -> String {
    let base = match r.below(14) {
        12 => {
            // Any printable character, also at either end.
            let mut p = |r: &mut Rng| -> String { (0..r.us(3)).map(|_| loop { let ch = (33 + r.us(94)) as u8 as char; if ch != ',' { break ch } }).collect() };
            format!("{}{}s{}{}", r.pick(&["main.", "main.", ""]), p(r), i, p(r))
        }
        13 => format!("main.{}{}", r.pick(&["component.", "sub[3].", "a.b.c.", "m[0][1]."]).repeat(r.range(1, 60)), i),
        10 => format!("main.{}[{}{}]{}", r.pick(&["a", "m"]), r.pick(&["0", "00", "+", "-", " ", ""]), i, r.pick(&["", "[0]", "[00]", ".x[01]"])),
        11 => {
            let n = if r.chance(1, 2) { String::new() } else { i.to_string() };
            format!("{}{}{}", r.pick(&["main.", ""]), r.pick(&["__proto__", "constructor", "toString", "_", "$", "A", "a.B", "'q'", "\"q\"", "0", "-1", "%2c", "\\", "a;b", "a\tb", "e\u{301}", "x]["]), n)
        }
        0 => format!("main.{}[{}]", r.pick(&["a", "puzzle", "x"]), i),
        1 => format!("main.m[{}][{}]", i / 7, i % 7),
        2 => format!("main.c.sub[{}].out", i),
        3 => format!("main.main.{}", i),
        4 => format!("mainx.{}", i),
        5 => format!("Main.{}", i),
        6 => format!("xmain.{}", i),
        7 => format!("main.sig {} {}", i, r.pick(&["é", "電路", "ß", "😀", "a b"])),
        8 => format!("{}{}", r.pick(&["main", "main.", "main..", ".main.", "a.main.", "main .", "main_", "main:", "main/"]), i),
        _ => format!("main.s{}", i),
    };
    base
}
pub struct Sym {
    pub text: String,
    pub map: BTreeMap<String, u32>,
    pub lines: usize,
}
pub fn gen_sym(r: &mut Rng, n: usize) -> Sym {
    let eol = *r.pick(&["\n", "\n", "\r\n"]);
    let mixed = r.chance(1, 8);
    let mut map = BTreeMap::new();
    let mut used = std::collections::BTreeSet::new();
    let mut t = String::new();
    let pad = |r: &mut Rng| -> &'static str { if r.chance(1, 6) { *r.pick(&[" ", "\t", "  ", " \t "]) } else { "" } };
    let tidy = r.chance(1, 2);
    for i in 0..n {
        if !tidy && r.chance(1, 6) {
            // Lines that say nothing: blank, or without exactly four fields.
            let junk = match r.below(9) {
                0 => String::new(),
                1 => "   ".into(),
                2 => "# comment".into(),
                3 => format!("{},{},{}", i, i, i),
                4 => format!("{},{},{},main.j{},extra", i, i, i, i),
                5 => format!("main.lonely{}", i),
                6 => format!("{},{},0,main.k[{},{}]", i, i, i, i),
                7 => ",,,,".into(),
                _ => format!("{},{},{},main.z{},", i, i, i, i),
            };
            t.push_str(&junk);
        } else {
            let w: i64 = match r.below(10) {
                0 => -1,
                1 => *r.pick(&[-2i64, -1, -1000, i32::MIN as i64, -9]),
                2 => *r.pick(&[0i64, 1, 255, 256, 65535, 65536, i32::MAX as i64, i32::MAX as i64 - 1, 1 << 24]),
                3 => r.below(1 << 31) as i64,
                _ => i as i64,
            };
            let mut nm = name(r, i);
            // One line per name.
            if used.contains(&nm) {
                nm.push_str(&format!("_{}", i));
            }
            while !used.insert(nm.clone()) {
                nm.push('_');
            }
            if w >= 0 {
                map.insert(nm.clone(), w as u32);
            }
            let f0 = match r.below(6) {
                0 => "-1".to_string(),
                1 => format!("{}", r.u64()),
                2 => String::new(),
                _ => i.to_string(),
            };
            let f2 = match r.below(5) {
                0 => "-5".to_string(),
                1 => "abc".to_string(),
                _ => (i / 3).to_string(),
            };
            if tidy {
                t.push_str(&format!("{},{},{},{}", f0, w, f2, nm));
            } else {
                t.push_str(&format!("{}{}{},{}{}{},{},{}{}{}", pad(r), f0, pad(r), pad(r), w, pad(r), f2, pad(r), nm, pad(r)));
            }
        }
        t.push_str(if mixed { *r.pick(&["\n", "\r\n"]) } else { eol });
    }
    if r.chance(1, 3) {
        while t.ends_with('\n') || t.ends_with('\r') {
            t.pop();
        }
    }
    Sym { text: t, map, lines: n }
}
/// Files of one length that differ in one place only: first, its twins, and the first again.
pub fn twins(r: &mut Rng) -> Vec<Sym> {
    let n = *r.pick(&[2usize, 3, 10, 60, 400, 1500]);
    let base: Vec<(String, u32)> = (0..n).map(|i| (format!("main.{}{:04}", r.pick(&["a", "b", "c"]), i), 1000 + r.below(9000) as u32)).collect();
    let say = |v: &[(String, u32)]| Sym { text: v.iter().enumerate().map(|(i, (s, w))| format!("{:04},{},0,{}\n", i, w, s)).collect(), map: v.iter().cloned().collect(), lines: n };
    let mut out = vec![say(&base)];
    for _ in 0..2 {
        let mut v = base.clone();
        let at = *r.pick(&[n / 2, n - 1, 0, n / 3]);
        match r.below(3) {
            0 => v[at].1 = 1000 + (v[at].1 - 1000 + 1 + r.below(8998) as u32) % 9000,
            1 => v[at].0 = v[at].0.replacen("main.", "main_", 1),
            _ => { let to = (at + 1) % n; let w = v[at].1; v[at].1 = v[to].1; v[to].1 = w; }
        }
        out.push(say(&v));
        out.push(say(&base));
    }
    out
}
fn check15(c: &mut Case, s: &Sym) {
    c.count("lines", s.lines as u64);
    c.count("signals", s.map.len() as u64);
    let Some(got) = c.sut_ok("parse_sym_file", || parse_sym_file(&s.text)) else { return };
    let got: BTreeMap<String, u32> = got.into_iter().collect();
    c.check(got == s.map, "the signal map differs from the file", || {
        let k = s.map.keys().chain(got.keys()).find(|k| s.map.get(*k) != got.get(*k)).cloned();
        json!({"signal": k, "in_file": k.as_ref().and_then(|k| s.map.get(k)), "parsed": k.as_ref().and_then(|k| got.get(k)), "entries_in_file": s.map.len(), "entries_parsed": got.len()})
    });
}
pub fn sym_fixtures() -> Vec<std::path::PathBuf> {
    let mut v: Vec<_> = crate::m_r1cs::fixtures().into_iter().map(|p| p.with_extension("sym")).filter(|p| p.exists()).collect();
    v.sort();
    v
}
/// Independent reading of a tidy symbol file.
fn read_sym(s: &str) -> BTreeMap<String, u32> {
    let mut m = BTreeMap::new();
    for l in s.split('\n') {
        let f: Vec<&str> = l.trim().split(',').collect();
        if f.len() == 4 {
            if let Ok(w) = f[1].trim().parse::<i64>() {
                if w >= 0 {
                    m.insert(f[3].trim().to_string(), w as u32);
                }
            }
        }
    }
    m
}
pub fn c15(x: &mut Ctx) {
    x.run("random", x.q(8000, 200000), |c| {
        let n = c.rng.size(200);
        let s = gen_sym(&mut c.rng, n);
        c.key(h64(&s.text));
        c.input(json!({"text": format!("{:.900}", s.text)}));
        c.sample(json!({"text": format!("{:.300}", s.text), "signals": s.map.len()}));
        check15(c, &s);
    });
    x.run("twins", x.q(150, 3000), |c| {
        for s in twins(&mut c.rng) {
            c.key(h64(&s.text));
            c.input(json!({"text": format!("{:.900}", s.text)}));
            check15(c, &s);
        }
    });
    let ints = x.interesting(70000);
    x.run("lines", ints.len() as u64, |c| {
        let n = ints[c.idx as usize] as usize;
        let mut s = Sym { text: String::new(), map: BTreeMap::new(), lines: n };
        for i in 0..n {
            s.text.push_str(&format!("{},{},{},main.s{}\n", i + 1, i, 0, i));
            s.map.insert(format!("main.s{}", i), i as u32);
        }
        c.key(n);
        c.input(json!({"lines": n}));
        check15(c, &s);
    });
    x.run("name_lengths", ints.len() as u64, |c| {
        let n = ints[c.idx as usize].max(1) as usize;
        let nm = format!("main.{}", "n".repeat(n));
        let s = Sym { text: format!("1,4,0,{}\n2,5,0,main.b\n{},6,0,main.c", nm, "9".repeat(n)), map: [(nm, 4), ("main.b".to_string(), 5), ("main.c".to_string(), 6)].into_iter().collect(), lines: 3 };
        c.key(n);
        c.input(json!({"name_length": n}));
        check15(c, &s);
    });
    // Every wire number near a power of two or named in the sources, at every position in the file.
    let wires: Vec<u64> = x.interesting(i32::MAX as u64).into_iter().chain((0..31).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1])).chain([i32::MAX as u64]).filter(|w| *w <= i32::MAX as u64).collect();
    x.run("wires", 3, |c| {
        let mut s = Sym { text: String::new(), map: BTreeMap::new(), lines: wires.len() };
        for (i, w) in wires.iter().enumerate() {
            s.text.push_str(&format!("{},{},{},main.w{}\n", i, if c.idx == 1 { -(*w as i64) - 1 } else { *w as i64 }, w, i));
            if c.idx != 1 {
                s.map.insert(format!("main.w{}", i), *w as u32);
            }
        }
        if c.idx == 2 {
            s.text = s.text.replace('\n', "\r\n");
        }
        c.key(c.idx);
        c.input(json!({"wires": wires.len()}));
        check15(c, &s);
    });
    let fx = sym_fixtures();
    x.run("fixture", fx.len() as u64, |c| {
        let t = std::fs::read_to_string(&fx[c.idx as usize]).unwrap();
        c.key(h64(&t));
        c.input(json!({"file": fx[c.idx as usize]}));
        let s = Sym { map: read_sym(&t), lines: t.lines().count(), text: t };
        check15(c, &s);
    });
    x.run("hostile", x.q(3000, 60000), |c| {
        // Any text at all: a map or an error.
        let n = c.rng.size(300);
        let b = match c.rng.below(3) {
            0 => text(&mut c.rng, n),
            1 => (0..n).map(|_| *c.rng.pick(&['0', '1', '-', ',', ',', '\n', '\r', 'm', '.', ' ', '9', '+', 'x', '\u{feff}', '\u{85}', '\0'])).collect(),
            _ => {
                let mut s = gen_sym(&mut c.rng, 6).text.into_bytes();
                for _ in 0..4 {
                    if s.is_empty() {
                        break;
                    }
                    let i = c.rng.us(s.len());
                    s[i] = *c.rng.pick(b",,-9x\n\r \0");
                }
                String::from_utf8_lossy(&s).into_owned()
            }
        };
        c.key(h64(&b));
        c.input(json!({"text": b}));
        let lim = (16 << 20) + b.len() * 128;
        c.sut("parse_sym_file", || metered(lim, || parse_sym_file(&b).is_ok()));
        c.ops += 1;
    });
}

// ---------------------------------------------------------------- C16
pub fn select(map: &BTreeMap<String, u32>, max: Option<u32>) -> BTreeMap<String, u32> {
    let mut o = BTreeMap::new();
    for (k, v) in map {
        if k.len() >= 5 && &k.as_bytes()[..5] == b"main." && max.map_or(true, |m| *v <= m) {
            o.insert(k[5..].to_string(), *v);
        }
    }
    o
}
fn check16(c: &mut Case, map: &BTreeMap<String, u32>, max: Option<u32>) -> bool {
    let h: HashMap<String, u32> = map.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let want = select(map, max);
    let Some(got) = c.sut("get_input_signals", || get_input_signals(&h, max)) else { return false };
    let got: BTreeMap<String, u32> = got.into_iter().collect();
    c.count("signals_selected", want.len() as u64);
    c.check(got == want, "the selected signals differ", || {
        let k = want.keys().chain(got.keys()).find(|k| want.get(*k) != got.get(*k)).cloned();
        json!({"max": max, "signal": k, "expected": k.as_ref().and_then(|k| want.get(k)), "got": k.as_ref().and_then(|k| got.get(k))})
    })
}
pub fn c16(x: &mut Ctx) {
    x.run("random", x.q(8000, 200000), |c| {
        let n = c.rng.size(120);
        let mut map = BTreeMap::new();
        for i in 0..n {
            let nm = if c.rng.chance(1, 8) {
                c.rng.pick(&["main.", "main", "main.main.", "main..x", "main.main.x", "main.x", "x", "", "mainx", "MAIN.x", "mai", "main.é", "ｍain.x", "main\u{2024}x", " main.y", "main. y", "one.main.x", "é", "mainé", "main.a.b.c", "main.[0]"]).to_string()
            } else {
                name(&mut c.rng, i)
            };
            let w = match c.rng.below(4) {
                0 => c.rng.u32_edge(),
                1 => c.rng.below(20) as u32,
                _ => i as u32,
            };
            map.insert(nm, w);
        }
        c.key(format!("{:?}", map));
        c.input(json!({"map": map.iter().take(60).collect::<Vec<_>>()}));
        c.sample(json!({"map": map.iter().take(6).collect::<Vec<_>>(), "entries": map.len()}));
        let mut maxes = vec![None, Some(0), Some(u32::MAX), Some(1), Some(u32::MAX - 1), Some(c.rng.u32_edge())];
        let ws: Vec<u32> = map.values().copied().collect();
        for _ in 0..4 {
            if !ws.is_empty() {
                let w = *c.rng.pick(&ws);
                maxes.extend([Some(w), w.checked_sub(1), w.checked_add(1)]);
            }
        }
        for m in maxes {
            if !check16(c, &map, m) {
                return;
            }
        }
    });
    x.run("every_max", x.q(40, 400), |c| {
        let n = c.rng.range(1, 90);
        let map: BTreeMap<String, u32> = (0..n).map(|i| (name(&mut c.rng, i), i as u32)).collect();
        c.key(format!("{:?}", map));
        c.input(json!({"map": map}));
        for m in (0..=n as u32 + 1).map(Some).chain([None]) {
            if !check16(c, &map, m) {
                return;
            }
        }
    });
    let ints = x.interesting(u32::MAX as u64);
    x.run("boundaries", ints.len() as u64, |c| {
        let v = ints[c.idx as usize] as u32;
        let map: BTreeMap<String, u32> = [("main.a".to_string(), v), ("main.b".to_string(), v.wrapping_add(1)), ("main.c".to_string(), v.wrapping_sub(1)), ("b".to_string(), v), ("main.z".to_string(), 0)].into_iter().collect();
        c.key(v);
        c.input(json!({"max": v}));
        check16(c, &map, Some(v));
        check16(c, &map, None);
    });
    x.run("large", x.q(4, 40), |c| {
        let n = 70000 + c.rng.us(3);
        let map: BTreeMap<String, u32> = (0..n).map(|i| (if i % 3 == 0 { format!("main.a[{}]", i) } else { format!("c.a[{}]", i) }, i as u32)).collect();
        c.key(n);
        c.input(json!({"entries": n}));
        check16(c, &map, Some(65536));
        check16(c, &map, Some(c.idx as u32 * 1000));
        check16(c, &map, None);
    });
    let fx = sym_fixtures();
    x.run("fixture", fx.len() as u64, |c| {
        let map = read_sym(&std::fs::read_to_string(&fx[c.idx as usize]).unwrap());
        c.key(c.idx);
        c.input(json!({"file": fx[c.idx as usize]}));
        for m in [None, Some(0), Some(1), Some(2), Some(7), Some(8), Some(81), Some(82), Some(162), Some(10000)] {
            if !check16(c, &map, m) {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- C17, Rust half: what the CLI reader makes of each file
pub fn c17_emit(x: &mut Ctx) {
    let out = x.args.get("emit").expect("--emit").clone();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    use std::io::Write;
    let mut go = |c: &mut Case, t: &str, maxes: Vec<Option<u32>>| {
        c.key(h64(&t));
        c.input(json!({"text": format!("{:.600}", t)}));
        let Some(m) = c.sut_ok("parse_sym_file", || parse_sym_file(t)) else { return };
        let mut sel = vec![];
        for x in maxes {
            let Some(s) = c.sut("get_input_signals", || get_input_signals(&m, x)) else { return };
            sel.push(json!({"max": x, "signals": s.into_iter().collect::<BTreeMap<_, _>>()}));
        }
        let m: BTreeMap<_, _> = m.into_iter().collect();
        let v: Value = json!({"case": format!("{}:{}", c.kind, c.idx), "text": t, "map": m, "select": sel});
        writeln!(f, "{}", v).unwrap();
        c.count("files", 1);
    };
    let fx = sym_fixtures();
    x.run("fixture", fx.len() as u64, |c| {
        let t = std::fs::read_to_string(&fx[c.idx as usize]).unwrap();
        go(c, &t, vec![None, Some(0), Some(2), Some(7), Some(81), Some(5000)]);
    });
    x.run("random", x.q(4000, 60000), |c| {
        let n = c.rng.size(80);
        let s = gen_sym(&mut c.rng, n);
        let mut mx = vec![None, Some(0), Some(c.rng.u32_edge())];
        if let Some(w) = s.map.values().nth(s.map.len() / 2) {
            mx.extend([Some(*w), w.checked_sub(1)]);
        }
        go(c, &s.text, mx);
    });
    x.run("twins", x.q(100, 1500), |c| {
        for s in twins(&mut c.rng) {
            go(c, &s.text, vec![None, Some(5000)]);
        }
    });
}
