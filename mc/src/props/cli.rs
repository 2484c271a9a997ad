// C28: the sample program, run as a process for every file of a bounded space.
use crate::gen::*;
use crate::refxml::{self, Verdict};
use crate::sup::*;
use amxml::dom::new_document;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn all() -> Vec<Box<dyn Prop>> { vec![Box::new(C28::default())] }

#[derive(Default)]
struct C28 { steps: u64, dir: Option<PathBuf>, bin: PathBuf }

/// Case text to bytes: U+F7xx stands for the byte xx.
fn bytes(s: &str) -> Vec<u8> {
    let mut o = vec![];
    let mut b = [0; 4];
    for c in s.chars() { match c as u32 { x @ 0xF700..=0xF7FF => o.push((x & 0xFF) as u8), _ => o.extend_from_slice(c.encode_utf8(&mut b).as_bytes()) } }
    o
}

struct Ran { code: Option<i32>, out: Vec<u8>, err: Vec<u8> }

impl C28 {
    fn dir(&mut self) -> Result<PathBuf, String> {
        if self.dir.is_none() {
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let base = exe.parent().unwrap();
            self.bin = base.join("../sample/release/sample");
            if !self.bin.exists() { panic!("the sample program is not built: {:?}", self.bin); }
            let d = base.join(format!("scratch-{}", std::process::id()));
            fs::create_dir_all(&d).map_err(|e| e.to_string())?;
            self.dir = Some(d);
        }
        Ok(self.dir.clone().unwrap())
    }
    fn call(&mut self, args: &[&str]) -> Result<Ran, String> {
        let d = self.dir()?;
        let (po, pe) = (d.join("out"), d.join("err"));
        let open = |p: &PathBuf| fs::File::create(p).map_err(|e| e.to_string());
        let w = d.join("work");
        let mut c = Command::new(&self.bin).args(args).current_dir(&w).stdin(Stdio::null()).stdout(open(&po)?).stderr(open(&pe)?).spawn().map_err(|e| e.to_string())?;
        let t = Instant::now();
        let code = loop {
            if let Some(s) = c.try_wait().map_err(|e| e.to_string())? { break s.code(); }
            if t.elapsed() > Duration::from_secs(20) { let _ = c.kill(); let _ = c.wait(); return Err(format!("{:?}: no end after 20 s", args)); }
            std::thread::sleep(Duration::from_micros(100));
        };
        Ok(Ran { code, out: fs::read(&po).map_err(|e| e.to_string())?, err: fs::read(&pe).map_err(|e| e.to_string())? })
    }
    fn work(&mut self) -> Result<PathBuf, String> {
        let w = self.dir()?.join("work");
        if !w.exists() { fs::create_dir_all(&w).map_err(|e| e.to_string())?; }
        Ok(w)
    }
    fn refused(&self, what: &str, r: &Ran) -> Result<u64, String> {
        if r.code != Some(1) { return Err(format!("{}: ends with {:?}, 1 expected", what, r.code)); }
        if !r.out.is_empty() { return Err(format!("{}: writes {:?} although it fails", what, String::from_utf8_lossy(&r.out))); }
        if r.err.iter().all(|b| b.is_ascii_whitespace()) { return Err(format!("{}: does not say why it fails", what)); }
        Ok(h64(&r.err))
    }
    fn file(&mut self, name: &str, text: &str, extra: &[&str]) -> Result<u64, String> {
        self.steps += 1;
        let p = self.work()?.join(std::ffi::OsStr::from_bytes(name.as_bytes()));
        let b = bytes(text);
        fs::write(&p, &b).map_err(|e| e.to_string())?;
        let mut args = vec![name];
        args.extend_from_slice(extra);
        let r = self.call(&args);
        let same = fs::read(&p).map(|x| x == b).unwrap_or(false);
        let _ = fs::remove_file(&p);
        let r = r?;
        let show = if text.len() > 200 { format!("{:?} ({} bytes)", text.chars().take(80).collect::<String>(), text.len()) } else { format!("{:?}", text) };
        if !same { return Err(format!("{}: the file is changed", show)); }
        let s = match std::str::from_utf8(&b) { Err(_) => return self.refused(&show, &r), Ok(s) => s };
        match (refxml::read(s).v, new_document(s)) {
            (Verdict::Good(_), Ok(d)) => {
                let want = format!("{}\n", d.to_pretty_string());
                if r.code != Some(0) { return Err(format!("{}: ends with {:?}, says {:?}", show, r.code, String::from_utf8_lossy(&r.err))); }
                if r.out != want.as_bytes() {
                    let cut = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned();
                    return Err(format!("{}: writes {:?} ({} bytes), {:?} ({} bytes) expected", show, cut(&r.out), r.out.len(), cut(want.as_bytes()), want.len()));
                }
                if !r.err.is_empty() { return Err(format!("{}: complains: {:?}", show, String::from_utf8_lossy(&r.err))); }
                Ok(h64(&r.out))
            }
            (Verdict::Good(_), Err(e)) => Err(format!("{}: refused: {}", show, e)),
            (_, Err(_)) => self.refused(&show, &r),
            (_, Ok(_)) => if r.code == Some(0) { Ok(1) } else { Err(format!("{}: ends with {:?}", show, r.code)) },
        }
    }
    fn nofile(&mut self, what: &str) -> Result<u64, String> {
        self.steps += 1;
        let w = self.work()?;
        match what {
            "none" => { let r = self.call(&[])?; self.refused("no argument", &r) }
            "dir" => { fs::create_dir_all(w.join("d.xml")).map_err(|e| e.to_string())?; let r = self.call(&["d.xml"])?; let _ = fs::remove_dir(w.join("d.xml")); self.refused("a directory", &r) }
            n => { let r = self.call(&[n])?; self.refused(&format!("file {:?} that is not there", n), &r) }
        }
    }
}
impl Drop for C28 {
    fn drop(&mut self) { if let Some(d) = &self.dir { let _ = fs::remove_dir_all(d); } }
}

const DOCS: &[&str] = &["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<r a=\"1\" b='é'>\n <b>t</b><!-- c --><?p q?><c/>&lt;日本<![CDATA[<x>]]></r>\n", "<!DOCTYPE r [<!ENTITY e \"v\">]><r>&e;<a><b><c/>x</b></a></r><!-- e -->", "\u{FEFF}<r>\r\n<a k=\"&quot;&#10;\"/>\r\n</r>"];

impl Prop for C28 {
    fn id(&self) -> &'static str { "C28" }
    fn rule(&self) -> &'static str {
        "the program run on every file up to the stated length over markup fragments, on every truncation of 3 documents at every byte, on every replacement of a byte of them by one that is no UTF-8, on documents of growing sizes around the buffer sizes of files and pipes, \
         and on missing files, directories, awkward names and extra arguments. Non-trivial: a file of at least one byte."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        for w in ["none", "dir", "nosuch.xml", "no/such/dir.xml", "", "-", "--help", "日本.xml"] { if !sink(&["N", w]) { return g; } }
        for n in ["f.xml", "a b.xml", "日本.xml", "-", "-f", "--help", "f", "*.xml", "a'b\"c", ".x", "~", "%20", "$HOME", "x;y", "f.xml "] { for t in ["<r/>", "<r>", ""] { for x in ["", "g.xml", "--x"] { if !sink(&["F", n, t, x]) { return g; } } } }
        let mut b = String::new();
        let n = tier.pick(3, 4);
        if !seqs(&crate::props::sax::FRAG, 0, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["F", "f.xml", &b, ""]) }) { return g; }
        if !seqs(&crate::props::sax::FRAG, 1, n - 1, &mut |q| { b.clear(); b.push_str("<a>"); for p in q { b.push_str(p); } b.push_str("</a>"); sink(&["F", "f.xml", &b, ""]) }) { return g; }
        let n2 = tier.pick(4, 5);
        if !seqs(&["<", ">", "/", "a", "&", "\n", "\u{F7FF}", "é"], 0, n2, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["F", "f.xml", &b, ""]) }) { return g; }
        g.notes.push(format!("all files of up to {} fragments, of up to {} in an element, and of up to {} of 8 characters and bytes", n, n - 1, n2));
        let enc = |b: &[u8]| -> String { if let Ok(s) = std::str::from_utf8(b) { return s.to_string(); } b.iter().map(|&x| if x < 0x80 { x as char } else { char::from_u32(0xF700 + x as u32).unwrap() }).collect() };
        for d in DOCS {
            let d = d.as_bytes();
            for i in 0..=d.len() { if !sink(&["F", "f.xml", &enc(&d[..i]), ""]) { return g; } }
            for i in 0..d.len() { for x in [0x80u8, 0xFF, 0xC3, 0, b'<'] {
                let mut v = d.to_vec(); v[i] = x;
                if !sink(&["F", "f.xml", &enc(&v), ""]) { return g; }
                let mut v = d.to_vec(); v.insert(i, x);
                if !sink(&["F", "f.xml", &enc(&v), ""]) { return g; }
            } }
            let s = std::str::from_utf8(d).unwrap();
            // other encodings, and text after the end
            for be in [false, true] { let v: Vec<u8> = s.encode_utf16().flat_map(|u| if be { u.to_be_bytes() } else { u.to_le_bytes() }).collect(); if !sink(&["F", "f.xml", &enc(&v), ""]) { return g; } }
            for t in ["\n", "x", "<r/>", "\u{1A}", "\0"] { if !sink(&["F", "f.xml", &format!("{}{}", s, t), ""]) { return g; } }
        }
        g.notes.push("3 documents: every truncation, every byte replaced by and preceded by 5 others".to_string());
        let mut sizes: Vec<usize> = vec![];
        for p in 5..tier.pick(19, 23) { for k in [-1i64, 0, 1] { sizes.push(((1i64 << p) + k) as usize); } }
        for n in sizes {
            for (pre, fill, post) in [("<r>", "x", "</r>"), ("<r>", "<a>é</a>", "</r>"), ("<r a=\"", "y", "\"/>"), ("<!--", " ", "--><r/>"), ("<r>", "<b/>", "")] {
                let k = n.saturating_sub(pre.len() + post.len()) / fill.len();
                let pad = n.saturating_sub(pre.len() + post.len() + k * fill.len());
                // (padding goes before the root)
                if !sink(&["L", &format!("{}\t{}\t{}\t{}\t{}", pad, pre, fill, k, post).replace('\t', "\u{1}")]) { return g; }
            }
        }
        g.notes.push(format!("5 kinds of large files of 2^5..2^{} bytes, one less and one more", tier.pick(18, 22)));
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        let r = match f[0] {
            "N" => self.nofile(f[1]),
            "L" => {
                let v: Vec<&str> = f[1].split('\u{1}').collect();
                let t = format!("{}{}{}{}", " ".repeat(v[0].parse().unwrap()), v[1], v[2].repeat(v[3].parse().unwrap()), v[4]);
                self.file("f.xml", &t, &[])
            }
            _ => if f[3].is_empty() { self.file(f[1], f[2], &[]) } else { self.file(f[1], f[2], &[f[3]]) },
        };
        match r { Ok(o) => Out::Ok { obs: o, trivial: f[0] == "F" && f[2].is_empty() }, Err(e) => Out::Bad(e) }
    }
    fn steps(&self) -> u64 { self.steps }
}
