//! C14-C16: round trips, accepted language and fault handling of the loaders
//! and writers.
use super::Prop;
use crate::ctx::*;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::refgraph::*;
use crate::rng::*;
use crate::views::*;
use crate::{ensure, fail};
use graphbench::degengraph::DegenGraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::ordgraph::OrdGraph;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::io::{self, BufRead, Read, Write};
use std::rc::Rc;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C14", quick: 9600, thorough: 576000, run: c14,
        rule: "sets, sequences and graphs (0 to >64 KiB of text, several representations, hostile labels) written as .txt and .gz, overwritten and loaded back by every loader; non-trivial = at least two lines" });
    v.push(Prop { id: "C15", quick: 7200, thorough: 432000, run: c15,
        rule: "valid texts in varied layouts, one-defect mutations of them, gzip images truncated at every byte and with flipped bits, readers failing at every byte or delivering short/interrupted reads, unreadable paths; non-trivial = text of at least two lines" });
    v.push(Prop { id: "C16", quick: 3200, thorough: 192000, run: c16,
        rule: "writes to sinks failing at every byte (error, zero write, failing flush, commit-on-flush), short and interrupted writes, real files limited to every size by RLIMIT_FSIZE, /dev/full; non-trivial = a fault was injected before the end of the content" });
}

fn es<T>(what: &str, r: io::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{what} failed: {e}")) }

#[derive(Clone)]
enum Val { Set(BTreeSet<V>), Seq(Vec<V>), Graph(Model) }

impl Val {
    fn show(&self) -> String {
        match self {
            Val::Set(s) => format!("set {:?}", s.iter().take(40).collect::<Vec<_>>()),
            Val::Seq(s) => format!("seq (len {}) {:?}", s.len(), &s[..s.len().min(40)]),
            Val::Graph(m) => { let mut s = format!("graph {}", m.show()); s.truncate(600); s }
        }
    }
    fn h(&self) -> u64 {
        match self {
            Val::Set(s) => s.iter().fold(1, |h, x| mix(h ^ *x as u64)),
            Val::Seq(s) => s.iter().fold(2, |h, x| mix(h ^ *x as u64)),
            Val::Graph(m) => m.h(),
        }
    }
    fn lines(&self) -> usize { match self { Val::Set(s) => s.len(), Val::Seq(s) => s.len(), Val::Graph(m) => m.m() } }
    fn kind(&self) -> &'static str { match self { Val::Set(_) => "set", Val::Seq(_) => "seq", Val::Graph(_) => "graph" } }
}

fn random_val(r: &mut Rng, big: f64) -> Val {
    let n = if r.chance(big) { r.range(4000, 16000) } else { match r.below(4) { 0 => r.below(3), 1 => r.below(8), _ => r.below(60) } };
    let cap = match r.below(3) { 0 => 50, 1 => 1 << 16, _ => u32::MAX };
    match r.below(3) {
        0 => { let last = if r.chance(0.2) { Some(u32::MAX) } else { None }; Val::Set((0..n).map(|_| r.u32() % cap).chain(last).collect()) }
        1 => Val::Seq((0..n).map(|_| if r.chance(0.05) { [0, u32::MAX, u32::MAX - 1][r.below(3)] } else { r.u32() % cap }).collect()),
        _ => {
            if n > 1000 {
                let mut m = Model::new();
                for _ in 0..n { let (a, b) = (r.u32() % cap.max(5000), r.u32() % cap.max(5000)); m.add_edge(a, b); }
                Val::Graph(m)
            } else { Val::Graph(gen::random_model(r, &Opt { max_n: 14, loops: 0.3, ..gen::SIMPLE })) }
        }
    }
}

fn without_isolates(m: &Model) -> Model { let mut m = m.clone(); m.remove_isolates(); m }

/// compare a loaded value
fn judge_set(what: &str, got: &VertexSet, v: &Val) -> R { match v { Val::Set(s) => same_set(what, got, s), _ => Ok(()) } }
fn judge_seq(what: &str, got: &Vec<V>, v: &Val) -> R {
    match v { Val::Seq(s) => { ensure!(got == s, "{what}: loaded sequence of length {} differs from the stored one of length {} ({:?}.. / {:?}..)", got.len(), s.len(), &got[..got.len().min(8)], &s[..s.len().min(8)]); Ok(()) } _ => Ok(()) }
}
fn judge_graph(r: &mut Rng, what: &str, got: &EditGraph, v: &Val) -> R {
    match v {
        Val::Graph(m) => {
            let m = without_isolates(m);
            if m.m() > 1000 {
                ensure!(got.num_edges() == m.m() && got.num_vertices() == m.n(), "{what}: loaded {} vertices {} edges instead of {} {}", got.num_vertices(), got.num_edges(), m.n(), m.m());
                for (u, v) in m.edges() { ensure!(got.adjacent(&u, &v), "{what}: edge {u} {v} missing"); }
                Ok(())
            } else { graph_view(r, got, &m, Nb::Yes).map_err(|e| format!("{what}: {e}")) }
        }
        _ => Ok(()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Txt, Gz, File }
fn load(r: &mut Rng, path: &str, how: How, v: &Val) -> io::Result<R> {
    let what = format!("{how:?} loader");
    Ok(match v {
        Val::Set(_) => { let s = match how { How::Txt => VertexSet::from_txt(path), How::Gz => VertexSet::from_gzipped(path), How::File => VertexSet::from_file(path) }?; judge_set(&what, &s, v) }
        Val::Seq(_) => { let s = match how { How::Txt => Vec::<Vertex>::from_txt(path), How::Gz => Vec::<Vertex>::from_gzipped(path), How::File => Vec::<Vertex>::from_file(path) }?; judge_seq(&what, &s, v) }
        Val::Graph(_) => { let s = match how { How::Txt => EditGraph::from_txt(path), How::Gz => EditGraph::from_gzipped(path), How::File => EditGraph::from_file(path) }?; judge_graph(r, &what, &s, v) }
    })
}
fn load_buf(r: &mut Rng, b: Box<dyn BufRead>, v: &Val) -> io::Result<R> {
    Ok(match v {
        Val::Set(_) => { let s = VertexSet::from_buf(b)?; judge_set("from_buf", &s, v) }
        Val::Seq(_) => { let s = Vec::<Vertex>::from_buf(b)?; judge_seq("from_buf", &s, v) }
        Val::Graph(_) => { let s = EditGraph::from_buf(b)?; judge_graph(r, "from_buf", &s, v) }
    })
}

/// something that can be written, as the library sees it
enum Obj { Set(VertexSet), Seq(Vec<V>), Edit(EditGraph), Ord(OrdGraph), Degen(DegenGraph), Ref(RefGraph) }
impl Obj {
    fn txt(&self, p: &str) -> io::Result<()> { match self { Obj::Set(x) => x.write_txt(p), Obj::Seq(x) => x.write_txt(p), Obj::Edit(x) => x.write_txt(p), Obj::Ord(x) => x.write_txt(p), Obj::Degen(x) => x.write_txt(p), Obj::Ref(x) => x.write_txt(p) } }
    fn gz(&self, p: &str) -> io::Result<()> { match self { Obj::Set(x) => x.write_gzipped(p), Obj::Seq(x) => x.write_gzipped(p), Obj::Edit(x) => x.write_gzipped(p), Obj::Ord(x) => x.write_gzipped(p), Obj::Degen(x) => x.write_gzipped(p), Obj::Ref(x) => x.write_gzipped(p) } }
    fn buf(&self, b: Box<dyn Write>) -> io::Result<()> { match self { Obj::Set(x) => x.write_buf(b), Obj::Seq(x) => x.write_buf(b), Obj::Edit(x) => x.write_buf(b), Obj::Ord(x) => x.write_buf(b), Obj::Degen(x) => x.write_buf(b), Obj::Ref(x) => x.write_buf(b) } }
}
fn obj(r: &mut Rng, v: &Val) -> Obj {
    match v {
        Val::Set(s) => { let mut x = VertexSet::default(); for u in s { x.insert(*u); } Obj::Set(x) }
        Val::Seq(s) => Obj::Seq(s.clone()),
        Val::Graph(m) => {
            let k = if m.has_loops() || m.m() > 1000 { r.below(2) } else { r.below(4) };
            match k {
                0 => Obj::Edit(gen::build(r, m)),
                1 => Obj::Ref(RefGraph::new(r, m)),
                2 => { let o = gen::random_order(r, m); Obj::Ord(OrdGraph::with_ordering(&gen::build(r, m), o.iter())) }
                _ => Obj::Degen(DegenGraph::from_graph(&gen::build(r, m))),
            }
        }
    }
}

fn dir(ctx: &Ctx) -> Result<String, String> {
    let d = format!("{}/io", ctx.scratch);
    std::fs::create_dir_all(&d).map_err(|e| format!("harness: scratch {e}"))?;
    Ok(d)
}

// ---------------------------------------------------------------- C14

fn c14(ctx: &mut Ctx, _case: usize) -> R {
    let d = dir(ctx)?;
    let mut r = ctx.rng.clone();
    let names = ["a", "with space", "two.dots.v1", "ünïcode", ".hidden", "UPPER", "a.gz", "b.txt", "c.txt.gz.bak", "sub.gz/x", "sub.txt/x", "gz", "txt", "sub.txt.gz/y.gz"];
    let name = r.pick(&names).cloned().unwrap_or("a");
    if let Some((sub, _)) = name.split_once('/') { std::fs::create_dir_all(format!("{d}/{sub}")).map_err(|e| e.to_string())?; }
    let txt = format!("{d}/{name}.txt");
    let gz1 = format!("{d}/{name}.txt.gz");
    let gz2 = format!("{d}/{name}.gz");
    // up to three successive values into the same files: leftovers of a longer
    // predecessor must not survive
    for round in 0..r.range(1, 3) {
        let v = random_val(&mut r, if round == 0 { 0.06 } else { 0.01 });
        ctx.input(format!("round {round} file {name}: {}", v.show()));
        let o = obj(&mut r, &v);
        es("write_txt", o.txt(&txt))?;
        let gzp = if r.coin() { &gz1 } else { &gz2 };
        es("write_gzipped", o.gz(gzp))?;
        for (p, how) in [(&txt, How::Txt), (&txt, How::File), (gzp, How::Gz), (gzp, How::File)] {
            es(&format!("{how:?} load of {p}"), load(&mut r, p, how, &v))??;
            ctx.bump(&format!("round_trips_{}", v.kind()), 1);
        }
        // into memory and back
        let sink = Shared::default();
        es("write_buf", o.buf(Box::new(sink.clone())))?;
        let bytes = sink.0.borrow().clone();
        ctx.max("largest_text_bytes", bytes.len() as u64);
        es("from_buf", load_buf(&mut r, Box::new(io::Cursor::new(bytes.clone())), &v))??;
        let on_disk = std::fs::read(&txt).map_err(|e| e.to_string())?;
        ensure!(on_disk.len() == bytes.len(), "the file holds {} bytes, the written content has {}", on_disk.len(), bytes.len());
        // the gzip file really is gzip holding the same number of bytes
        let raw = std::fs::read(gzp).map_err(|e| e.to_string())?;
        let mut plain = vec![];
        if let Err(e) = flate2::read::GzDecoder::new(&raw[..]).read_to_end(&mut plain) { fail!("written gzip does not decode: {e}") }
        ensure!(plain.len() == bytes.len(), "gzip holds {} bytes instead of {}", plain.len(), bytes.len());
        ctx.eval(v.lines() >= 2, v.h());
        if round == 0 { ctx.sample(|| v.show()); }
    }
    for p in [&txt, &gz1, &gz2] { let _ = std::fs::remove_file(p); }
    Ok(())
}

pub(super) fn c14_scale(ctx: &mut Ctx, k: usize) -> R {
    let d = dir(ctx)?;
    let mut r = ctx.rng.clone();
    let (txt, gz) = (format!("{d}/large.txt"), format!("{d}/large.txt.gz"));
    let v = match k {
        0 => Val::Seq((0..300_000u32).map(|i| i.wrapping_mul(2_654_435_761)).collect()),
        1 => { // many repetitions of every value, long runs
            let mut s = vec![]; for i in 0..70u32 { for _ in 0..=(i * i) % 400 { s.push(i * 61_356_675) } } for _ in 0..40_000 { s.push(r.u32() % 3) } Val::Seq(s) }
        2 => Val::Set((0..200_000u32).map(|i| u32::MAX - i * 7).collect()),
        3 => { // hub, loops at every third vertex, loops only
            let mut m = Model::new(); for i in 1..70_000u32 { m.add_edge(0, i * 3); if i % 3 == 0 { m.add_edge(i * 3, i * 3); } } for i in 0..300u32 { let x = u32::MAX - i; m.add_edge(x, x); } Val::Graph(m) }
        4 => { let mut m = Model::new(); for _ in 0..60_000 { m.add_edge(r.u32() % 40_000, r.u32() % 40_000); } m.add_vertex(3_000_000_000); Val::Graph(m) }
        _ => Val::Seq(vec![u32::MAX; 150_000]),
    };
    ctx.input(format!("scale case {k}: {}", v.show()));
    let o = obj(&mut r, &v);
    es("write_txt", o.txt(&txt))?;
    es("write_gzipped", o.gz(&gz))?;
    for (p, how) in [(&txt, How::Txt), (&txt, How::File), (&gz, How::Gz), (&gz, How::File)] {
        es(&format!("{how:?} load of {p}"), load(&mut r, p, how, &v))??;
        ctx.bump(&format!("round_trips_{}", v.kind()), 1);
    }
    let sink = Shared::default();
    es("write_buf", o.buf(Box::new(sink.clone())))?;
    let bytes = sink.0.borrow().clone();
    ctx.max("largest_text_bytes", bytes.len() as u64);
    es("from_buf", load_buf(&mut r, Box::new(io::Cursor::new(bytes)), &v))??;
    ctx.eval(true, v.h());
    for p in [&txt, &gz] { let _ = std::fs::remove_file(p); }
    Ok(())
}

// ---------------------------------------------------------------- C15

/// one defect at a chosen line of a large text
pub(super) fn c15_scale(ctx: &mut Ctx, k: usize) -> R {
    let d = dir(ctx)?;
    let mut r = ctx.rng.clone();
    let (txt, gz) = (format!("{d}/large.txt"), format!("{d}/large.txt.gz"));
    let n = 70_000usize;
    let graph = k % 2 == 0;
    let (v, lines): (Val, Vec<String>) = if graph {
        let mut m = Model::new();
        let l = (0..n).map(|i| { let (a, b) = (i as u32 % 300, r.u32() % 20_000); m.add_edge(a, b); format!("{a} {b}") }).collect();
        (Val::Graph(m), l)
    } else {
        let s: Vec<V> = (0..n).map(|_| r.u32()).collect();
        let l = s.iter().map(|x| x.to_string()).collect();
        (Val::Seq(s), l)
    };
    ctx.input(format!("scale case {k}: {n} lines, no defect"));
    put(&txt, (lines.join("\n") + "\n").as_bytes())?;
    es("Txt load", load(&mut r, &txt, How::Txt, &v))??;
    for at in [0, 1, 254, 255, 256, 4095, 65_534, 65_535, 65_536, n - 2, n - 1] {
        let (what, bad) = match r.below(4) { 0 => ("blank line", String::new()), 1 => ("4 tokens", "1 2 3 4".to_string()), 2 => ("token", if graph { "1 4294967296".into() } else { "4294967296".into() }), _ => ("long multi-byte token", if graph { format!("1 {}", "\u{e9}".repeat(40)) } else { "\u{20ac}".repeat(33) }) };
        let mut l = lines.clone();
        l[at] = bad;
        let t = l.join("\n") + "\n";
        ctx.input(format!("scale case {k}: {n} lines, {what} in line {at}"));
        put(&txt, t.as_bytes())?;
        must_err("Txt loader", load(&mut r, &txt, How::Txt, &v))?;
        if at % 3 == 0 { put(&gz, &gzip(t.as_bytes(), 1))?; must_err("Gz loader", load(&mut r, &gz, How::Gz, &v))?; }
        must_err("from_buf", load_buf(&mut r, Box::new(io::Cursor::new(t.into_bytes())), &v))?;
        ctx.bump("defective_texts", 1);
    }
    // lines and tokens longer than any buffer; blanks only after a valid part
    for (t, ok) in [(format!("{}7", "0".repeat(9000)), false), (format!("{}5 6", " ".repeat(70_000)), true), (format!("5{}6", " ".repeat(70_000)), true), (format!("5 6{}x", " ".repeat(70_000)), false)] {
        ctx.input(format!("scale case {k}: one line of {} bytes", t.len()));
        if t.starts_with('0') { continue } // many leading zeros: a valid number or not is not this property's business
        if graph {
            let mut m = Model::new(); m.add_edge(5, 6);
            let v = Val::Graph(m);
            let x = load_buf(&mut r, Box::new(io::Cursor::new(t.into_bytes())), &v);
            if ok { es("long line", x)?? } else { must_err("long line with a bad tail", x)? }
        }
    }
    ctx.eval(true, 1 << 61 | k as u64);
    for p in [&txt, &gz] { let _ = std::fs::remove_file(p); }
    Ok(())
}

/// in-memory reader with scheduled faults
struct Faulty { data: Vec<u8>, pos: usize, fail_at: Option<(usize, io::ErrorKind)>, chunk: usize, interrupts: bool, tick: usize }
impl Faulty {
    fn window(&mut self) -> io::Result<usize> {
        if self.interrupts { self.tick += 1; if self.tick % 2 == 1 { return Err(io::ErrorKind::Interrupted.into()) } }
        let mut end = (self.pos + self.chunk).min(self.data.len());
        if let Some((k, kind)) = self.fail_at {
            if self.pos >= k { return Err(io::Error::new(kind, "injected read failure")) }
            end = end.min(k);
        }
        Ok(end)
    }
}
impl Read for Faulty {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let e = self.window()?;
        let n = (e - self.pos).min(out.len());
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Faulty {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { let e = self.window()?; Ok(&self.data[self.pos..e]) }
    fn consume(&mut self, n: usize) { self.pos += n }
}

/// a valid text for a random value, and the value
fn valid_text(r: &mut Rng, maxl: usize) -> (Val, Vec<u8>) {
    let kind = r.below(3);
    let n = if r.chance(0.15) { 0 } else { r.range(1, maxl) };
    let cap = match r.below(3) { 0 => 9, 1 => 3000, _ => u32::MAX };
    let num = |r: &mut Rng| if r.chance(0.08) { [0, 1, u32::MAX, u32::MAX - 1, 1 << 31][r.below(5)] } else { r.u32() % cap };
    let crlf = r.below(3);
    let ws = |r: &mut Rng| { let k = r.range(1, 3); (0..k).map(|_| if r.chance(0.05) { '\x0c' } else { [' ', ' ', '\t'][r.below(3)] }).collect::<String>() };
    let fancy = r.coin();
    let pad = r.chance(0.25);
    let dec = |r: &mut Rng, x: V| if pad && r.chance(0.2) { format!("{}{x}", "0".repeat([1, 2, 9, 10, 11, 20, 40][r.below(7)])) } else { x.to_string() };
    let mut lines: Vec<Vec<V>> = vec![];
    for _ in 0..n {
        let l = if kind == 2 { vec![num(r), num(r)] } else { vec![num(r)] };
        lines.push(l);
        if r.chance(0.15) { let mut c = lines[r.below(lines.len())].clone(); if r.coin() { c.reverse() } lines.push(c) }
    }
    let mut t = String::new();
    for (i, l) in lines.iter().enumerate() {
        if fancy && r.chance(0.3) { t += &ws(r) }
        t += &dec(r, l[0]);
        if l.len() == 2 { if fancy { t += &ws(r) } else { t.push(' ') } t += &dec(r, l[1]); }
        if fancy && r.chance(0.3) { t += &ws(r) }
        let last = i + 1 == lines.len();
        if last && r.chance(0.4) { break }
        if crlf == 1 || (crlf == 2 && r.coin()) { t.push('\r') }
        t.push('\n');
    }
    let v = match kind {
        0 => Val::Set(lines.iter().map(|l| l[0]).collect()),
        1 => Val::Seq(lines.iter().map(|l| l[0]).collect()),
        _ => { let mut m = Model::new(); for l in &lines { m.add_edge(l[0], l[1]); } Val::Graph(m) }
    };
    (v, t.into_bytes())
}

const BAD: [&str; 30] = ["éééééééééééé", "1ééééééééééééééé", "€€€€€€€€€€", "日本語日本語日本語日本語", "18446744073709551617", "4294967296000000000000000000000000000000000000", "a", "1a", "a1", "-1", "4294967296", "42949672950", "99999999999999999999999", "1.0", "0x1", "1,2", "#", "1_0", "\u{0661}", "1e3", "--", "1-2", "\u{feff}1", "1\0", "NaN", "½", ".", "1;", "\"1\"", "-0"];

/// one defect somewhere in the text
fn corrupt(r: &mut Rng, v: &Val, t: &[u8]) -> (String, Vec<u8>) {
    let graph = matches!(v, Val::Graph(_));
    let s = String::from_utf8_lossy(t).to_string();
    let mut lines: Vec<String> = s.lines().map(|x| x.to_string()).collect();
    let at = r.below(lines.len() + 1);
    let n = |r: &mut Rng| (r.u32() % 1000).to_string();
    let (what, bytes): (String, Option<Vec<u8>>) = match r.below(6) {
        0 => { let l = if r.coin() { String::new() } else { " \t".into() }; lines.insert(at, l); ("blank line".into(), None) }
        1 => {
            let k = if graph { [1, 3, 4][r.below(3)] } else { [2, 3][r.below(2)] };
            let l = (0..k).map(|_| n(r)).collect::<Vec<_>>().join(" ");
            lines.insert(at, l);
            (format!("{k} tokens"), None)
        }
        2 | 3 => {
            let b = BAD[r.below(BAD.len())];
            let l = if graph { if r.coin() { format!("{} {b}", n(r)) } else { format!("{b} {}", n(r)) } } else { b.to_string() };
            lines.insert(at, l);
            (format!("token {b:?}"), None)
        }
        4 => { // undecodable byte
            let l = if graph { "1 2" } else { "1" };
            lines.insert(at, l.into());
            let pos: usize = lines[..at].iter().map(|l| l.len() + 1).sum();
            let mut b = lines.join("\n").into_bytes();
            b.push(b'\n');
            let bad: &[u8] = [&[0xffu8][..], &[0xc3][..], &[0x80][..], &[0xed, 0xa0, 0x80][..]][r.below(4)];
            let p = pos + r.below(l.len() + 1);
            b.splice(p..p, bad.iter().cloned());
            ("undecodable byte".into(), Some(b))
        }
        _ => { // byte order mark at the very start
            let l = if graph { "\u{feff}1 2" } else { "\u{feff}1" };
            lines.insert(0, l.into());
            ("byte order mark".into(), None)
        }
    };
    let b = bytes.unwrap_or_else(|| {
        let mut s = lines.join(if r.coin() { "\n" } else { "\r\n" });
        s.push('\n'); // a blank last line needs its line end to exist
        s.into_bytes()
    });
    (what, b)
}

fn gzip(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level));
    let _ = e.write_all(b);
    e.finish().unwrap_or_default()
}
fn show(b: &[u8]) -> String { format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(300)])) }
fn put(p: &str, b: &[u8]) -> Result<(), String> { std::fs::write(p, b).map_err(|e| format!("harness: {e}")) }

fn must_err(what: &str, x: io::Result<R>) -> R { match x { Err(_) => Ok(()), Ok(_) => Err(format!("{what}: loaded without an error")) } }

fn c15(ctx: &mut Ctx, case: usize) -> R {
    let d = dir(ctx)?;
    let mut r = ctx.rng.clone();
    let (txt, gz) = (format!("{d}/t.txt"), format!("{d}/t.txt.gz"));
    let (v, t) = valid_text(&mut r, 12);
    let h = hash_bytes(&t) ^ case as u64 % 5;
    let nt = v.lines() >= 2;
    match case % 5 {
        0 => { // accepted language
            ctx.input(format!("valid {} text {}", v.kind(), show(&t)));
            put(&txt, &t)?;
            put(&gz, &gzip(&t, r.below(10) as u32))?;
            for (p, how) in [(&txt, How::Txt), (&txt, How::File), (&gz, How::Gz), (&gz, How::File)] { es(&format!("{how:?} load"), load(&mut r, p, how, &v))??; }
            es("from_buf", load_buf(&mut r, Box::new(io::Cursor::new(t.clone())), &v))??;
            // the same text as a gzip file of several members, cut anywhere, empty members included
            let mut cuts: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(t.len() + 1)).collect();
            cuts.extend([0, t.len()]);
            cuts.sort();
            let z: Vec<u8> = cuts.windows(2).flat_map(|w| gzip(&t[w[0]..w[1]], 6)).collect();
            ctx.input(format!("valid {} text {} gzipped in {} members, cut at {cuts:?}", v.kind(), show(&t), cuts.len() - 1));
            put(&gz, &z)?;
            for how in [How::Gz, How::File] { es("load of several gzip members", load(&mut r, &gz, how, &v))??; }
            ctx.bump("multi_member_gzips", 1);
            let k = z.len() - r.range(1, gzip(&t[cuts[cuts.len() - 2]..], 6).len().min(z.len()) - 1);
            ctx.input(format!("valid {} text {} gzipped in {} members, cut at {cuts:?}, truncated to {k} of {} bytes", v.kind(), show(&t), cuts.len() - 1, z.len()));
            put(&gz, &z[..k])?;
            must_err("Gz loader, last member truncated", load(&mut r, &gz, How::Gz, &v))?;
            must_err("File loader, last member truncated", load(&mut r, &gz, How::File, &v))?;
            ctx.bump("valid_texts", 1);
            ctx.eval(nt, h);
        }
        1 => { // one defect
            for _ in 0..4 {
                let (what, b) = corrupt(&mut r, &v, &t);
                ctx.input(format!("{} text with {what}: {}", v.kind(), show(&b)));
                put(&txt, &b)?;
                put(&gz, &gzip(&b, 6))?;
                for (p, how) in [(&txt, How::Txt), (&txt, How::File), (&gz, How::Gz), (&gz, How::File)] { must_err(&format!("{how:?} loader, {what}"), load(&mut r, p, how, &v))?; }
                must_err(&format!("from_buf, {what}"), load_buf(&mut r, Box::new(io::Cursor::new(b.clone())), &v))?;
                ctx.bump("defective_texts", 1);
                ctx.eval(nt, h ^ hash_bytes(&b));
            }
        }
        2 => { // damaged compression
            let z = gzip(&t, r.below(10) as u32);
            for k in 0..z.len() {
                ctx.input(format!("{} text {} gzipped to {} bytes, truncated to {k}", v.kind(), show(&t), z.len()));
                put(&gz, &z[..k])?;
                must_err("Gz loader, truncated", load(&mut r, &gz, How::Gz, &v))?;
                if k % 5 == 0 { must_err("File loader, truncated", load(&mut r, &gz, How::File, &v))?; }
                ctx.bump("truncated_gzip_images", 1);
            }
            for _ in 0..40 {
                let bit = r.below(z.len() * 8);
                let mut b = z.clone();
                b[bit / 8] ^= 1 << (bit % 8);
                ctx.input(format!("{} text {} gzipped to {} bytes, bit {bit} flipped", v.kind(), show(&t), z.len()));
                put(&gz, &b)?;
                // fields such as the time stamp carry no content: then the value must be the right one
                let how = if r.coin() { How::Gz } else { How::File };
                match load(&mut r, &gz, how, &v) { Ok(x) => { x?; ctx.bump("flipped_bits_harmless", 1) } Err(_) => ctx.bump("flipped_bits_rejected", 1) }
            }
            // plain text under a gzip name
            ctx.input(format!("plain text {} as gzip", show(&t)));
            put(&gz, &t)?;
            must_err("Gz loader on plain text", load(&mut r, &gz, How::Gz, &v))?;
            must_err("File loader on plain text named .gz", load(&mut r, &gz, How::File, &v))?;
            ctx.eval(nt, h);
        }
        3 => { // failing and stuttering readers
            for k in 0..=t.len() {
                let kind = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::InvalidData][r.below(6)];
                ctx.input(format!("{} text {}, {kind:?} after {k} bytes", v.kind(), show(&t)));
                let f = Faulty { data: t.clone(), pos: 0, fail_at: Some((k, kind)), chunk: r.range(1, 9), interrupts: r.coin(), tick: 0 };
                let b: Box<dyn BufRead> = if r.coin() { Box::new(f) } else { Box::new(io::BufReader::with_capacity(r.range(1, 16), f)) };
                must_err("from_buf on a failing reader", load_buf(&mut r, b, &v))?;
                ctx.bump("read_faults_injected", 1);
            }
            for _ in 0..4 {
                ctx.input(format!("{} text {}, short and interrupted reads", v.kind(), show(&t)));
                let f = Faulty { data: t.clone(), pos: 0, fail_at: None, chunk: r.range(1, 5), interrupts: r.coin(), tick: 0 };
                let b: Box<dyn BufRead> = if r.coin() { Box::new(f) } else { Box::new(io::BufReader::with_capacity(r.range(1, 16), f)) };
                es("from_buf on a stuttering reader", load_buf(&mut r, b, &v))??;
                ctx.bump("stuttering_readers", 1);
            }
            ctx.eval(nt, h);
        }
        _ => { // paths that cannot be read, unsupported names; large files with a late defect
            let dd = format!("{d}/adir.txt");
            let dz = format!("{d}/adir.gz");
            let _ = std::fs::create_dir_all(&dd);
            let _ = std::fs::create_dir_all(&dz);
            ctx.input(format!("unreadable paths for {}", v.kind()));
            for (p, how) in [(format!("{d}/missing.txt"), How::Txt), (format!("{d}/missing.gz"), How::Gz), (format!("{d}/missing.txt"), How::File), (format!("{d}/missing.gz"), How::File),
                (dd.clone(), How::Txt), (dd.clone(), How::File), (dz.clone(), How::Gz), (dz.clone(), How::File), (d.clone(), How::Txt), (String::new(), How::Txt), (String::new(), How::File), ("/proc/self/mem".into(), How::Txt), ("/proc/self/mem".into(), How::Gz)] {
                must_err(&format!("{how:?} load of {p:?}"), load(&mut r, &p, how, &v))?;
                ctx.bump("unreadable_paths", 1);
            }
            for n in ["t", "t.csv", "t.gzip", "t.", "txt", ".txt"] {
                let p = format!("{d}/{n}");
                put(&p, &t)?;
                ctx.input(format!("extension-based load of {n}"));
                must_err(&format!("extension-based load of {n}"), load(&mut r, &p, How::File, &v))?;
                let _ = std::fs::remove_file(&p);
            }
            // more than one buffer of text, the defect far behind the first
            if case % 25 == 4 {
                let k = r.range(3000, 9000);
                let mut s = String::new();
                let mut m = Model::new();
                for i in 0..k { let (a, b) = (r.u32() % 5000, r.u32() % 5000); m.add_edge(a, b); s += &format!("{a} {b}{}", if i % 2 == 0 { "\n" } else { "\r\n" }); }
                let big = Val::Graph(m);
                ctx.input(format!("{k} edge lines, {} bytes", s.len()));
                put(&txt, s.as_bytes())?;
                let z = gzip(s.as_bytes(), 6);
                put(&gz, &z)?;
                for (p, how) in [(&txt, How::Txt), (&txt, How::File), (&gz, How::Gz), (&gz, How::File)] { es("large load", load(&mut r, p, how, &big))??; }
                for _ in 0..12 {
                    let c = match r.below(3) { 0 => z.len() - r.range(1, 20.min(z.len() - 1)), _ => r.below(z.len()) };
                    ctx.input(format!("{k} edge lines gzipped to {} bytes, truncated to {c}", z.len()));
                    put(&gz, &z[..c])?;
                    must_err("truncated large gzip", load(&mut r, &gz, How::Gz, &big))?;
                    must_err("truncated large gzip", load(&mut r, &gz, How::File, &big))?;
                    ctx.bump("truncated_gzip_images", 1);
                }
                let tail = ["7", "7 8 9", "7 x", "", "7 4294967296"][r.below(5)];
                ctx.input(format!("{k} edge lines followed by {tail:?}"));
                put(&txt, format!("{s}{}{tail}\n", if s.ends_with('\n') { "" } else { "\n" }).as_bytes())?;
                must_err("late defect", load(&mut r, &txt, How::Txt, &big))?;
                must_err("late defect", load(&mut r, &txt, How::File, &big))?;
                ctx.max("largest_text_bytes", s.len() as u64);
            }
            ctx.eval(nt, h);
        }
    }
    ctx.sample(|| format!("{} mode {} text {}", v.kind(), case % 5, show(&t)));
    Ok(())
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Default)]
struct Shared(Rc<RefCell<Vec<u8>>>);
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault { None, Error, Zero, Flush }

/// sink that keeps what it was given, fails on schedule, and (optionally)
/// stores nothing until it is flushed
#[derive(Default)]
struct State { pending: Vec<u8>, stored: Vec<u8>, failed: bool, writes: usize }
struct Sink { st: Rc<RefCell<State>>, fault: Fault, at: usize, chunk: usize, interrupts: bool, commit: bool }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.st.borrow_mut();
        s.writes += 1;
        if self.interrupts && s.writes % 2 == 1 { return Err(io::ErrorKind::Interrupted.into()) }
        if b.is_empty() { return Ok(0) }
        let have = s.pending.len() + s.stored.len();
        let mut n = b.len().min(self.chunk);
        if self.fault == Fault::Error || self.fault == Fault::Zero {
            if have >= self.at { s.failed = true; return if self.fault == Fault::Zero { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "no space left on test device")) } }
            n = n.min(self.at - have);
        }
        if self.commit { s.pending.extend_from_slice(&b[..n]) } else { s.stored.extend_from_slice(&b[..n]) }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.st.borrow_mut();
        if self.fault == Fault::Flush { s.failed = true; return Err(io::Error::new(io::ErrorKind::Other, "injected flush failure")) }
        let p = std::mem::take(&mut s.pending);
        s.stored.extend_from_slice(&p);
        Ok(())
    }
}

fn c16(ctx: &mut Ctx, case: usize) -> R {
    let d = dir(ctx)?;
    let mut r = ctx.rng.clone();
    let v = random_val(&mut r, 0.01);
    let o = obj(&mut r, &v);
    let reference = Shared::default();
    ctx.input(format!("write_buf of {}", v.show()));
    es("write_buf", o.buf(Box::new(reference.clone())))?;
    let full = reference.0.borrow().clone();
    es("from_buf", load_buf(&mut r, Box::new(io::Cursor::new(full.clone())), &v))??;
    let n = full.len();
    let mode = case % 4;
    let ks: Vec<usize> = if n <= 400 { (0..=n).collect() } else { (0..60).map(|i| match i % 3 { 0 => r.below(n + 1), 1 => n - r.below(40.min(n)), _ => (r.below(n / 4096 + 1) * 4096 + r.below(5)).min(n) }).collect() };
    match mode {
        0 => { // caller-supplied sinks
            for &k in &ks {
                let fault = [Fault::Error, Fault::Error, Fault::Zero, Fault::Flush, Fault::None][r.below(5)];
                let (chunk, interrupts, commit) = (r.range(1, 20), r.coin(), r.coin());
                let buffered = r.coin();
                ctx.input(format!("{fault:?} at byte {k} of {n}, chunk {chunk}, interrupts {interrupts}, commit-on-flush {commit}, buffered {buffered}; {}", v.show()));
                let st = Rc::new(RefCell::new(State::default()));
                let s = Sink { st: st.clone(), fault, at: k, chunk, interrupts, commit };
                let b: Box<dyn Write> = if buffered { Box::new(io::BufWriter::with_capacity(r.range(1, 64), s)) } else { Box::new(s) };
                let res = o.buf(b);
                let st = st.borrow();
                if res.is_ok() {
                    // what is stored when success is reported (drop may not have to save the day)
                    ensure!(st.stored == full, "reported success, but only {} of {n} bytes are stored (failed: {})", st.stored.len(), st.failed);
                    ensure!(!st.failed || fault == Fault::None, "reported success although the sink failed");
                } else {
                    ensure!(st.failed, "reported an error although the sink accepted everything: {res:?}");
                }
                ctx.bump(if fault == Fault::None { "sinks_short_or_interrupted" } else { "sink_faults_injected" }, 1);
                ctx.eval(fault != Fault::None && k < n, v.h() ^ mix(k as u64 * 8 + fault as u64));
            }
        }
        1 | 2 => { // real files that cannot grow past k bytes
            let gzm = mode == 2;
            let p = if gzm { format!("{d}/lim.gz") } else { format!("{d}/lim.txt") };
            let size = if gzm { es("write_gzipped", o.gz(&p))?; std::fs::metadata(&p).map(|m| m.len() as usize).unwrap_or(0) } else { n };
            let ks: Vec<usize> = if size <= 400 { (0..=size + 1).collect() } else { ks.iter().map(|k| if gzm { k * size / n.max(1) } else { *k }).chain([size - 1, size - 4, size - 8, size - 9, size, size + 1]).collect() };
            for k in ks {
                ctx.input(format!("{} limited to {k} of {size} bytes; {}", if gzm { "write_gzipped" } else { "write_txt" }, v.show()));
                let _ = std::fs::remove_file(&p);
                if !crate::sys::file_limit(Some(k as u64)) { ctx.bump("file_limit_unavailable", 1); return Ok(()) }
                let res = if gzm { o.gz(&p) } else { o.txt(&p) };
                crate::sys::restore_limits();
                match res {
                    Ok(()) => {
                        let l = load(&mut r, &p, if gzm { How::Gz } else { How::Txt }, &v);
                        match l { Ok(x) => x?, Err(e) => fail!("reported success with room for {k} of {size} bytes, but loading fails: {e}") }
                        ensure!(k >= size, "reported success with room for {k} of {size} bytes");
                        ctx.bump("limited_files_complete", 1);
                    }
                    Err(e) => { ensure!(k < size, "reported an error ({e}) with room for {k} of {size} bytes"); ctx.bump("storage_full_at_byte", 1) }
                }
                ctx.eval(k < size, v.h() ^ mix(k as u64 * 8 + mode as u64 + 4));
            }
            let _ = std::fs::remove_file(&p);
        }
        _ => { // device without space; places where no file can be created
            if n > 0 {
                ctx.input(format!("write to /dev/full; {}", v.show()));
                ensure!(o.txt("/dev/full").is_err(), "write_txt to a full device reports success");
                ctx.bump("full_device", 1);
            }
            ctx.input(format!("write_gzipped to /dev/full; {}", v.show()));
            ensure!(o.gz("/dev/full").is_err(), "write_gzipped to a full device reports success");
            for p in [format!("{d}/nodir/x.txt"), format!("{d}"), String::new()] {
                ctx.input(format!("write to {p:?}"));
                ensure!(o.txt(&p).is_err() && o.gz(&p).is_err(), "writing to {p:?} reports success");
            }
            // a previous, longer file must not lend its tail to a failed write's successor
            let p = format!("{d}/over.txt");
            put(&p, &vec![b'9'; n + 500])?;
            es("write_txt over a longer file", o.txt(&p))?;
            es("load", load(&mut r, &p, How::Txt, &v))??;
            ctx.eval(true, v.h() ^ 3);
        }
    }
    ctx.sample(|| format!("mode {mode} {} bytes {}", n, v.show()));
    Ok(())
}
