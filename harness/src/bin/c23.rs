//! C23: splitting a text stream into examples
use harness::*;
use reductionml_core::object_pool::Pool;
use reductionml_core::parsers::*;
use reductionml_core::types::*;
use std::io::{BufRead, BufReader, Cursor};
use std::sync::Arc;

fn lines(t: &str) -> Vec<&str> { t.split('\n').map(|l| l.trim_end()).collect() }
fn singles(t: &str) -> Vec<String> { lines(t).iter().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect() }
fn multis(t: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Vec<&str> = vec![];
    for l in lines(t) { if l.is_empty() { if !cur.is_empty() { out.push(cur.join("\n")); cur.clear(); } } else { cur.push(l); } }
    if !cur.is_empty() { out.push(cur.join("\n")); }
    out
}
fn read(p: &dyn Fn(&mut dyn BufRead, String) -> reductionml_core::error::Result<Option<String>>, t: &str, cap: usize, dirty: bool) -> Result<Vec<String>, String> {
    let mut c: Box<dyn BufRead> = if cap == 0 { Box::new(Cursor::new(t.as_bytes().to_vec())) } else { Box::new(BufReader::with_capacity(cap, Cursor::new(t.as_bytes().to_vec()))) };
    let mut out: Vec<String> = vec![];
    for _ in 0..t.len() + 3 {
        let buf = if dirty { "left over\n".to_string() } else { String::new() };
        match p(&mut c, buf).map_err(|e| e.to_string())? {
            Some(s) => out.push(s),
            None => {
                ensure!(p(&mut c, String::new()).map_err(|e| e.to_string())?.is_none(), "an example after the end was reported");
                return Ok(out);
            }
        }
    }
    Err(format!("the reader does not end: {:?}", out))
}
fn main() {
    run("C23", |h| {
        let pool = || Arc::new(Pool::new());
        let vs = VwTextParserFactory.create(FeaturesType::SparseSimple, LabelType::Simple, 0, 18, pool());
        let vm = VwTextParserFactory.create(FeaturesType::SparseCBAdf, LabelType::CB, 0, 18, pool());
        let js = JsonParserFactory.create(FeaturesType::SparseSimple, LabelType::Simple, 0, 18, pool());
        let jm = JsonParserFactory.create(FeaturesType::SparseCBAdf, LabelType::CB, 0, 18, pool());
        let dj = DsJsonParserFactory.create(FeaturesType::SparseCBAdf, LabelType::CB, 0, 18, pool());
        type P<'a> = (&'a str, bool, Box<dyn Fn(&mut dyn BufRead, String) -> reductionml_core::error::Result<Option<String>> + 'a>);
        let ps: Vec<P> = vec![
            ("vw simple", false, Box::new(|i, b| vs.get_next_chunk(i, b))), ("vw multi-line", true, Box::new(|i, b| vm.get_next_chunk(i, b))),
            ("json", false, Box::new(|i, b| js.get_next_chunk(i, b))), ("json cb", false, Box::new(|i, b| jm.get_next_chunk(i, b))), ("dsjson", false, Box::new(|i, b| dj.get_next_chunk(i, b)))];
        let check = |t: &str, k: usize| -> Result<bool, String> {
            for (q, (name, multi, p)) in ps.iter().enumerate() {
                if q > 1 && (k + q) % 3 != 0 { continue; }
                let want = if *multi { multis(t) } else { singles(t) };
                let got = read(p.as_ref(), t, [0, 1, 3][(k + q) % 3], k % 2 == 0)?;
                ensure!(got == want, "{name} reads {:?}, expected {:?}", got, want);
            }
            Ok(multis(t).len() > 1)
        };
        let n = h.n(6, 8);
        h.group("all", "every text up to the length bound over 'a' space newline carriage-return tab, in both chunking modes and through every parser, buffered in pieces, with a non-empty output buffer; non-trivial: several multi-line examples");
        let al = ['a', ' ', '\n', '\r', '\t'];
        let mut k = 0usize;
        for len in 0..=n { for code in 0..5usize.pow(len as u32) {
            let mut c = code;
            let t: String = (0..len).map(|_| { let x = al[c % 5]; c /= 5; x }).collect();
            k += 1;
            if !h.case(|| format!("{t:?}"), || check(&t, k)) { return; }
        } }
        h.group("random", "longer random texts with unicode, unicode blanks, CRLF endings, many blank lines, missing final newline; non-trivial: several multi-line examples");
        let mut r = h.rng();
        for k in 0..h.n(3000, 60000) {
            let mut t = String::new();
            for _ in 0..r.below(14) { t += ["a", "1 |n a b:2", " ", "é日本", "\u{a0}", "\u{2003}x", "shared | x", "{\"a\":1}", "", "\t|z"][r.below(10)]; t += ["\n", "\n\n", "\r\n", " \n", "\n \t\n", "", "\n\n\n", "\x0b\n"][r.below(8)]; }
            h.case(|| format!("{t:?}"), || check(&t, k));
        }
    });
}
