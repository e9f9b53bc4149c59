//! Files: linguistic resources, archives, and what is left on disk.
use crate::c_core::{queries, run};
use crate::c_crf::rich;
use crate::c_models::*;
use crate::common::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use crate::zipw::{self, Entry};
use mc_env::faults::{install, uninstall, Mode};
use serde_json::{json, Value};
use snips_nlu_lib::{load_shared_resources, SharedResources, SnipsNluEngine};
use snips_nlu_utils::string::{hash_str_to_i32, normalize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------------------------------- C24
/// how the lines of a file are put together
fn layouts(lines: &[S], n: usize) -> String {
    match n {
        0 => lines.iter().map(|l| format!("{}\n", l)).collect(),
        1 => lines.join("\n"),
        2 => lines.iter().map(|l| format!("{}\r\n", l)).collect(),
        3 => lines.join("\r\n"),
        4 => lines.iter().map(|l| format!("\n{}\n\n", l)).collect(),
        _ => format!("\r\n{}\r\n\r\n", lines.join("\r\n\r\n")),
    }
}
const LAYOUTS: usize = 6;
struct Files { words: Vec<Vec<S>>, clusters: Vec<Vec<(S, S)>>, stems: Vec<Vec<S>>, stop: Vec<S>, layout: usize }
fn variants(w: &str) -> BTreeSet<S> {
    let mut v: BTreeSet<S> = [s(w), w.trim().to_string(), format!("{} ", w), format!(" {}", w), w.to_lowercase(), w.to_uppercase(), normalize(w), w.replace('"', ""), format!("\"{}\"", w), w.replace(' ', ""), format!("{}s", w)].into_iter().collect();
    for c in [',', '\t', ' '] { for p in w.split(c) { v.insert(s(p)); } }
    if let Some((i, _)) = w.char_indices().last() { v.insert(s(&w[..i])); }
    v
}
pub fn c24(ctx: &Ctx) {
    ctx.rule("a file of a linguistic resource and a word asked of it");
    let w = world(ctx, lean());
    let (b, c) = (w.dir.join("builtin_entity_parser"), w.dir.join("custom_entity_parser"));
    let words = ss(&["tea", "green tea", "TEA", " tea", "tea ", "thé", "\"tea\"", "\"tea", "a,b", "a\tb", "0", "", "日本", "#tea", "ｔｅａ", "'"]);
    let names = ["1", "0010", "10", "65535", "65536", "-1", "+5", "0", "00", "1e3", "abc", " 7", "7 ", "٣", "", "1.0", "\"3\""];
    let sw = ss(&["tea", "#x", "teas", "make", "made", "the tea", " b", "\"x\"", "x", "日本", ""]);
    // --- the files
    let mut lists: Vec<Vec<S>> = vec![vec![]];
    for a in &words { lists.push(vec![a.clone()]); for b in &words { lists.push(vec![a.clone(), b.clone()]); if ctx.thorough { for c in &words { lists.push(vec![a.clone(), b.clone(), c.clone()]); } } } }
    let keys = ["bird", "Bird", "a b"];
    let mut clusters: Vec<Vec<(S, S)>> = vec![vec![]];
    for a in names { clusters.push(vec![(s(keys[0]), s(a))]); for b in names { clusters.push(vec![(s(keys[0]), s(a)), (s(keys[1]), s(b))]); for c in names { clusters.push(vec![(s(keys[2]), s(c)), (s(keys[0]), s(a)), (s(keys[1]), s(b))]); } } }
    for k in ["", " bird", "bird ", "\"bird\"", "bi\"rd", "a,b", "日本", "1"] { for a in names { clusters.push(vec![(s(k), s(a)), (s("z"), s("7"))]); clusters.push(vec![(s("z"), s("x7")), (s(k), s(a))]); } }
    // one cluster that is no number, at each place of a long file
    for n in [2usize, 50] { for at in 0..n { for odd in ["x", "0010", "65536"] { clusters.push((0..n).map(|i| (format!("w{}", i), if i == at { s(odd) } else { format!("{}", i * 7) })).collect()); } } }
    let mut stems: Vec<Vec<Vec<S>>> = vec![vec![]];
    let mut one: Vec<Vec<S>> = vec![];
    for a in &sw { one.push(vec![a.clone()]); for b in &sw { one.push(vec![a.clone(), b.clone()]); } }
    for a in &sw { for b in &sw { for c in &sw { stems.push(vec![vec![a.clone(), b.clone(), c.clone()]]); } } }
    for a in &one { stems.push(vec![a.clone()]); for b in &one { if ctx.thorough || a.len() + b.len() < 4 || a[0] != b[0] && a[1] != b[1] { stems.push(vec![a.clone(), b.clone()]); } } }
    for n in [1usize, 10, 40] { stems.push(vec![(0..n).map(|i| format!("f{}", i)).collect()]); }
    // long files, and lines across the borders of buffers
    let mut long: Vec<Vec<S>> = vec![(0..3000).map(|i| format!("word{}", i)).collect()];
    for n in 8180..8196 { long.push(vec!["é".repeat(n / 2), "x".repeat(n % 2 + 1), s("tea")]); long.push(vec!["x".repeat(n), s("tea")]); }
    lists.extend(long);
    // --- together, some of each in every load
    let mut loads: Vec<Files> = vec![];
    let n = lists.len().max(clusters.len() / 4).max(stems.len());
    for i in 0..n {
        let pick = |k: usize| lists[(i * k + i / lists.len()) % lists.len()].clone();
        loads.push(Files { words: vec![lists[i % lists.len()].clone(), pick(7), pick(3)], clusters: (0..4).map(|k| clusters[(i * 4 + k) % clusters.len()].clone()).collect(), stems: stems[i % stems.len()].clone(), stop: lists[(i * 5 + 1) % lists.len()].clone(), layout: i % LAYOUTS });
    }
    // each list in each layout
    for (i, l) in lists.iter().enumerate() { for k in 0..LAYOUTS { if l.len() < 3 || ctx.thorough { loads.push(Files { words: vec![l.clone()], clusters: vec![clusters[(i * LAYOUTS + k) % clusters.len()].clone()], stems: stems[(i * LAYOUTS + k) * 13 % stems.len()].clone(), stop: l.clone(), layout: k }); } } }
    // the stand-in's hash must tell the words of the alphabets apart
    let mut hashes: HashMap<i32, S> = HashMap::new();
    for w in lists.iter().flatten().chain(stems.iter().flatten().flatten()).chain(clusters.iter().flatten().map(|c| &c.0)) { for v in variants(w) { let h = hash_str_to_i32(&v); if hashes.insert(h, v.clone()).map(|o| o != v).unwrap_or(false) { ctx.note("colliding words", json!(v)); } } }
    ctx.note("files", json!({"word lists": lists.len(), "clusters": clusters.len(), "stems": stems.len(), "loads": loads.len()}));
    let chunk = 64;
    ctx.par(loads.len().div_ceil(chunk), |j| {
        let d = fresh_dir(ctx);
        for f in &loads[j * chunk..((j + 1) * chunk).min(loads.len())] {
            if ctx.stopped() { return; }
            let _ = std::fs::remove_dir_all(&d);
            one_load(ctx, &d, f, &b, &c);
        }
        let _ = std::fs::remove_dir_all(&d);
    });
    // resources that are not named
    let d = fresh_dir(ctx);
    for mask in 0..16 {
        let opt = |i: usize, v: Value| if mask >> i & 1 == 1 { v } else { Value::Null };
        put(&d.join("metadata.json"), &json!({"language": "en", "gazetteers": opt(0, json!(["g"])), "word_clusters": opt(1, json!(["c"])), "stems": opt(2, json!("stems")), "stop_words": opt(3, json!("stop_words"))}));
        put_text(&d.join("gazetteers/g.txt"), "tea\n");
        put_text(&d.join("word_clusters/c.txt"), "tea\t3\n");
        put_text(&d.join("stemming/stems.txt"), "tea,teas\n");
        put_text(&d.join("stop_words.txt"), "the\n");
        ctx.eval(Some(mask));
        let a = ask(|| s("load resources"), || load_shared_resources(&d, &b, &c));
        let got = a.ok().map(|r| (r.gazetteers.len(), r.word_clusterers.len(), r.stemmer.as_ref().map(|x| x.stem("teas")), r.stop_words.len()));
        let exp = Some((mask & 1, mask >> 1 & 1, if mask >> 2 & 1 == 1 { Some(s("tea")) } else { None }, mask >> 3 & 1));
        if got != exp { ctx.violate(&format!("resources {:04b}", mask), json!({"named (gazetteer, clusters, stems, stop words)": format!("{:04b}", mask), "expected": format!("{:?}", exp), "got": format!("{:?} {}", got, a.why())})); }
    }
}
fn one_load(ctx: &Ctx, d: &Path, f: &Files, b: &Path, c: &Path) {
    let gn = |i: usize| ["top", "Top_10", "the Words"][i].to_string();
    let cn = |i: usize| ["brown", "Brown_2", "x", "Y é"][i].to_string();
    put(&d.join("metadata.json"), &json!({"language": "en", "gazetteers": (0..f.words.len()).map(gn).collect::<Vec<_>>(), "word_clusters": (0..f.clusters.len()).map(cn).collect::<Vec<_>>(), "stems": "stems", "stop_words": "stop_words"}));
    for (i, l) in f.words.iter().enumerate() { put_text(&d.join("gazetteers").join(gn(i)).with_extension("txt"), &layouts(l, f.layout)); }
    for (i, l) in f.clusters.iter().enumerate() { put_text(&d.join("word_clusters").join(cn(i)).with_extension("txt"), &layouts(&l.iter().map(|(a, b)| format!("{}\t{}", a, b)).collect::<Vec<_>>(), f.layout)); }
    put_text(&d.join("stemming/stems.txt"), &layouts(&f.stems.iter().map(|l| l.join(",")).collect::<Vec<_>>(), f.layout));
    put_text(&d.join("stop_words.txt"), &layouts(&f.stop, f.layout));
    let key = |what: &str, file: String, word: &str| { let t: String = file.chars().take(200).collect(); format!("{} {} (layout {}): {:?}", what, t, f.layout, if word.len() > 50 { &word[..1] } else { word }) };
    let r: Arc<SharedResources> = match ask(|| format!("load resources {:?} {:?}", f.stems, f.clusters), || load_shared_resources(d, b, c)) {
        Ans::Ok(r) => r,
        x => { ctx.violate(&key("load", format!("{:?} {:?}", f.stems, f.clusters), ""), json!({"stems": f.stems, "clusters": f.clusters, "word lists": f.words.iter().map(|l| l.iter().take(3).collect::<Vec<_>>()).collect::<Vec<_>>(), "stop words": f.stop.iter().take(3).collect::<Vec<_>>(), "got": x.why()})); return; }
    };
    let asked = |l: &[S]| -> BTreeSet<S> { l.iter().rev().take(40).flat_map(|w| variants(w)).chain(["tea", "bird", "zzz", "w1", "the"].iter().map(|x| s(x))).collect() };
    for (i, l) in f.words.iter().enumerate() {
        let g = match r.gazetteers.get(&gn(i)) { Some(g) => g, None => { ctx.violate("gazetteer missing", json!(gn(i))); continue; } };
        for q in asked(l) {
            ctx.eval(Some(("gazetteer", l, &q)));
            // (whether an empty line lists the empty word is not said)
            if q.is_empty() { continue; }
            let exp = l.contains(&q);
            if g.contains(&q) != exp { ctx.violate(&key("gazetteer", format!("{:?}", l), &q), json!({"lines": l.iter().take(5).collect::<Vec<_>>(), "layout": layouts(&[s("LINE")], f.layout), "word": q, "expected": exp})); }
        }
    }
    for q in asked(&f.stop) {
        ctx.eval(Some(("stop words", &f.stop, &q)));
        if q.is_empty() { continue; }
        if r.stop_words.contains(&q) != f.stop.contains(&q) { ctx.violate(&key("stop words", format!("{:?}", f.stop), &q), json!({"lines": f.stop.iter().take(5).collect::<Vec<_>>(), "layout": layouts(&[s("LINE")], f.layout), "word": q, "expected": f.stop.contains(&q)})); }
    }
    if r.stop_words.iter().any(|x| !x.is_empty() && !f.stop.contains(x)) { ctx.violate(&key("stop words", format!("{:?}", f.stop), "?"), json!({"lines": f.stop, "got": r.stop_words.iter().collect::<Vec<_>>()})); }
    for (i, l) in f.clusters.iter().enumerate() {
        let g = match r.word_clusterers.get(&cn(i)) { Some(g) => g, None => { ctx.violate("clusters missing", json!(cn(i))); continue; } };
        for q in asked(&l.iter().map(|x| x.0.clone()).collect::<Vec<_>>()) {
            ctx.eval(Some(("clusters", l, &q)));
            let exp: Vec<S> = l.iter().filter(|x| x.0 == q).map(|x| x.1.clone()).collect();
            let got = g.get_cluster(&q);
            let fine = match &got { None => exp.is_empty(), Some(g) => exp.contains(g) };
            if !fine { ctx.violate(&key("clusters", format!("{:?}", l), &q), json!({"lines": l, "layout": layouts(&[s("LINE")], f.layout), "word": q, "expected": exp, "got": got})); }
        }
    }
    let st = match &r.stemmer { Some(g) => g, None => { ctx.violate("stemmer missing", json!(null)); return; } };
    let all: Vec<S> = f.stems.iter().flatten().cloned().collect();
    for q in asked(&all) {
        ctx.eval(Some(("stems", &f.stems, &q)));
        let n = normalize(&q);
        if n.is_empty() { continue; }
        // (of forms that no word has once normalized, nothing is said)
        let exp: Vec<S> = f.stems.iter().filter(|l| l[1..].contains(&n)).map(|l| l[0].clone()).collect();
        let got = st.stem(&q);
        let fine = if exp.is_empty() { got == q } else { exp.contains(&got) };
        if !fine { ctx.violate(&key("stems", format!("{:?}", f.stems), &q), json!({"lines": f.stems, "layout": layouts(&[s("LINE")], f.layout), "word": q, "expected": if exp.is_empty() { vec![q.clone()] } else { exp }, "got": got})); }
    }
    ctx.sample(|| json!({"stems": f.stems, "clusters": f.clusters, "layout": f.layout}));
}

// ------------------------------------------------------------------------------------------- C25
fn tmp() -> PathBuf { PathBuf::from(std::env::var("TMPDIR").unwrap()) }
fn leftovers(ctx: &Ctx) -> Vec<String> {
    let mut v: Vec<String> = snapshot(&tmp()).into_iter().map(|x| x.0.display().to_string()).take(20).collect();
    // every directory between the scratch directory and the temporary one holds the next one only
    let mut d = tmp();
    while d != ctx.scratch.path() {
        let up = d.parent().unwrap().to_path_buf();
        if up == ctx.scratch.path() { break; }
        for e in std::fs::read_dir(&up).unwrap().flatten() { if e.path() != d { v.push(format!("escaped: {}", e.path().strip_prefix(ctx.scratch.path()).unwrap().display())); } }
        d = up;
    }
    let abs = ctx.scratch.path().join("abs");
    for (p, _) in snapshot(&abs) { v.push(format!("escaped: {}", p.display())); }
    v
}
fn clear_leftovers(ctx: &Ctx) {
    let mut d = tmp();
    for e in std::fs::read_dir(&d).unwrap().flatten() { let _ = std::fs::remove_dir_all(e.path()); let _ = std::fs::remove_file(e.path()); }
    while d.parent().unwrap() != ctx.scratch.path() {
        let up = d.parent().unwrap().to_path_buf();
        for e in std::fs::read_dir(&up).unwrap().flatten() { if e.path() != d { let _ = std::fs::remove_dir_all(e.path()); let _ = std::fs::remove_file(e.path()); } }
        d = up;
    }
    let abs = ctx.scratch.path().join("abs");
    let _ = std::fs::remove_dir_all(&abs);
    std::fs::create_dir_all(&abs).unwrap();
}
/// gives its bytes a few at a time, and fails at some point
struct Slow { c: Cursor<Vec<u8>>, step: usize, fail: Option<usize>, ops: Arc<Mutex<usize>>, interrupt: bool }
impl Slow {
    fn op(&self) -> std::io::Result<()> {
        let mut n = self.ops.lock().unwrap();
        *n += 1;
        if Some(*n - 1) == self.fail { return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected fault: the reader")); }
        Ok(())
    }
}
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.op()?;
        if self.interrupt { self.interrupt = false; return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "try again")); }
        let n = b.len().min(self.step);
        self.c.read(&mut b[..n])
    }
}
impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.op()?; self.c.seek(p) } }
fn answers(e: &SnipsNluEngine, spec: &Engine, texts: &[&str]) -> Vec<Value> { texts.iter().flat_map(|t| queries(spec, t)).map(|q| run(e, &q)).collect() }
pub fn c25(ctx: &Ctx) {
    ctx.rule("one way of writing an archive, one hostile name, or one damage");
    clear_leftovers(ctx);
    let ws = [world(ctx, lean()), world(ctx, full())];
    let mut bases = vec![];
    for w in &ws { match load(&w.dir) { Ans::Ok(e) => bases.push(answers(&e, &w.spec, &TEXTS)), a => { ctx.violate("load", json!({"engine": w.spec.name, "why": a.why()})); return; } } }
    // --- layouts
    let mut jobs: Vec<(usize, String, Vec<Entry>)> = vec![];
    for (i, w) in ws.iter().enumerate() {
        for dirs in [false, true] { for deflate in [false, true] {
            let e = zipw::entries(&w.dir, "engine", deflate, dirs);
            let name = format!("{}{}{}", w.spec.name, if dirs { ", with directories" } else { "" }, if deflate { ", deflated" } else { "" });
            jobs.push((i, format!("{}, in order", name), e.clone()));
            let mut r = e.clone();
            r.reverse();
            jobs.push((i, format!("{}, reversed", name), r));
            for k in 0..e.len() {
                let mut r = e.clone(); r.rotate_left(k); jobs.push((i, format!("{}, from entry {}", name, k), r));
                let mut r = e.clone(); let x = r.remove(k); r.insert(0, x); jobs.push((i, format!("{}, entry {} first", name, k), r));
                let mut r = e.clone(); let x = r.remove(k); r.push(x); jobs.push((i, format!("{}, entry {} last", name, k), r));
                let mut r = e.clone(); r[k].deflate = !r[k].deflate; jobs.push((i, format!("{}, entry {} stored otherwise", name, k), r));
                for m in [0, 0o100000, 0o100400, 0o100755, 0o40755, 0o777] { let mut r = e.clone(); r[k].mode = m; if k % 5 == 0 || ctx.thorough { jobs.push((i, format!("{}, entry {} with mode {:o}", name, k, m), r)); } }
                if ctx.thorough || i == 0 && !deflate { for l in 0..k { let mut r = e.clone(); r.swap(k, l); jobs.push((i, format!("{}, entries {} and {} swapped", name, l, k), r)); } }
            }
            // directories after their files, or more than once
            if dirs {
                let (a, b): (Vec<Entry>, Vec<Entry>) = e.iter().cloned().partition(|x| x.name.ends_with(b"/"));
                jobs.push((i, format!("{}, directories last", name), b.iter().chain(&a).cloned().collect()));
                jobs.push((i, format!("{}, directories twice", name), a.iter().chain(&b).chain(&a).cloned().collect()));
                for k in 0..a.len() { let mut r = e.clone(); r.retain(|x| x.name != a[k].name); jobs.push((i, format!("{}, without {}", name, String::from_utf8_lossy(&a[k].name)), r)); }
            }
        } }
        for root in ["trained_engine", "e", "with space", "été", "日本", ".hidden", "a.zip", "nlu_engine.json", "...", "a'b\"c", "x".repeat(200).as_str(), "engine\\", "-rf", "%2e%2e", "C:", "resources", "~"] {
            for dirs in [false, true] {
                // (a name that ends in a backslash may be a directory of its own)
                if root.ends_with('\\') { continue; }
                let e = zipw::entries(&w.dir, root, dirs, dirs);
                jobs.push((i, format!("{} as {:?}{}", w.spec.name, &root.chars().take(20).collect::<String>(), if dirs { ", with directories" } else { "" }), e));
            }
        }
        // the same names written otherwise
        for (what, f) in [("./engine/", &(|n: &str| format!("./{}", n)) as &dyn Fn(&str) -> String), ("engine/./", &|n: &str| n.replacen("engine/", "engine/./", 1)), ("engine//", &|n: &str| n.replacen("engine/", "engine//", 1))] {
            let mut e = zipw::entries(&w.dir, "engine", true, false);
            for x in e.iter_mut() { x.name = f(std::str::from_utf8(&x.name).unwrap()).into_bytes(); }
            jobs.push((i, format!("{}, names from {}", w.spec.name, what), e));
        }
        // other files inside
        for extra in ["engine/README", "engine/resources/zz/metadata.json", "engine/a/b/c/d/e", "engine/.DS_Store", "engine/nlu_engine.json.bak", "engine/nlu_engine", "engine/empty/", "other/nlu_engine.json", "zz"] {
            let mut e = zipw::entries(&w.dir, "engine", false, true);
            e.push(if extra.ends_with('/') { zipw::dir(&extra[..extra.len() - 1]) } else { zipw::file(extra, b"x", false) });
            jobs.push((i, format!("{}, with {}", w.spec.name, extra), e));
        }
    }
    ctx.note("layouts", json!(jobs.len()));
    ctx.par(jobs.len(), |j| {
        let (i, what, e) = &jobs[j];
        let w = &ws[*i];
        ctx.eval(Some(what));
        let bytes = zipw::archive(e);
        let a = ask(|| format!("load archive: {}", what), || SnipsNluEngine::from_zip(Cursor::new(bytes)));
        let n = if ctx.thorough || j % 16 == 0 { TEXTS.len() } else { 4 };
        match a {
            Ans::Ok(engine) => {
                let got = answers(&engine, &w.spec, &TEXTS[..n]);
                if let Some(k) = (0..got.len()).find(|k| got[*k] != bases[*i][*k]) { ctx.violate(what, json!({"archive": what, "query": k, "expected": bases[*i][k], "got": got[k]})); }
            }
            a => ctx.violate(what, json!({"archive": what, "expected": "the same engine as from the directory", "got": a.why()})),
        }
        ctx.sample(|| json!({"archive": what, "entries": e.len()}));
    });
    let quiet = |after: &str| { let l = leftovers(ctx); if !l.is_empty() { ctx.violate(&format!("left behind after {}", after), json!({"after": after, "left behind": l})); clear_leftovers(ctx); } };
    quiet("loading archives");
    // --- hostile names: nothing may appear outside of the temporary directory (names reach only into the scratch directory)
    let w = &ws[0];
    let abs = ctx.scratch.path().join("abs");
    let mut hostile: Vec<String> = vec![];
    for up in 1..4 { let u = "../".repeat(up); for n in ["x", "x/y", "tmp/x", "engine/nlu_engine.json"] {
        hostile.push(format!("{}{}", u, n));
        hostile.push(format!("engine/{}{}", u, n));
        hostile.push(format!("engine/a/{}{}", "../".repeat(up.min(3)), n));
        hostile.push(format!("./{}{}", u, n));
        hostile.push(format!("{}./{}", u, n));
        hostile.push(format!("engine/../{}{}", "../".repeat(up - 1), n));
        hostile.push(format!("{}{}", u.replace('/', "\\"), n.replace('/', "\\")));
        hostile.push(format!("engine\\{}{}", u.replace('/', "\\"), n));
        hostile.push(format!("a/b/{}{}", "../".repeat(up + 2).as_str().chars().take(3 * 4).collect::<String>(), n));
    } }
    for n in ["x", "y/z", "../abs/x"] { hostile.push(format!("{}/{}", abs.display(), n)); hostile.push(format!("/{}/{}", abs.display(), n)); hostile.push(format!("./{}/{}", abs.display(), n)); hostile.push(format!("engine/{}/{}", abs.display(), n)); hostile.push(format!("file://{}/{}", abs.display(), n)); }
    for n in ["", ".", "..", "./", "../", "engine/..", "engine/../..", "engine/.", "/", "//", "...", "~/x", "$HOME/x", "engine/a\u{0}/../../../x", "../x\u{0}", "con", "a:b", "engine/\n", "engine/nlu_engine.json/x", "engine/resources", "engine"] { hostile.push(s(n)); }
    let mut jobs: Vec<(String, Vec<Entry>)> = vec![];
    for h in &hostile {
        for (k, e) in [zipw::file(h, b"{}", false), { let mut d = zipw::dir(h.trim_end_matches('/')); if h.ends_with('/') { d.name = h.clone().into_bytes(); } d }].into_iter().enumerate() {
            let kind = ["file", "directory"][k];
            // (a link is written as its text, or refused)
            for mode in if k == 0 { vec![0o100644, 0o120777] } else { vec![0o40755] } {
                let mut e = e.clone();
                e.mode = mode;
                if mode == 0o120777 { e.data = abs.display().to_string().into_bytes(); }
                let all = zipw::entries(&w.dir, "engine", false, false);
                for at in [0, all.len() / 2, all.len()] { let mut v = all.clone(); v.insert(at, e.clone()); if mode == 0o120777 { v.push(zipw::file(&format!("{}/through", h.trim_end_matches('/')), b"x", false)); } jobs.push((format!("{} {:?} (mode {:o}) at {}", kind, h, mode, at), v)); }
                jobs.push((format!("{} {:?} (mode {:o}) alone", kind, h, mode), vec![e.clone()]));
            }
        }
    }
    ctx.note("archives with hostile names", json!(jobs.len()));
    let batch = 48;
    for (b, part) in jobs.chunks(batch).enumerate() {
        if ctx.stopped() { return; }
        ctx.par(part.len(), |j| {
            let (what, e) = &part[j];
            ctx.eval(Some(what));
            let bytes = zipw::archive(e);
            if let Ans::Panic(p) = ask(|| format!("load archive: {}", what), || SnipsNluEngine::from_zip(Cursor::new(bytes))) { ctx.violate(what, json!({"archive": what, "got": p})); }
        });
        let l = leftovers(ctx);
        if !l.is_empty() {
            // which one was it?
            clear_leftovers(ctx);
            for (what, e) in part {
                let bytes = zipw::archive(e);
                let _ = ask(|| format!("load archive: {}", what), || SnipsNluEngine::from_zip(Cursor::new(bytes)));
                let l = leftovers(ctx);
                if !l.is_empty() { ctx.violate(&format!("hostile {}", what.replace(&abs.display().to_string(), "ABS")), json!({"archive": what, "written outside or left behind": l})); clear_leftovers(ctx); break; }
            }
            if ctx.stopped() { return; }
            let _ = b;
        }
    }
    // --- readers that give little at a time, and fail
    let bytes = zipw::archive(&zipw::entries(&w.dir, "engine", true, false));
    for step in [1usize, 3, 64, 4096, usize::MAX] {
        let ops = Arc::new(Mutex::new(0));
        let mk = |fail, interrupt, ops: &Arc<Mutex<usize>>| Slow { c: Cursor::new(bytes.clone()), step, fail, ops: ops.clone(), interrupt };
        for interrupt in [false, true] {
            ctx.eval(Some(("reader", step, interrupt)));
            match ask(|| format!("load archive {} bytes at a time", step), || SnipsNluEngine::from_zip(mk(None, interrupt, &ops))) {
                Ans::Ok(e) => if answers(&e, &w.spec, &TEXTS[..4])[..] != bases[0][..answers(&e, &w.spec, &TEXTS[..4]).len()] { ctx.violate(&format!("reader of {} bytes", step), json!({"reader": step})); },
                a => ctx.violate(&format!("reader of {} bytes, interrupted {}", step, interrupt), json!({"reader": step, "interrupted": interrupt, "got": a.why()})),
            }
        }
        if step < 64 && !ctx.thorough { continue; }
        let n = *ops.lock().unwrap() / 2;
        let stride = (n / 400).max(1);
        ctx.par(n / stride, |k| {
            let k = k * stride;
            ctx.eval(Some(("reader fails", step, k)));
            let ops = Arc::new(Mutex::new(0));
            let a = ask(|| format!("load archive, reader fails at {}", k), || SnipsNluEngine::from_zip(mk(Some(k), false, &ops)));
            let fired = *ops.lock().unwrap() > k;
            match a { Ans::Err(_) => {} Ans::Ok(_) if !fired => {} a => ctx.violate(&format!("reader of {} bytes fails at {}", step, k), json!({"reader": step, "fails at": k, "expected": "an error", "got": a.why()})) }
        });
        quiet("loading from failing readers");
    }
    // --- every operation fails; archives cut short; archives of damaged engines
    for deflate in [false, true] {
        let bytes = zipw::archive(&zipw::entries(&w.dir, "engine", deflate, true));
        install(Mode::Count, true, true);
        let a = ask(|| s("load"), || SnipsNluEngine::from_zip(Cursor::new(bytes.clone())));
        let all = uninstall();
        if a.ok().is_none() { ctx.violate("load archive", json!(a.why())); return; }
        ctx.par(all.ops, |n| {
            for m in [Mode::FailAt(n), Mode::FailFrom(n)] {
                install(m, true, true);
                let a = ask(|| format!("load with {:?}", m), || SnipsNluEngine::from_zip(Cursor::new(bytes.clone())));
                let sum = uninstall();
                ctx.eval(Some(("operation fails", deflate, n)));
                let what = sum.trace.get(n).cloned().unwrap_or_default();
                let key = format!("operation fails: {}", what);
                match a {
                    Ans::Ok(e) => if answers(&e, &w.spec, &TEXTS[..2])[..] != bases[0][..queries(&w.spec, "").len() * 2] { ctx.violate(&key, json!({"failing": what, "got": "an engine that answers otherwise"})); },
                    Ans::Panic(p) => ctx.violate(&key, json!({"failing": what, "got": p})),
                    _ => {}
                }
            }
        });
        ctx.note(if deflate { "operations (deflated)" } else { "operations (stored)" }, json!(all.ops));
        quiet("failing operations");
        let cuts: Vec<usize> = if ctx.thorough { (0..bytes.len()).collect() } else { (0..600).map(|i| i * bytes.len() / 600).collect() };
        ctx.par(cuts.len(), |k| {
            ctx.eval(Some(("cut", deflate, cuts[k])));
            let _ = ask(|| format!("load archive cut after {}", cuts[k]), || SnipsNluEngine::from_zip(Cursor::new(bytes[..cuts[k]].to_vec())));
            let mut x = bytes.clone();
            x[cuts[k]] ^= 0x55;
            let _ = ask(|| format!("load archive with byte {} changed", cuts[k]), || SnipsNluEngine::from_zip(Cursor::new(x)));
        });
        quiet("loading damaged archives");
    }
    // (an engine of which one file is missing, empty or damaged is the same from an archive as from its directory)
    for (w, dirs) in ws.iter().flat_map(|w| vec![(w, false), (w, true)]) {
        let good = zipw::entries(&w.dir, "engine", true, dirs);
        let files: Vec<usize> = (0..good.len()).filter(|k| !good[*k].name.ends_with(b"/")).collect();
        ctx.par(files.len() * 4, |j| {
            let k = files[j / 4];
            let name = std::str::from_utf8(&good[k].name).unwrap().to_string();
            let mut e = good.clone();
            let d = fresh_dir(ctx);
            copy_tree(&w.dir, &d.join("engine"));
            let how = ["missing", "empty", "one byte", "a blank line"][j % 4];
            match j % 4 {
                0 => { e.remove(k); std::fs::remove_file(d.join(&name)).unwrap(); }
                i => { let data = [&b""[..], b"\xff", b"\n"][i - 1]; e[k].data = data.to_vec(); std::fs::write(d.join(&name), data).unwrap(); }
            }
            ctx.eval(Some(("damaged entry", &w.spec.name, dirs, j)));
            let bytes = zipw::archive(&e);
            let a = ask(|| format!("load archive with {} {}", how, name), || SnipsNluEngine::from_zip(Cursor::new(bytes)));
            let b = load(&d.join("engine"));
            let key = format!("{} {} {}{}", w.spec.name, how, name, if dirs { " (with directories)" } else { "" });
            match (&a, &b) {
                (Ans::Ok(x), Ans::Ok(y)) => if answers(x, &w.spec, &TEXTS[..6]) != answers(y, &w.spec, &TEXTS[..6]) { ctx.violate(&key, json!({"file": name, "is": how, "got": "the engine of the archive answers otherwise than that of the directory"})); },
                (Ans::Err(_), Ans::Err(_)) => {}
                _ => ctx.violate(&key, json!({"file": name, "is": how, "from the archive": a.why(), "from the directory": b.why()})),
            }
            drop((a, b));
            let _ = std::fs::remove_dir_all(&d);
        });
    }
    quiet("loading archives of damaged engines");
}

// ------------------------------------------------------------------------------------------- C33
/// content, identity and times of everything below a directory
fn identity(dir: &Path) -> BTreeMap<PathBuf, (Option<Vec<u8>>, u64, i64, i64, u32)> {
    let mut out: BTreeMap<_, _> = snapshot(dir).into_iter().map(|(p, c)| { let m = std::fs::symlink_metadata(dir.join(&p)).unwrap(); (p, (c, m.ino(), m.mtime(), m.mtime_nsec(), m.mode())) }).collect();
    let m = std::fs::symlink_metadata(dir).unwrap();
    out.insert(PathBuf::new(), (None, m.ino(), m.mtime(), m.mtime_nsec(), m.mode()));
    out
}
fn changed(a: &BTreeMap<PathBuf, (Option<Vec<u8>>, u64, i64, i64, u32)>, b: &BTreeMap<PathBuf, (Option<Vec<u8>>, u64, i64, i64, u32)>) -> Vec<PathBuf> {
    a.keys().chain(b.keys()).collect::<BTreeSet<_>>().into_iter().filter(|k| a.get(*k) != b.get(*k)).cloned().collect()
}
/// Err: what an action on `dir` changed below `root`; `allowed` may change
pub fn unchanged<T>(root: &Path, allowed: &dyn Fn(&Path) -> bool, f: impl FnOnce() -> T) -> (T, Vec<String>) {
    let before = identity(root);
    mc_env::faults::touched();
    install(Mode::Count, false, true);
    let r = f();
    let sum = uninstall();
    let mut bad: Vec<String> = changed(&before, &identity(root)).into_iter().filter(|p| !allowed(p)).map(|p| format!("changed: {}", p.display())).collect();
    drop(sum);
    for p in mc_env::faults::touched() { if !p.starts_with(tmp()) && !p.strip_prefix(root).map(allowed).unwrap_or(false) { bad.push(format!("touched: {}", p.display())); } }
    (r, bad)
}
pub fn c33(ctx: &Ctx) {
    ctx.rule("an engine loaded and queried, or an injection");
    ctx.level("fault_enumeration");
    let specs = [full(), lean(), with(rich(), "P", true), with(rich(), "D", false), with(rich(), "L", false)];
    let mut jobs: Vec<(usize, String)> = vec![];
    for (i, _) in specs.iter().enumerate() { for t in TEXTS.iter() { jobs.push((i, s(t))); } }
    ctx.par(specs.len(), |i| {
        let w = world(ctx, specs[i].clone());
        let root = w.dir.parent().unwrap().to_path_buf();
        // things beside the engine, which are nobody's business
        for (n, t) in [("other/file", "x"), ("engine.zip", "y"), ("engine/unknown/file", "z"), ("engine/crf.tmp", "t"), ("engine/probabilistic_intent_parser/notes.txt", "n")] { put_text(&root.join(n), t); }
        let (e, bad) = unchanged(&root, &|_| false, || load(&w.dir));
        ctx.eval(Some((&w.spec.name, i, "load")));
        if !bad.is_empty() { ctx.violate(&format!("load {} {}", w.spec.name, i), json!({"engine": w.spec.name, "loading it": bad})); }
        let e = match e { Ans::Ok(e) => e, a => { ctx.violate(&format!("load {}", i), json!(a.why())); return; } };
        let texts: Vec<String> = if ctx.thorough { sequences(&["make", "two", "the", "tea", "salon", "tonight", "%DRINK%"], 4) } else { sequences(&["make", "two", "the", "tea", "salon", "tonight", "%DRINK%"], 3) };
        for t in texts.iter().take(4000) {
            let (_, bad) = unchanged(&root, &|_| false, || for q in queries(&w.spec, t) { run(&e, &q); });
            ctx.eval(Some((&w.spec.name, i, t)));
            if !bad.is_empty() { ctx.violate(&format!("query {} {} {:?}", w.spec.name, i, t), json!({"engine": w.spec.name, "text": t, "queries": bad})); }
        }
        let (_, bad) = unchanged(&root, &|_| false, || { let p = parts(&w.dir, &w.spec.lang); drop(p); });
        ctx.eval(Some((&w.spec.name, i, "units")));
        if !bad.is_empty() { ctx.violate(&format!("load units {} {}", w.spec.name, i), json!({"engine": w.spec.name, "loading its units": bad})); }
        let (_, bad) = unchanged(&root, &|_| false, || drop(e));
        if !bad.is_empty() { ctx.violate(&format!("drop {} {}", w.spec.name, i), json!({"engine": w.spec.name, "dropping it": bad})); }
        // from an archive
        let bytes = zipw::archive(&zipw::entries(&w.dir, "engine", true, true));
        let (e, bad) = unchanged(&root, &|_| false, || ask(|| s("load archive"), || SnipsNluEngine::from_zip(Cursor::new(bytes))));
        ctx.eval(Some((&w.spec.name, i, "archive")));
        if !bad.is_empty() || e.ok().is_none() { ctx.violate(&format!("load archive {} {}", w.spec.name, i), json!({"engine": w.spec.name, "loading its archive": bad, "got": e.why()})); }
        // loads that fail: at every operation, and for want of every file
        install(Mode::Count, true, false);
        let _ = load(&w.dir);
        let n = uninstall().ops;
        for k in 0..n {
            let before = identity(&root);
            install(Mode::FailAt(k), true, false);
            let _ = load(&w.dir);
            uninstall();
            ctx.eval(Some((&w.spec.name, i, "failing", k)));
            let c = changed(&before, &identity(&root));
            if !c.is_empty() { ctx.violate(&format!("failing load {} {} {}", w.spec.name, i, k), json!({"engine": w.spec.name, "failing read": k, "changed": c})); }
        }
        for f in files_of(&w.dir) {
            let b = std::fs::read(w.dir.join(&f)).unwrap();
            for damage in [None, Some(&b"{"[..]), Some(b"")] {
                match damage { None => std::fs::remove_file(w.dir.join(&f)).unwrap(), Some(x) => std::fs::write(w.dir.join(&f), x).unwrap() }
                let (_, bad) = unchanged(&root, &|_| false, || load(&w.dir));
                ctx.eval(Some((&w.spec.name, i, &f, damage)));
                if !bad.is_empty() { ctx.violate(&format!("damaged load {} {} {}", w.spec.name, i, f.display()), json!({"engine": w.spec.name, "damaged": f, "loading it": bad})); }
                std::fs::write(w.dir.join(&f), &b).unwrap();
            }
        }
    });
    let l = leftovers(ctx);
    if !l.is_empty() { ctx.violate("left behind", json!(l)); }
}
