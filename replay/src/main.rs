//! Runs generated cases of one property against the real crate.
//!   replay run PROP OUT.json CASEFILE SEED TIER [--only GEN:IDX]
//! Every case is written to CASEFILE before it runs, so that a crash identifies its input.
mod alloc; mod world; mod p_struct; mod p_data; mod p_scene; mod p_signal;
#[cfg(feature = "classes")] mod p_class;

use std::collections::HashSet;
use std::fs::File;
use std::hash::{Hash, Hasher, DefaultHasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[global_allocator]
static A: alloc::Poison = alloc::Poison;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}
pub fn h(x: impl Hash) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c {
        '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n",
        c if (c as u32) < 32 || (c as u32) > 126 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o += &format!("\\u{:04x}", u); } }
        c => o.push(c) } }
    o.push('"'); o
}

pub struct Ctx {
    pub prop: String, pub seed: u64, pub thorough: bool,
    only: Option<(String, u64)>, casefile: File, out: String, known: HashSet<String>,
    cases: u64, nontrivial: HashSet<u64>, samples: Vec<String>, gens: Vec<(String, u64)>, known_hit: Vec<String>, deadline: Instant,
}
/// Ok(true): a non-trivial case.
pub type Res = Result<bool, String>;
thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

thread_local! { static NOTE: std::cell::RefCell<Option<(File, u64)>> = const { std::cell::RefCell::new(None) }; }
/// Adds to the description of the running case, so that a crash shows how far it got.
pub fn note(s: &str) {
    NOTE.with(|n| if let Some((f, at)) = n.borrow_mut().as_mut() { let _ = f.write_all_at(s.as_bytes(), *at); *at += s.len() as u64; });
}

impl Ctx {
    pub fn rng(&self, generator: &str, idx: u64) -> Rng { Rng(h((self.seed, generator, idx))) }
    /// Random cases scale with the tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
    pub fn expired(&self) -> bool { Instant::now() > self.deadline }
    pub fn skip(&self, generator: &str, idx: u64) -> bool { matches!(&self.only, Some((g, i)) if g != generator || *i != idx) }
    pub fn case(&mut self, generator: &str, idx: u64, desc: impl FnOnce() -> String, f: impl FnOnce() -> Res) {
        if self.skip(generator, idx) { return; }
        let d = desc();
        let line = format!("{}:{}\n{}\n", generator, idx, d);
        let _ = self.casefile.write_all_at(line.as_bytes(), 0);
        let _ = self.casefile.set_len(line.len() as u64);
        NOTE.with(|n| *n.borrow_mut() = Some((self.casefile.try_clone().unwrap(), line.len() as u64)));
        self.cases += 1;
        match self.gens.last_mut() { Some((g, n)) if g == generator => *n += 1, _ => self.gens.push((generator.into(), 1)) }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        };
        match r {
            Ok(nt) => if nt {
                self.nontrivial.insert(h(&d));
                if self.samples.len() < 3 || (self.samples.len() < 6 && self.cases % 997 == 0) { self.samples.push(format!("{}:{} {}", generator, idx, d)); }
            },
            Err(m) => {
                if self.known.contains(&d) { self.known_hit.push(d); return; }
                self.finish(Some((format!("{}:{}", generator, idx), d, m)));
                std::process::exit(3);
            }
        }
    }
    fn finish(&self, v: Option<(String, String, String)>) {
        let mut o = String::from("{");
        o += &format!("\"property\":{},\"cases\":{},\"nontrivial\":{},", js(&self.prop), self.cases, self.nontrivial.len());
        o += &format!("\"generators\":{{{}}},", self.gens.iter().map(|(g, n)| format!("{}:{}", js(g), n)).collect::<Vec<_>>().join(","));
        o += &format!("\"samples\":[{}],", self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        o += &format!("\"known\":[{}],", self.known_hit.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        match v {
            None => o += "\"violation\":null}",
            Some((c, d, m)) => o += &format!("\"violation\":{{\"case\":{},\"input\":{},\"what\":{}}}}}", js(&c), js(&d), js(&m)),
        }
        File::create(&self.out).unwrap().write_all(o.as_bytes()).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, out, casefile, seed, tier) = (&a[2], &a[3], &a[4], a[5].parse::<u64>().unwrap(), &a[6]);
    let mut only = None; let mut known = HashSet::new(); let mut budget = 200u64;
    let mut i = 7;
    while i < a.len() {
        match a[i].as_str() {
            "--only" => { let (g, n) = a[i + 1].rsplit_once(':').unwrap(); only = Some((g.to_string(), n.parse().unwrap())); }
            "--known" => { known.insert(a[i + 1].clone()); }
            "--budget" => budget = a[i + 1].parse().unwrap(),
            x => panic!("{x}"),
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = m + &l);
    }));
    let mut c = Ctx { prop: prop.clone(), seed, thorough: tier == "thorough", only, casefile: File::create(casefile).unwrap(), out: out.clone(), known,
        cases: 0, nontrivial: HashSet::new(), samples: vec![], gens: vec![], known_hit: vec![], deadline: Instant::now() + std::time::Duration::from_secs(budget) };
    match prop.as_str() {
        "C01" => p_data::c01(&mut c), "C03" => p_struct::c03(&mut c), "C05" => p_data::c05(&mut c),
        "C02" => p_struct::c02(&mut c), "C04" => p_struct::c04(&mut c), "C06" => p_struct::c06(&mut c),
        "C07" => p_struct::c07(&mut c), "C08" => p_struct::c08(&mut c), "C09" => p_struct::c09(&mut c),
        "C10" => p_signal::c10(&mut c), "C11" => p_struct::c11(&mut c), "C12" => p_signal::c12(&mut c),
        "C13" => p_data::c13(&mut c), "C14" => p_data::c14(&mut c), "C15" => p_scene::c15(&mut c),
        "C16" => p_scene::c16(&mut c), "C17" => p_scene::c17(&mut c), "C18" => p_signal::c18(&mut c),
        "C19" => p_scene::c19(&mut c), "C20" => p_scene::c20(&mut c), "C21" => p_struct::c21(&mut c), "C22" => p_struct::c22(&mut c), "C23" => p_signal::c23(&mut c), 
        #[cfg(feature = "classes")] "C24" => p_class::c24(&mut c),
        #[cfg(feature = "classes")] "C25" => p_class::c25(&mut c),
        _ => panic!("unknown property"),
    }
    c.finish(None);
}
