//! Evidence, violations and known findings of one check.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::time::Instant;

/// a violation has been reported: whatever goes wrong afterwards, the answer is known
pub static VIOLATED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct Report { pub prop: String, pub tier: String, pub seed: u64, pub work: PathBuf, counts: BTreeMap<String, u64>, evals: u64, distinct: HashSet<u64>, pub samples: Vec<String>, pub rule: String, violations: usize, known: Vec<(String, String)>, known_hit: HashSet<String>, start: Instant, pub notes: Vec<String> }
pub fn root() -> PathBuf { std::env::var("PSMON_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }
impl Report {
    pub fn new(prop: &str, tier: &str, seed: u64) -> Report {
        let work = std::env::temp_dir().join(format!("psmon-{}-{}", prop, std::process::id()));
        let _ = std::fs::remove_dir_all(&work);
        std::fs::create_dir_all(&work).unwrap();
        let mut known = vec![];
        for l in std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default().lines() {
            // known: property=C01 id=<finding id> <text>
            if let Some(r) = l.strip_prefix(&format!("known: property={} id=", prop)) { let (id, t) = r.split_once(' ').unwrap_or((r, "")); known.push((id.to_string(), t.to_string())); }
        }
        let rd = root().join("work/replay");
        if let Ok(d) = std::fs::read_dir(&rd) { for e in d.flatten() { if e.file_name().to_string_lossy().starts_with(&format!("{}-", prop)) { let _ = std::fs::remove_file(e.path()); } } }
        Report { prop: prop.into(), tier: tier.into(), seed, work, counts: BTreeMap::new(), evals: 0, distinct: HashSet::new(), samples: vec![], rule: String::new(), violations: 0, known, known_hit: HashSet::new(), start: Instant::now(), notes: vec![] }
    }
    pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.to_string()).or_default() += n; }
    /// one evaluation; `id` names it if it is non-trivial
    pub fn case(&mut self, id: Option<&str>) { self.evals += 1; if let Some(id) = id { let mut h = std::collections::hash_map::DefaultHasher::new(); id.hash(&mut h); self.distinct.insert(h.finish()); } }
    pub fn sample(&mut self, s: String) { if self.samples.len() < 8 { self.samples.push(s); } }
    pub fn is_known(&self, id: &str) -> bool { self.known.iter().any(|k| k.0 == id) }
    /// a listed finding that was seen again
    pub fn known_finding(&mut self, id: &str) { self.known_hit.insert(id.to_string()); }
    pub fn violation(&mut self, what: &str, detail: &str, _key: &str) {
        self.violations += 1;
        VIOLATED.store(true, std::sync::atomic::Ordering::SeqCst);
        if self.violations > 12 { return; }
        let rd = root().join("work/replay");
        let _ = std::fs::create_dir_all(&rd);
        let p = rd.join(format!("{}-{}.txt", self.prop, self.violations));
        let _ = std::fs::write(&p, format!("# property {} seed {} tier {}\n# {}\n{}\n", self.prop, self.seed, self.tier, what.replace('\n', " "), detail));
        println!("VIOLATION property={} replay={} {}", self.prop, p.display(), crate::campaign::clip(&what.replace('\n', " ")));
    }
    pub fn violations(&self) -> usize { self.violations }
    pub fn elapsed(&self) -> f64 { self.start.elapsed().as_secs_f64() }
    pub fn finish(self) -> i32 {
        let _ = std::fs::remove_dir_all(&self.work);
        for (id, t) in &self.known { if self.known_hit.contains(id) { println!("KNOWN-FINDING: property={} {} {}", self.prop, id, t); } }
        let q = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o };
        let counts = self.counts.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", ");
        let samples = self.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ");
        let notes = self.notes.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ");
        let j = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"observed\": {{{}}}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n", q(&self.prop), q(&self.tier), self.seed, self.evals, self.distinct.len(), q(&self.rule), samples, counts, notes, self.start.elapsed().as_secs_f64(), self.violations);
        let ev = root().join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        std::fs::write(ev.join(format!("{}.json", self.prop)), j).expect("evidence");
        println!("{} {}: {} evaluations, {} distinct, {} violations, {:.1} s", self.prop, self.tier, self.evals, self.distinct.len(), self.violations, self.start.elapsed().as_secs_f64());
        if self.violations > 0 { return 1; }
        if self.evals == 0 || self.distinct.is_empty() { eprintln!("BROKEN: nothing was observed"); return 3; }
        0
    }
}
