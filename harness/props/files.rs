use crate::*;
use s2gpp::verif::data_manager as d;
pub struct Scratch(pub std::path::PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
pub fn scratch() -> Scratch { static C: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); let p = std::env::temp_dir().join(format!("s2gpp_c18_{}_{}", std::process::id(), C.fetch_add(1, std::sync::atomic::Ordering::SeqCst))); std::fs::create_dir_all(&p).unwrap(); Scratch(p) }
/// rows of eighths: sums of them are exact
pub fn rows(rng: &mut Rng, n: usize, d: usize) -> Vec<Vec<f32>> { (0..n).map(|_| (0..d).map(|_| (rng.r(0, 400) as f32 - 200.0) / 8.0).collect()).collect() }
/// the file: a header, the rows with `before` and `after` other columns that are no numbers, blank lines and blanks around fields
pub fn csv(rng: &mut Rng, rows: &[Vec<f32>], before: usize, after: usize, messy: bool) -> String {
    let d = rows[0].len();
    let mut s = (0..before + d + after).map(|i| format!("c{i}")).collect::<Vec<_>>().join(","); s.push('\n');
    for r in rows {
        let f: Vec<String> = (0..before).map(|i| format!("t{i}")).chain(r.iter().map(|x| if messy && rng.r(0, 4) == 0 { format!(" {x} ") } else { x.to_string() })).chain((0..after).map(|_| "label".to_string())).collect();
        s.push_str(&f.join(",")); s.push('\n');
        if messy && rng.r(0, 5) == 0 { s.push('\n'); }
    }
    if rng.b() { s.pop(); }
    s
}
pub fn windows(rows: &[Vec<f32>], pattern: usize, latent: usize) -> Vec<Vec<Vec<f32>>> {
    (0..rows.len() + 1 - pattern).map(|i| (0..pattern - latent).map(|j| (0..rows[0].len()).map(|c| (0..latent).map(|k| rows[i + j + k][c] as f64).sum::<f64>() as f32).collect()).collect()).collect()
}
pub fn close3(name: &str, a: &[Vec<Vec<f32>>], b: &[Vec<Vec<f32>>]) -> Result<(), String> {
    eq(&format!("{name}: length"), a.len(), b.len())?;
    for i in 0..a.len() { eq(&format!("{name}[{i}]: length"), a[i].len(), b[i].len())?; for j in 0..a[i].len() { eq(&format!("{name}[{i}][{j}]: length"), a[i][j].len(), b[i][j].len())?; for c in 0..a[i][j].len() { let (x, y) = (a[i][j][c], b[i][j][c]); if !((x - y).abs() <= 1e-3 * (1.0 + y.abs())) { return Err(format!("{name}[{i}][{j}][{c}] is {x}, expected {y}")); } } } }
    Ok(())
}
pub struct Case { pub rows: Vec<Vec<f32>>, pub text: String, pub n: usize, pub pattern: usize, pub latent: usize, pub threads: usize, pub before: usize, pub after: usize, pub seed: usize }
pub fn case(rng: &mut Rng, max: usize) -> Case {
    let n = rng.r(1, 5); let pattern = rng.r(2, 12); let latent = rng.r(1, pattern - 1); let d = rng.r(1, 4);
    // every node needs a window
    let least = (1..).find(|m| m - (n - 1) * (m / n) >= pattern && *m >= n).unwrap();
    let r = loop { let m = rng.r(least, least + max); if m - (n - 1) * (m / n) >= pattern { break m; } };
    let rows = rows(rng, r, d); let before = if rng.b() { 0 } else { rng.r(0, 2) }; let after = if rng.b() { 0 } else { rng.r(1, 2) }; let messy = rng.r(0, 2) == 0;
    let text = csv(rng, &rows, before, after, messy);
    Case { rows, text, n, pattern, latent, threads: rng.r(1, 3), before, after, seed: rng.r(0, 1 << 30) }
}
impl Case {
    pub fn desc(&self) -> String { format!("{} nodes, pattern length {}, latent {}, {} threads, {} columns before the data, {} after, schedule {}, file {:?}", self.n, self.pattern, self.latent, self.threads, self.before, self.after, self.seed, self.text) }
    pub fn load(&self) -> Result<Vec<d::Loaded>, String> {
        let s = scratch(); let p = s.0.join("data.csv"); std::fs::write(&p, &self.text).unwrap();
        let mut g = Rng(self.seed as u64);
        // end of the columns: all, up to, or from the back
        let end = if self.after == 0 && self.seed % 2 == 0 { 0 } else if self.after > 0 && self.seed % 2 == 0 { -(self.after as isize) } else { (self.before + self.rows[0].len()) as isize };
        let res = d::load(p.to_str().unwrap(), d::Conf { n: self.n, pattern: self.pattern, latent: self.latent, threads: self.threads, col_start: self.before, col_end: end }, move |c| g.r(0, c - 1));
        for (i, r) in res.iter().enumerate() { eq(&format!("times node {i} got its data"), r.len(), 1)?; }
        Ok(res.into_iter().map(|mut r| r.remove(0)).collect())
    }
}
