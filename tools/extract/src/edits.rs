#[derive(Default)]
pub struct Edits {
    v: Vec<(usize, usize, String, usize, u8)>, // start,end,text,seq,prio
}
impl Edits {
    pub fn insert(&mut self, at: usize, t: String) {
        let n = self.v.len();
        self.v.push((at, at, t, n, 1));
    }
    /// insertion that comes before other insertions at the same place (used to close a brace)
    pub fn insert_last(&mut self, at: usize, t: String) {
        let n = self.v.len();
        self.v.push((at, at, t, n, 0));
    }
    pub fn replace(&mut self, a: usize, b: usize, t: String) {
        let n = self.v.len();
        self.v.push((a, b, t, n, 2));
    }
    pub fn apply(mut self, src: &str, from: usize, to: usize) -> Result<String, String> {
        // drop edits nested inside a replaced range
        let reps: Vec<(usize, usize, usize)> = self.v.iter().filter(|e| e.0 != e.1).map(|e| (e.0, e.1, e.3)).collect();
        self.v.retain(|e| {
            !reps.iter().any(|r| r.2 != e.3 && ((r.0 < e.0 && e.1 < r.1) || (r.0 <= e.0 && e.1 <= r.1 && (e.0 != e.1) && (r.1 - r.0 > e.1 - e.0 || r.2 < e.3))))
        });
        self.v.sort_by(|a, b| (a.0, a.4, a.3).cmp(&(b.0, b.4, b.3)));
        let mut out = String::new();
        let mut pos = from;
        for (a, b, t, _, _) in &self.v {
            if *a < pos {
                return Err("overlapping rewrites".into());
            }
            out.push_str(&src[pos..*a]);
            out.push_str(t);
            pos = *b;
        }
        out.push_str(&src[pos..to]);
        Ok(out)
    }
}
