pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub seq: usize,
    pub text: String,
}
#[derive(Default)]
pub struct Edits {
    v: Vec<Edit>,
}
impl Edits {
    pub fn replace(&mut self, start: usize, end: usize, text: impl Into<String>) {
        let seq = self.v.len();
        self.v.push(Edit { start, end, seq, text: text.into() });
    }
    pub fn insert(&mut self, at: usize, text: impl Into<String>) {
        self.replace(at, at, text);
    }
    pub fn apply(mut self, src: &str) -> String {
        self.v.sort_by_key(|e| (e.start, e.end, e.seq));
        let mut out = String::new();
        let mut pos = 0;
        for e in &self.v {
            if e.start < pos {
                // Overlapping replacement: the outer edit came first.
                continue;
            }
            out.push_str(&src[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end;
        }
        out.push_str(&src[pos..]);
        out
    }
}
