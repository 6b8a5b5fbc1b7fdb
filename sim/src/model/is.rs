//! Reference model: a set of dates (ticks), as the sorted list of its maximal intervals.
//! Written from the mathematics only (sweep over all bounds), not from the code.
pub const INF: i64 = i64::MAX;
pub const NEG: i64 = -i64::MAX;

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Is(pub Vec<(i64, i64)>);

fn add(a: i64, b: i64) -> i64 {
    if a == INF || b == INF { debug_assert!(a != NEG && b != NEG); return INF; }
    if a == NEG || b == NEG { return NEG; }
    let s = a as i128 + b as i128;
    if s >= INF as i128 { INF } else if s <= NEG as i128 { NEG } else { s as i64 }
}

impl Is {
    pub fn empty() -> Is { Is(vec![]) }
    pub fn all() -> Is { Is(vec![(NEG, INF)]) }
    /// (an infinite end is not a date: `[+oo,+oo]` and `[-oo,-oo]` hold nothing)
    pub fn iv(lo: i64, hi: i64) -> Is { if lo > hi || lo == INF || hi == NEG { Is(vec![]) } else { Is(vec![(lo, hi)]) } }
    pub fn from_pieces(p: &[(i64, i64)]) -> Is {
        let mut v: Vec<(i64, i64)> = p.iter().copied().filter(|(a, b)| a <= b && *a != INF && *b != NEG).collect();
        v.sort();
        let mut r: Vec<(i64, i64)> = vec![];
        for (a, b) in v {
            match r.last_mut() {
                Some(l) if l.1 == INF || a == NEG || a as i128 <= l.1 as i128 + 1 => { if b > l.1 { l.1 = b } }
                _ => r.push((a, b)),
            }
        }
        Is(r)
    }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn union(&self, o: &Is) -> Is {
        let mut v = self.0.clone();
        v.extend(&o.0);
        Is::from_pieces(&v)
    }
    pub fn inter(&self, o: &Is) -> Is {
        let mut v = vec![];
        for a in &self.0 { for b in &o.0 {
            let (l, u) = (a.0.max(b.0), a.1.min(b.1));
            if l <= u { v.push((l, u)) }
        } }
        Is::from_pieces(&v)
    }
    pub fn compl(&self) -> Is {
        let mut v = vec![];
        let mut from = NEG;
        let mut open = true; // is there something left beyond `from`
        for (a, b) in &self.0 {
            if *a != NEG { v.push((from, a - 1)); }
            if *b == INF { open = false; break; }
            from = b + 1;
        }
        if open && from != INF { v.push((from, INF)); }
        Is(v.into_iter().filter(|(a, b)| a <= b && *b != NEG).collect())
    }
    pub fn minus(&self, o: &Is) -> Is { self.inter(&o.compl()) }
    pub fn shift(&self, v: i64) -> Is { self.spread(v, v) }
    /// all sums with a value of [l,u]
    pub fn spread(&self, l: i64, u: i64) -> Is {
        if l > u { return Is::empty(); }
        Is::from_pieces(&self.0.iter().map(|(a, b)| (add(*a, l), add(*b, u))).collect::<Vec<_>>())
    }
    pub fn spread_set(&self, o: &Is) -> Is {
        let mut r = vec![];
        for (l, u) in &o.0 { r.extend(self.spread(*l, *u).0); }
        Is::from_pieces(&r)
    }
    pub fn neg(&self) -> Is { Is(self.0.iter().rev().map(|(a, b)| (-*b, -*a)).collect()) }
    pub fn has(&self, t: i64) -> bool { self.0.iter().any(|(a, b)| *a <= t && t <= *b) }
    pub fn subset(&self, o: &Is) -> bool { self.0.iter().all(|p| o.0.iter().any(|q| q.0 <= p.0 && p.1 <= q.1)) }
    pub fn overlaps(&self, o: &Is) -> bool { !self.inter(o).is_empty() }
    pub fn lo(&self) -> i64 { self.0.first().map(|x| x.0).unwrap_or(INF) }
    pub fn hi(&self) -> i64 { self.0.last().map(|x| x.1).unwrap_or(NEG) }
    pub fn show(&self) -> String { show(&self.0) }
}

pub fn n(x: i64) -> String { if x == INF { "+oo".into() } else if x == NEG { "-oo".into() } else { x.to_string() } }
pub fn show(v: &[(i64, i64)]) -> String {
    if v.is_empty() { return "{}".into(); }
    v.iter().map(|(a, b)| format!("[{},{}]", n(*a), n(*b))).collect::<Vec<_>>().join("U")
}
