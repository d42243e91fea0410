//! deterministic generators and independent oracles
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s ^ 0x9E3779B97F4A7C15); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}
pub type M = Vec<Vec<f64>>;

/// complete symmetric matrix, zero diagonal, costs are small dyadic rationals: all sums are exact in f64
pub fn matrix(r: &mut Rng, n: usize) -> M {
    let fam = r.below(7);
    let hi = [1, 2, 3, 10, 100][r.below(5)];
    let mut m = vec![vec![0.0; n]; n];
    let pts: Vec<(i64, i64)> = (0..n).map(|_| (r.below(20) as i64, r.below(20) as i64)).collect();
    for i in 0..n {
        for j in i + 1..n {
            let c = match fam {
                0 => r.below(hi + 1) as f64,
                1 => (1 + r.below(hi)) as f64,
                2 => ((pts[i].0 - pts[j].0).abs() + (pts[i].1 - pts[j].1).abs()) as f64,
                3 => if r.chance(1, 3) { 1.0 } else { 50.0 + r.below(10) as f64 },
                4 => r.below(64) as f64 / 8.0,
                5 => if (i < n / 2) == (j < n / 2) { r.below(3) as f64 } else { 20.0 + r.below(20) as f64 },
                _ => 1.0 + ((i * 7 + j * 13 + r.below(5)) % 17) as f64,
            };
            m[i][j] = c; m[j][i] = c;
        }
    }
    // unusual: large entries
    if r.chance(1, 8) { for i in 0..n { for j in 0..n { m[i][j] *= 1048576.0; } } }
    // unusual: distances that differ only in their last digits, or are tiny (sums stay exact)
    if r.chance(1, 8) { let some = r.chance(1, 3); for i in 0..n { for j in 0..i { if !some || r.chance(1, 2) { m[i][j] += 33554432.0; m[j][i] = m[i][j]; } } } }
    else if r.chance(1, 8) { for i in 0..n { for j in 0..n { m[i][j] /= 1073741824.0; } } }
    // unusual: astronomic or vanishing distances (scaled by a power of two, sums stay exact)
    else if r.chance(1, 8) { let f = 2f64.powi([400, -400, 200, -200, 90, -90, 60][r.below(7)]); for i in 0..n { for j in 0..n { m[i][j] *= f; } } }
    m
}
/// k-th of the exhaustive small instances: n in 1..=4, costs in 0..base
pub fn exhaustive(k: u64) -> Option<M> {
    let mut k = k;
    for &(n, base) in &[(1usize, 1u64), (2, 5), (3, 4), (4, 3)] {
        let e = (n * (n - 1) / 2) as u32;
        let cnt = base.pow(e);
        if k < cnt {
            let mut m = vec![vec![0.0; n]; n];
            for i in 0..n { for j in i + 1..n { let c = (k % base) as f64; k /= base; m[i][j] = c; m[j][i] = c; } }
            return Some(m);
        }
        k -= cnt;
    }
    None
}
pub fn metric_closure(m: &mut M) {
    let n = m.len();
    for k in 0..n { for i in 0..n { for j in 0..n { if m[i][k] + m[k][j] < m[i][j] { m[i][j] = m[i][k] + m[k][j]; } } } }
}
pub fn show(m: &M) -> String {
    let rows: Vec<String> = m.iter().map(|r| format!("[{}]", r.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(","))).collect();
    format!("[{}]", rows.join(","))
}
pub fn tour_len(m: &M, p: &[usize]) -> f64 {
    if p.len() <= 1 { return 0.0; }
    let mut s = 0.0;
    for i in 0..p.len() { s += m[p[i]][p[(i + 1) % p.len()]]; }
    s
}
pub fn is_perm(p: &[usize], n: usize) -> bool {
    if p.len() != n { return false; }
    let mut s = vec![false; n];
    for &x in p { if x >= n || s[x] { return false; } s[x] = true; }
    true
}
/// Held-Karp
pub fn opt(m: &M) -> f64 {
    let n = m.len();
    if n <= 1 { return 0.0; }
    let full = 1usize << (n - 1);
    let mut d = vec![vec![f64::INFINITY; n]; full];
    for j in 1..n { d[1 << (j - 1)][j] = m[0][j]; }
    for s in 1..full { for j in 1..n { if s >> (j - 1) & 1 == 0 { continue; } let c = d[s][j]; if c.is_infinite() { continue; }
        for k in 1..n { if s >> (k - 1) & 1 == 1 { continue; } let t = s | 1 << (k - 1); let v = c + m[j][k]; if v < d[t][k] { d[t][k] = v; } } } }
    (1..n).map(|j| d[full - 1][j] + m[j][0]).fold(f64::INFINITY, f64::min)
}
/// Kruskal over the allowed vertices
pub fn mst_weight(m: &M, allowed: &[usize]) -> f64 {
    let n = m.len();
    let mut es = vec![];
    for (a, &i) in allowed.iter().enumerate() { for &j in &allowed[a + 1..] { es.push((m[i][j], i, j)); } }
    es.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
    let mut p: Vec<usize> = (0..n).collect();
    fn find(p: &mut Vec<usize>, x: usize) -> usize { let mut x = x; while p[x] != x { p[x] = p[p[x]]; x = p[x]; } x }
    let mut w = 0.0;
    for (c, i, j) in es { let a = find(&mut p, i); let b = find(&mut p, j); if a != b { p[a] = b; w += c; } }
    w
}
pub fn one_tree_weight(m: &M, s: usize) -> f64 {
    let n = m.len();
    let rest: Vec<usize> = (0..n).filter(|&x| x != s).collect();
    let mut cs: Vec<f64> = rest.iter().map(|&j| m[s][j]).collect();
    cs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let w = mst_weight(m, &rest);
    match cs.len() { 0 => w, 1 => w + 2.0 * cs[0], _ => w + cs[0] + cs[1] }
}
/// the length of some tour
pub fn greedy(m: &M) -> f64 {
    let n = m.len(); let mut p = vec![0usize]; let mut left: Vec<usize> = (1..n).collect();
    while !left.is_empty() { let l = p[p.len() - 1]; let k = (0..left.len()).min_by(|&x, &y| m[l][left[x]].partial_cmp(&m[l][left[y]]).unwrap()).unwrap(); p.push(left.swap_remove(k)); }
    tour_len(m, &p)
}
