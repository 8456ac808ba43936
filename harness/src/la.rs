//! Tiny dense linear algebra on binary128, for oracles only.
use crate::hp::Q;
pub type M = Vec<Vec<Q>>;
pub fn zeros(r: usize, c: usize) -> M {
    vec![vec![0.0; c]; r]
}
pub fn eye(n: usize) -> M {
    let mut m = zeros(n, n);
    for i in 0..n {
        m[i][i] = 1.0;
    }
    m
}
pub fn mul(a: &M, b: &M) -> M {
    let (r, k, c) = (a.len(), b.len(), b[0].len());
    let mut o = zeros(r, c);
    for i in 0..r {
        for j in 0..c {
            let mut s: Q = 0.0;
            for l in 0..k {
                s += a[i][l] * b[l][j];
            }
            o[i][j] = s;
        }
    }
    o
}
pub fn mulv(a: &M, v: &[Q]) -> Vec<Q> {
    a.iter().map(|r| r.iter().zip(v).fold(0.0, |s, (x, y)| s + x * y)).collect()
}
pub fn tr(a: &M) -> M {
    let mut o = zeros(a[0].len(), a.len());
    for i in 0..a.len() {
        for j in 0..a[0].len() {
            o[j][i] = a[i][j];
        }
    }
    o
}
pub fn norm(v: &[Q]) -> Q {
    v.iter().fold(0.0f128, |s, x| s + x * x).sqrt()
}
pub fn dot(a: &[Q], b: &[Q]) -> Q {
    a.iter().zip(b).fold(0.0, |s, (x, y)| s + x * y)
}
pub fn cross(a: &[Q], b: &[Q]) -> Vec<Q> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
/// Gauss-Jordan with full row pivoting; returns (inverse, determinant); None if exactly singular.
pub fn inv_det(a: &M) -> (Option<M>, Q) {
    let n = a.len();
    let mut m = a.clone();
    let mut o = eye(n);
    let mut det: Q = 1.0;
    for c in 0..n {
        let mut p = c;
        for r in c..n {
            if m[r][c].abs() > m[p][c].abs() {
                p = r;
            }
        }
        if m[p][c] == 0.0 {
            return (None, 0.0);
        }
        if p != c {
            m.swap(p, c);
            o.swap(p, c);
            det = -det;
        }
        let d = m[c][c];
        det *= d;
        for j in 0..n {
            m[c][j] /= d;
            o[c][j] /= d;
        }
        for r in 0..n {
            if r != c {
                let f = m[r][c];
                if f != 0.0 {
                    for j in 0..n {
                        let (x, y) = (m[c][j], o[c][j]);
                        m[r][j] -= f * x;
                        o[r][j] -= f * y;
                    }
                }
            }
        }
    }
    (Some(o), det)
}
pub fn inf_norm(a: &M) -> Q {
    a.iter().map(|r| r.iter().fold(0.0f128, |s, x| s + x.abs())).fold(0.0, |m: Q, x| if x > m { x } else { m })
}
