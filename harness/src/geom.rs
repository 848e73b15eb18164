//! Geometry computed from the scenario alone, independently of the code under test.

use crate::spec::Curve;

pub type P = [f64; 2];

pub fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1]]
}
pub fn add(a: P, b: P) -> P {
    [a[0] + b[0], a[1] + b[1]]
}
pub fn mul(a: P, k: f64) -> P {
    [a[0] * k, a[1] * k]
}
pub fn dot(a: P, b: P) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
pub fn norm(a: P) -> f64 {
    dot(a, a).sqrt()
}
pub fn dist(a: P, b: P) -> f64 {
    norm(sub(a, b))
}
pub fn perp(a: P) -> P {
    [-a[1], a[0]]
}
pub fn unit(a: P) -> P {
    mul(a, 1.0 / norm(a))
}

impl Curve {
    pub fn at(&self, t: f64) -> P {
        let u = 1.0 - t;
        match self {
            Curve::Line([a, b]) => add(mul(*a, u), mul(*b, t)),
            Curve::Quad([a, b, c]) => add(
                add(mul(*a, u * u), mul(*b, 2.0 * u * t)),
                mul(*c, t * t),
            ),
            Curve::Cubic([a, b, c, d]) => add(
                add(mul(*a, u * u * u), mul(*b, 3.0 * u * u * t)),
                add(mul(*c, 3.0 * u * t * t), mul(*d, t * t * t)),
            ),
        }
    }

    pub fn start(&self) -> P {
        self.at(0.0)
    }
    pub fn end(&self) -> P {
        self.at(1.0)
    }
}

/// A finely sampled curve with arc lengths.
pub struct Poly {
    pub pts: Vec<P>,
    pub s: Vec<f64>,
}

impl Poly {
    pub fn new(c: &Curve) -> Poly {
        let n = match c {
            Curve::Line(_) => 1,
            _ => 400,
        };
        let pts: Vec<P> = (0..=n).map(|i| c.at(i as f64 / n as f64)).collect();
        let mut s = vec![0.0];
        for w in pts.windows(2) {
            s.push(s.last().unwrap() + dist(w[0], w[1]));
        }
        Poly { pts, s }
    }

    pub fn len(&self) -> f64 {
        *self.s.last().unwrap()
    }

    /// Point and unit tangent at arc length `s`; extrapolates linearly at both ends.
    pub fn at(&self, s: f64) -> (P, P) {
        let n = self.pts.len();
        let i = match self.s.binary_search_by(|x| x.partial_cmp(&s).unwrap()) {
            Ok(i) => i.min(n - 2),
            Err(i) => i.saturating_sub(1).min(n - 2),
        };
        let d = sub(self.pts[i + 1], self.pts[i]);
        let l = self.s[i + 1] - self.s[i];
        let t = mul(d, 1.0 / l);
        (add(self.pts[i], mul(t, s - self.s[i])), t)
    }

    /// Closest point: (arc length, signed lateral offset to the left, distance).
    pub fn project(&self, p: P) -> (f64, f64, f64) {
        let mut best = (0.0, 0.0, f64::INFINITY);
        for i in 0..self.pts.len() - 1 {
            let a = self.pts[i];
            let d = sub(self.pts[i + 1], a);
            let l2 = dot(d, d);
            let mut k = dot(sub(p, a), d) / l2;
            // extrapolate beyond the two ends
            if i > 0 {
                k = k.max(0.0);
            }
            if i + 2 < self.pts.len() {
                k = k.min(1.0);
            }
            let q = add(a, mul(d, k));
            let e = dist(p, q);
            if e < best.2 {
                let lat = dot(sub(p, q), perp(unit(d)));
                best = (self.s[i] + k * l2.sqrt(), lat, e);
            }
        }
        best
    }
}

/// A vehicle's body as an oriented rectangle.
#[derive(Clone, Copy, Debug)]
pub struct Body {
    pub c: P,
    pub d: P,
    pub hl: f64,
    pub hw: f64,
}

impl Body {
    /// Penetration depth of two bodies by the separating axis test; negative if apart.
    pub fn penetration(&self, o: &Body) -> f64 {
        let mut best = f64::INFINITY;
        let delta = sub(o.c, self.c);
        for axis in [self.d, perp(self.d), o.d, perp(o.d)] {
            let ra = self.hl * dot(self.d, axis).abs() + self.hw * dot(perp(self.d), axis).abs();
            let rb = o.hl * dot(o.d, axis).abs() + o.hw * dot(perp(o.d), axis).abs();
            let pen = ra + rb - dot(delta, axis).abs();
            best = best.min(pen);
        }
        best
    }
}
