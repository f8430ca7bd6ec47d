//! Ray queries of the real containers against the shapes' own answers.
use std::sync::Arc;

use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::container::Container;
use pt::verif::container_simple::Simple;
use pt::verif::interaction::*;
use pt::verif::ray::*;
use pt::verif::shape::Shape;
use pt::verif::vector::{Point2f};

use crate::mock::*;
use crate::util::*;

pub type S = Arc<dyn Shape>;

/// Closed axis-parallel box with an exact answer: the first of entry and exit that lies ahead.
pub struct Slab { pub lo: [f64; 3], pub hi: [f64; 3] }
impl Slab {
    fn t(&self, r: &Ray) -> Option<f32> {
        let (mut t0, mut t1) = (f64::NEG_INFINITY, f64::INFINITY);
        for k in 0..3 {
            let (o, d) = (r.origin[k] as f64, r.direction[k] as f64);
            if d == 0. { if o < self.lo[k] || o > self.hi[k] { return None; } continue; }
            let (a, b) = ((self.lo[k] - o) / d, (self.hi[k] - o) / d);
            t0 = t0.max(a.min(b));
            t1 = t1.min(a.max(b));
        }
        if t0 > t1 { return None; }
        let t = if t0 > 0. { t0 } else if t1 > 0. { t1 } else { return None };
        if !t.is_finite() || t > r.t_max as f64 { None } else { Some(t as f32) }
    }
}
impl Shape for Slab {
    fn bbox(&self) -> BBox3f { BBox3f::new(p3(self.lo[0] as f32, self.lo[1] as f32, self.lo[2] as f32), p3(self.hi[0] as f32, self.hi[1] as f32, self.hi[2] as f32)) }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, r: &Ray) -> bool { self.t(r).is_some() }
    fn intersect(&self, r: &Ray) -> Option<(Interaction, f32)> {
        self.t(r).map(|t| (Interaction { p: r.position(t), n: n3(0., 0., 1.), sn: n3(0., 0., 1.), wo: -r.direction, ..Default::default() }, t))
    }
    fn material(&self) -> Arc<dyn Material> { Arc::new(Bare) }
    fn sample(&self, _: Point2f) -> Interaction { Interaction::default() }
}

pub fn addr(s: &S) -> usize { Arc::as_ptr(s) as *const () as usize }
/// What an interaction says, as 30 bits.
pub fn sig(i: &Interaction) -> i64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut put = |x: f32| { let b = if x == 0. { 0 } else { x.to_bits() }; h = (h ^ b as u64).wrapping_mul(0x100000001b3); h ^= h >> 29; };
    for k in 0..3 { put(i.p[k]); }
    put(i.n.x); put(i.n.y); put(i.n.z);
    put(i.sn.x); put(i.sn.y); put(i.sn.z);
    for k in 0..3 { put(i.wo[k]); }
    put(i.uv.x); put(i.uv.y);
    (h & 0x3fff_ffff) as i64
}

fn lattice(r: &mut Rng, unit: f64, off: [f64; 3]) -> Vec<S> {
    let n = *r.pick(&[1usize, 2, 3, 5, 8, 9, 10, 12, 17, 30, 60]);
    let side = *r.pick(&[2i64, 3, 4, 6]);
    let kinds = *r.pick(&["slab", "slab", "tri", "sphere", "mix", "mix"]);
    let flat = r.b();
    let mat: Arc<dyn Material> = Arc::new(Bare);
    let c = |k: usize, v: i64| off[k] + unit * v as f64;
    let mut out: Vec<S> = Vec::new();
    while out.len() < n {
        if !out.is_empty() && r.chance(1, 12) { let s = out[r.n(out.len())].clone(); out.push(s); continue; }
        let kind = if kinds == "mix" { *r.pick(&["slab", "tri", "sphere"]) } else { kinds };
        match kind {
            "slab" => {
                let (mut lo, mut hi) = ([0.; 3], [0.; 3]);
                let fa = if flat { r.n(4) } else { 3 };
                for k in 0..3 {
                    let a = r.i(0, side); let b = if k == fa { a } else { r.i(0, side) };
                    lo[k] = c(k, a.min(b)); hi[k] = c(k, a.max(b));
                }
                out.push(Arc::new(Slab { lo, hi }));
            }
            "tri" => {
                let fa = if flat { r.n(4) } else { 3 };
                let v: Vec<[i64; 3]> = { let h = r.i(0, side); (0..3).map(|_| { let mut p = [r.i(0, side), r.i(0, side), r.i(0, side)]; if fa < 3 { p[fa] = h; } p }).collect() };
                let e = |a: usize, k: usize| v[a][k] - v[0][k];
                let cr = [e(1, 1) * e(2, 2) - e(1, 2) * e(2, 1), e(1, 2) * e(2, 0) - e(1, 0) * e(2, 2), e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0)];
                if cr == [0, 0, 0] { continue; }
                let p = |a: usize| p3(c(0, v[a][0]) as f32, c(1, v[a][1]) as f32, c(2, v[a][2]) as f32);
                out.push(Arc::new(Triangle::new([p(0), p(1), p(2)], None, r.b(), mat.clone())));
            }
            _ => {
                let rad = (r.i(1, 2) as f64) * unit;
                out.push(Arc::new(Sphere::new(p3(c(0, r.i(0, side)) as f32, c(1, r.i(0, side)) as f32, c(2, r.i(0, side)) as f32), rad as f32, mat.clone())));
            }
        }
    }
    out
}

fn lattice_ray(r: &mut Rng, unit: f64, off: [f64; 3]) -> Ray {
    let mut d = [0f32; 3];
    while d.iter().all(|x| *x == 0.) {
        for k in 0..3 { d[k] = *r.pick(&[-1f32, -0., 0., 1., 0., -0., 2., -2., 1.]); }
    }
    let s = *r.pick(&[1f32, 1., 0.5, 4., 1. / 1048576., (-36f32).exp2(), 1048576.]);
    let half = *r.pick(&[1f64, 1., 0.5]);
    let o: Vec<f32> = (0..3).map(|k| (off[k] + unit * half * r.i(-2, (7. / half) as i64) as f64) as f32).collect();
    let t_max = if r.b() { f32::INFINITY } else { (unit * r.i(1, 12) as f64 / 2.) as f32 / if s > 0.1 && s < 10. { 1. } else { s } };
    Ray { origin: p3(o[0], o[1], o[2]), direction: v3(d[0] * s, d[1] * s, d[2] * s), t_max }
}

fn cloud(r: &mut Rng) -> (Vec<S>, f64, [f64; 3]) { let n = *r.pick(&[1usize, 4, 9, 20, 60, 150, 300]); cloud_of(r, n) }
fn cloud_of(r: &mut Rng, n: usize) -> (Vec<S>, f64, [f64; 3]) {
    let scale = *r.pick(&[1f64, 1e-2, 50., 1000.]);
    let far = if r.chance(1, 3) { scale * 20. } else { 0. };
    let off = [r.fr(-far, far), r.fr(-far, far), r.fr(-far, far)];
    let clustered = r.b();
    let centres: Vec<[f64; 3]> = (0..4).map(|_| [r.f(), r.f(), r.f()]).collect();
    let size = if n > 1000 { 0.01 } else { *r.pick(&[0.02, 0.1, 0.4]) };
    let kinds = r.n(4);
    let mat: Arc<dyn Material> = Arc::new(Bare);
    let mut out: Vec<S> = Vec::new();
    if kinds == 3 {          // a height field
        let m = (n as f64 / 2.).sqrt().ceil() as usize + 1;
        let mut vs = Vec::new();
        for i in 0..(m + 1) { for j in 0..(m + 1) {
            vs.push(p3((off[0] + scale * i as f64 / m as f64) as f32, (off[1] + scale * j as f64 / m as f64) as f32, (off[2] + scale * size * r.f()) as f32));
        } }
        let mut ix = Vec::new();
        for i in 0..m { for j in 0..m {
            let a = i * (m + 1) + j;
            ix.push([a, a + 1, a + m + 1]); ix.push([a + m + 2, a + m + 1, a + 1]);
        } }
        for t in Triangle::new_triangle_mesh(vs.into_boxed_slice(), ix.into_boxed_slice(), None, None, mat.clone()) { out.push(Arc::new(t)); }
        return (out, scale, off);
    }
    while out.len() < n {
        let base = if clustered { let c = centres[r.n(4)]; [c[0] + r.fr(-0.05, 0.05), c[1] + r.fr(-0.05, 0.05), c[2] + r.fr(-0.05, 0.05)] } else { [r.f(), r.f(), r.f()] };
        let mut p = |s: f64| p3((off[0] + scale * (base[0] + s * r.fr(-1., 1.))) as f32, (off[1] + scale * (base[1] + s * r.fr(-1., 1.))) as f32, (off[2] + scale * (base[2] + s * r.fr(-1., 1.))) as f32);
        let v = [p(size), p(size), p(size)];
        let c = p(0.);
        if kinds == 0 || (kinds == 2 && r.b()) {
            out.push(Arc::new(Triangle::new(v, None, r.b(), mat.clone())));
        } else {
            out.push(Arc::new(Sphere::new(c, (scale * size * r.fr(0.1, 1.)) as f32, mat.clone())));
        }
    }
    (out, scale, off)
}
/// Very many slivers across one cube: no plane divides them, and a leaf has to hold them all.
fn stack(r: &mut Rng) -> (Vec<S>, f64, [f64; 3]) {
    let mat: Arc<dyn Material> = Arc::new(Bare);
    let scale = *r.pick(&[1f64, 50.]);
    let n = *r.pick(&[1500, 3000]);
    let mut out: Vec<S> = Vec::new();
    for _ in 0..n {
        let p = |v: [f64; 3]| p3((scale * v[0]) as f32, (scale * v[1]) as f32, (scale * v[2]) as f32);
        let a = [r.fr(0., 0.05), r.fr(0., 0.05), r.fr(0., 0.05)];
        let b = [r.fr(0.95, 1.), r.fr(0.95, 1.), r.fr(0.95, 1.)];
        let c = [a[0] + r.fr(-0.05, 0.05), a[1] + r.fr(-0.05, 0.05), a[2] + r.fr(-0.05, 0.05)];
        out.push(Arc::new(Triangle::new([p(a), p(b), p(c)], None, r.b(), mat.clone())));
    }
    (out, scale, [0.; 3])
}
fn stack_ray(r: &mut Rng, shapes: &[S], scale: f64) -> Ray {
    let ray = cloud_ray(r, scale, [0.; 3]);
    if r.chance(1, 4) { return ray; }
    // at one of them
    let i = r.n(shapes.len());
    let to = shapes[i].sample(Point2f::new(r.f() as f32, r.f() as f32)).p;
    let d = to - ray.origin;
    Ray { origin: ray.origin, direction: d, t_max: if r.b() { f32::INFINITY } else { 1.5 } }
}
/// Shapes in geometric progression: trees over them are deep, and a ray along them has all the far halves still to do.
fn ladder(r: &mut Rng) -> (Vec<S>, f64, [f64; 3]) {
    let mat: Arc<dyn Material> = Arc::new(Bare);
    let axis = r.n(3);
    let (n, ratio) = *r.pick(&[(40i32, 2f64), (110, 1.4), (100, 1.3), (60, 2.)]);
    let mut out: Vec<S> = Vec::new();
    for k in 0..n {
        let x = ratio.powi(k - n / 2);
        let mut v = [[0.; 3]; 3];
        for p in v.iter_mut() { p[axis] = x * r.fr(1., 1.2); for j in 1..3 { p[(axis + j) % 3] = x * r.fr(-0.4, 0.4); } }
        let p = |a: usize| p3(v[a][0] as f32, v[a][1] as f32, v[a][2] as f32);
        if r.chance(2, 3) { out.push(Arc::new(Triangle::new([p(0), p(1), p(2)], None, r.b(), mat.clone()))); }
        else { out.push(Arc::new(Sphere::new(p(0), (x * 0.1) as f32, mat.clone()))); }
    }
    let mut o = [0.; 3]; o[axis] = 1.;
    (out, ratio.powi(n / 2), o)
}
fn ladder_ray(r: &mut Rng, top: f64, axis: [f64; 3]) -> Ray {
    // from the foot of the ladder only: there distances keep their relative precision
    let e = |r: &mut Rng| (top.ln() * r.fr(-1., 1.)).exp();
    let m = if r.b() { 0. } else { e(r) };
    let d: Vec<f64> = (0..3).map(|k| axis[k] + (1. - axis[k]) * *r.pick(&[0., 0., 1., -1., 0.1]) * r.fr(0., 0.4)).collect();
    let o: Vec<f64> = (0..3).map(|k| m * r.fr(-0.3, 0.3) * (1. - axis[k])).collect();
    Ray { origin: p3(o[0] as f32, o[1] as f32, o[2] as f32), direction: v3(d[0] as f32, d[1] as f32, d[2] as f32), t_max: if r.chance(2, 3) { f32::INFINITY } else { e(r) as f32 } }
}
fn cloud_ray(r: &mut Rng, scale: f64, off: [f64; 3]) -> Ray {
    let w = *r.pick(&[0.5, 1., 3.]);
    let o: Vec<f64> = (0..3).map(|_| 0.5 + w * r.fr(-1., 1.)).collect();
    let t: Vec<f64> = (0..3).map(|_| r.fr(-0.1, 1.1)).collect();
    let axis = if r.chance(1, 4) { r.n(3) } else { 3 };
    let d: Vec<f32> = (0..3).map(|k| if axis == 3 { (scale * (t[k] - o[k])) as f32 } else if k == axis { if o[k] > 0.5 { -1. } else { 1. } } else if r.b() { 0. } else { -0. }).collect();
    let t_max = if r.chance(2, 3) { f32::INFINITY } else if axis < 3 { (scale * r.f()) as f32 } else { r.fr(0.05, 1.5) as f32 };
    Ray { origin: p3((off[0] + scale * o[0]) as f32, (off[1] + scale * o[1]) as f32, (off[2] + scale * o[2]) as f32), direction: v3(d[0], d[1], d[2]), t_max }
}

fn show(ray: &Ray) -> String { format!("{:?} {:?} {:?} limit {:?}", ray.origin.x, (ray.origin.y, ray.origin.z), (ray.direction.x, ray.direction.y, ray.direction.z), ray.t_max) }

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC10);
    let scenes = a.scale(900, 12000);
    let huge = a.scale(2, 8);
    let stacked = a.scale(4, 30);
    for k in 0..scenes + huge + stacked {
        out.unit();
        let stacks = k >= scenes + huge;
        let huge = k >= scenes && !stacks;
        let exact = k % 3 != 0 && k < scenes;
        let steep = !exact && k < scenes && k % 12 == 0;
        let (unit, off) = (*r.pick(&[1f64, 0.5, 4.]), *r.pick(&[[0f64, 0., 0.], [-3., -2., -4.], [100., -64., 33.], [4096., 0., -8192.]]));
        let (shapes, scale, off) = if exact { (lattice(&mut r, unit, off), unit, off) } else if huge { cloud_of(&mut r, 40000) } else if stacks { stack(&mut r) } else if steep { ladder(&mut r) } else { cloud(&mut r) };
        // the same shape may be listed twice: answers are told apart by the first position
        let id = |s: &S| shapes.iter().position(|x| addr(x) == addr(s)).map(|i| i as i64 + 1).unwrap_or(-1);
        let depths: Vec<Option<u32>> = if huge { vec![None] } else { vec![None, Some(*r.pick(&[0, 1, 2, 3, 5, 20])), Some(*r.pick(&[4, 8, 60, 100000]))] };
        out.put(Ev::new("scene").i("u", k as i64).b("exact", exact).i("n", shapes.len() as i64).a("depths", &depths.iter().map(|d| d.map(|x| x as i64).unwrap_or(-1)).collect::<Vec<_>>()).end());
        let mut cs: Vec<(&str, Box<dyn Container>)> = Vec::new();
        let desc = format!("building containers over {} shapes of unit {}", shapes.len(), k);
        match guard(&|| desc.clone(), || {
            let mut cs: Vec<(&'static str, Box<dyn Container>)> = vec![("list", Box::new(Simple::new(shapes.clone().into_boxed_slice())))];
            for d in depths.iter() { cs.push(("tree", Box::new(KdTree::new(shapes.clone().into_boxed_slice(), *d)))); }
            cs
        }) {
            Ok(v) => cs.extend(v),
            Err(e) => { out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()); continue; }
        }
        let rays = if exact { 60 } else if huge { 300 } else { 40 };
        for _ in 0..rays {
            let ray = if exact { lattice_ray(&mut r, scale, off) } else if steep { ladder_ray(&mut r, scale, off) } else if stacks { stack_ray(&mut r, &shapes, scale) } else { cloud_ray(&mut r, scale, off) };
            let res = guard(&|| format!("query {} in unit {}", show(&ray), k), || {
                let own: Vec<Vec<i64>> = shapes.iter().map(|s| {
                    let p = s.intersect_p(&ray) as i64;
                    match s.intersect(&ray) { Some((i, t)) => vec![p, 1, ord(t), sig(&i)], None => vec![p, 0, 0, 0] }
                }).collect();
                let got: Vec<Vec<i64>> = cs.iter().map(|(_, c)| {
                    let p = c.intersect_p(&ray) as i64;
                    match c.intersect(&ray) { Some(i) => vec![p, 1, i.shape.as_ref().map(|s| id(s)).unwrap_or(-2), sig(&i)], None => vec![p, 0, 0, 0] }
                }).collect();
                (own, got)
            });
            match res {
                Ok((own, got)) => {
                    // only shapes that answer anything are listed
                    let own: Vec<Vec<i64>> = own.into_iter().enumerate().filter(|(_, v)| v[0] != 0 || v[1] != 0).map(|(i, mut v)| { v.insert(0, i as i64 + 1); v }).collect();
                    out.put(Ev::new("query").aa("own", &own).aa("got", &got).s("ray", &show(&ray)).end());
                }
                Err(e) => out.put(Ev::new("panic").s("what", &format!("query {}: {}", show(&ray), e)).end()),
            }
        }
    }
    out.finish();
}
