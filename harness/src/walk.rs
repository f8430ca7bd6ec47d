//! Paths in and out of convex solids, and shadow rays, with the real shapes and the real spawned rays.
use std::sync::Arc;

use pt::api::*;
use pt::verif::interaction::*;
use pt::verif::ray::*;
use pt::verif::shape::{Shape, intersect};

use crate::mock::*;
use crate::shape::*;
use crate::util::*;

type S = Arc<dyn Shape>;
pub fn rdir(r: &mut Rng) -> D3 { loop { let d = [r.fr(-1., 1.), r.fr(-1., 1.), r.fr(-1., 1.)]; let l = len(d); if l > 0.01 && l <= 1. { return mul(d, 1. / l); } } }
fn pt(v: D3) -> pt::verif::vector::Point3f { p3(v[0] as f32, v[1] as f32, v[2] as f32) }
fn vt(v: D3) -> pt::verif::vector::Vector3f { v3(v[0] as f32, v[1] as f32, v[2] as f32) }

/// A convex solid: the shapes that bound it, and the half spaces or the ball it is.
struct Solid { shapes: Vec<S>, size: f64, centre: D3, planes: Vec<(D3, D3)>, radius: f64, desc: String }
impl Solid {
    fn query(&self, ray: &Ray) -> (bool, Option<Interaction>) {
        let yes = self.shapes.iter().any(|s| s.intersect_p(ray));
        let mut ray = ray.clone();
        let mut best = None;
        for s in self.shapes.iter() { if let Some(i) = intersect(s, &mut ray) { best = Some(i); } }
        (yes, best)
    }
    /// Length of the part of the line behind `o` that lies inside.
    fn chord(&self, o: D3, d: D3) -> f64 {
        if self.planes.is_empty() {
            let oc = sub(o, self.centre);
            let b = dot(oc, d);
            let disc = b * b - dot(oc, oc) + self.radius * self.radius;
            if disc <= 0. { return 0.; }
            let (t0, t1) = ((-b - disc.sqrt()).max(0.), -b + disc.sqrt());
            return (t1 - t0).max(0.);
        }
        let (mut t0, mut t1) = (0f64, f64::MAX);
        for (p, n) in self.planes.iter() {
            let (den, num) = (dot(*n, d), dot(*n, sub(*p, o)));
            if den > 0. { t1 = t1.min(num / den); } else if den < 0. { t0 = t0.max(num / den); } else if num < 0. { return 0.; }
        }
        (t1 - t0).max(0.)
    }
    fn outward(&self, i: &Interaction) -> D3 {
        let n = unit(dn(i.n));
        if dot(n, sub(dp(i.p), self.centre)) < 0. { mul(n, -1.) } else { n }
    }
}

fn solid(r: &mut Rng) -> Solid {
    let scale = (10f64).powf(r.fr(-3., 3.));
    let ratio = *r.pick(&[0., 0., 0.5, 1., 1., 10., 100., 1000.]);
    let at = f32s(mul(rdir(r), scale * ratio * if ratio <= 1. { r.fr(0., 1.) } else { r.fr(0.5, 1.) }));
    let mat: Arc<dyn Material> = Arc::new(Bare);
    if r.b() {
        let s = Sphere::new(pt(at), scale as f32, mat);
        return Solid { shapes: vec![Arc::new(s)], size: scale, centre: at, planes: vec![], radius: scale as f32 as f64, desc: format!("sphere at {:?} radius {}", at, scale) };
    }
    let (vs, ix) = ball(r, [0.; 3], 1., 0);
    let (vs, ix) = if r.b() { (vs, ix) } else { ball(r, [0.; 3], 1., 1) };
    // a rotated, stretched and moved copy
    let (a, b) = (rdir(r), rdir(r));
    let e0 = a; let e1 = unit(sub(b, mul(a, dot(a, b)))); let e2 = cross(e0, e1);
    let axis = r.chance(1, 3);
    let k = [r.fr(0.3, 1.), r.fr(0.3, 1.), r.fr(0.3, 1.)];
    let vs: Vec<D3> = vs.iter().map(|p| { let q = [p.x as f64 * k[0], p.y as f64 * k[1], p.z as f64 * k[2]]; let w = if axis { q } else { add(mul(e0, q[0]), add(mul(e1, q[1]), mul(e2, q[2]))) }; f32s(add(at, mul(w, scale))) }).collect();
    let smooth = r.b();
    let mut planes = Vec::new();
    let mut shapes: Vec<S> = Vec::new();
    for f in ix.iter() {
        let mut n = unit(cross(sub(vs[f[1]], vs[f[0]]), sub(vs[f[2]], vs[f[0]])));
        if dot(n, sub(vs[f[0]], at)) < 0. { n = mul(n, -1.); }
        planes.push((vs[f[0]], n));
        // smooth shading does not change where the surface is
        let vn = if smooth { let mut m = |p: D3| { let w = add(unit(sub(p, at)), mul(rdir(r), 0.5)); n3(w[0] as f32, w[1] as f32, w[2] as f32) }; Some([m(vs[f[0]]), m(vs[f[1]]), m(vs[f[2]])]) } else { None };
        shapes.push(Arc::new(Triangle::new([pt(vs[f[0]]), pt(vs[f[1]]), pt(vs[f[2]])], vn, r.b(), mat.clone())));
    }
    Solid { shapes, size: scale, centre: at, planes, radius: 0., desc: format!("mesh of {} triangles at {:?} size {}", ix.len(), at, scale) }
}

fn walks(a: &Args, out: &mut Out, r: &mut Rng) {
    for k in 0..a.scale(5000, 80000) {
        let s = solid(r);
        out.unit();
        out.put(Ev::new("solid").i("u", k as i64).s("what", &s.desc).end());
        for _ in 0..6 {
            let from = add(s.centre, mul(rdir(r), s.size * (10f64).powf(r.fr(0.4, 1.7))));
            let to = add(s.centre, mul(rdir(r), s.size * r.fr(0., 0.15)));
            let (o, t) = (pt(from), pt(to));
            let ray = Ray { origin: o, direction: t - o, t_max: f32::INFINITY };
            let desc = format!("{} first ray from {:?} to {:?}", s.desc, from, to);
            let mut at = match guard(&|| desc.clone(), || s.query(&ray)) {
                Ok((yes, h)) => {
                    out.put(Ev::new("first").b("yes", yes).b("hit", h.is_some()).i("out", h.as_ref().map(|i| qd(dot(s.outward(i), unit(dv(ray.direction))), 1024.)).unwrap_or(0)).end());
                    match h { Some(i) => i, None => continue }
                }
                Err(e) => { out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()); continue; }
            };
            for _ in 0..10 {
                let n = s.outward(&at);
                let d = loop { let d = rdir(r); if dot(d, n).abs() > 0.03 { break d; } };
                let inward = dot(d, n) < 0.;
                let dir = vt(mul(d, *r.pick(&[1., 1., 0.03, 20.])));
                let here = dp(at.p);
                let chord = s.chord(here, unit(dv(dir)));
                let desc = format!("{} spawn from {:?} along {:?}", s.desc, here, d);
                let got = guard(&|| desc.clone(), || s.query(&at.spawn_ray(dir)));
                match got {
                    Ok((yes, h)) => {
                        let ev = Ev::new("spawn").b("inward", inward).i("chord", qd(chord / s.size, 4096.)).i("blur", qd(6e-8 * 40. * (maxabs(s.centre) + s.size) / s.size / dot(d, n).abs(), 4096.)).b("yes", yes).b("hit", h.is_some());
                        let ev = match &h { Some(i) => ev.i("went", qd(len(sub(dp(i.p), here)) / s.size, 4096.)).i("out", qd(dot(s.outward(i), unit(dv(dir))), 1024.)), None => ev };
                        out.put(ev.s("what", &desc).end());
                        match h { Some(i) if inward => at = i, _ => break }
                    }
                    Err(e) => { out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()); break; }
                }
            }
        }
    }
}

fn patch(r: &mut Rng, at: D3, n: D3, size: f64) -> (S, D3, &'static str) {
    let mat: Arc<dyn Material> = Arc::new(Bare);
    if r.chance(2, 5) {
        // a ball whose surface passes through `at` with outward normal n
        let rad = (size * r.fr(0.2, 1.)) as f32 as f64;
        (Arc::new(Sphere::new(pt(sub(at, mul(n, rad))), rad as f32, mat)), n, "sphere")
    } else {
        let a = { let w = rdir(r); unit(cross(n, w)) };
        let b = cross(n, a);
        let v = [add(at, mul(a, size)), add(at, add(mul(a, -0.5 * size), mul(b, 0.8 * size))), add(at, add(mul(a, -0.5 * size), mul(b, -0.8 * size)))];
        (Arc::new(Triangle::new([pt(v[0]), pt(v[1]), pt(v[2])], None, r.b(), mat)), n, "triangle")
    }
}

fn shadows(a: &Args, out: &mut Out, r: &mut Rng) {
    for k in 0..a.scale(40000, 800_000) {
        if k % 50 == 0 { out.unit(); out.put(Ev::new("unit").i("u", k as i64).end()); }
        let scale = (10f64).powf(r.fr(-2., 3.));
        let at = if r.b() { [0.; 3] } else { mul(rdir(r), scale * (10f64).powf(r.fr(-1., 2.))) };
        let dir = rdir(r);
        let dist = scale * (10f64).powf(r.fr(-1., 1.5));
        let (p1, p2) = (at, add(at, mul(dir, dist)));
        let tilt = |r: &mut Rng, d: D3| loop { let n = rdir(r); if dot(n, d) > 0.06 { return n; } };
        let (n1, n2) = (tilt(r, dir), tilt(r, mul(dir, -1.)));
        let sz = (dist * r.fr(0.05, 0.4)).min(scale);
        let (s1, m1, k1) = patch(r, p1, n1, sz);
        let (s2, m2, k2) = patch(r, p2, n2, sz);
        // the points are found by rays, as in a path
        let o1 = add(p1, mul(add(m1, mul(rdir(r), 0.3)), dist * r.fr(0.3, 3.)));
        let o2 = add(p2, mul(add(m2, mul(rdir(r), 0.3)), dist * r.fr(0.3, 3.)));
        let aim = |o: D3, p: D3| { let (o, p) = (pt(o), pt(p)); Ray { origin: o, direction: p - o, t_max: f32::INFINITY } };
        // sometimes something in between, clearly across the segment and clearly off both ends (but maybe close to one)
        let w = match r.n(4) { 0 => (10f64).powf(r.fr(-2.4, -1.)), 1 => 1. - (10f64).powf(r.fr(-2.4, -1.)), _ => r.fr(0.05, 0.95) };
        let (among, tilted, big) = (r.b(), rdir(r), r.fr(0.1, 0.8));
        let flat = r.b();
        let mut rb = Rng::new(r.u64());
        let sampled = r.chance(1, 3);
        let pick = pt::verif::vector::Point2f::new(r.f() as f32, r.f() as f32);
        let desc = format!("{} at {:?} and {} at {:?} size {}", k1, p1, k2, p2, sz);
        let got = guard(&|| desc.clone(), || {
            let i1 = s1.intersect(&aim(o1, p1));
            // or a point of the surface chosen by sampling it, as for an area light
            let i2 = if k2 == "triangle" && sampled { Some((s2.sample(pick), 1.)) } else { s2.intersect(&aim(o2, p2)) };
            if let (Some((i1, _)), Some((i2, _))) = (i1, i2) {
                let seg = sub(dp(i2.p), dp(i1.p));
                // both ends must really see each other
                let face = |s: &S, i: &Interaction, d: D3| { let _ = s; dot(unit(dn(i.n)), unit(d)) };
                let (c1, c2) = (face(&s1, &i1, seg), face(&s2, &i2, mul(seg, -1.)));
                let front = |k: &str, c: f64| if k == "sphere" { c } else { c.abs() };
                let near = len(sub(dp(i1.p), p1)).max(len(sub(dp(i2.p), p2))) / dist;
                let ray = i1.spawn_ray_to(&i2);
                let back = i2.spawn_ray_to(&i1);
                let (a0, seglen) = (dp(i1.p), len(seg));
                let (mid, sdir, room) = (add(a0, mul(seg, w)), unit(seg), seglen * w.min(1. - w));
                let between: Option<S> = if !among || seglen < dist * 0.5 { None } else if flat {
                    let n = if dot(tilted, sdir).abs() > 0.3 { tilted } else { sdir };
                    Some(patch(&mut rb, mid, n, room * big).0)
                } else { Some(Arc::new(Sphere::new(pt(mid), (room * big) as f32, Arc::new(Bare)))) };
                let b = between.as_ref().map(|s| vec![s.intersect_p(&ray), s.intersect_p(&back)]).unwrap_or_default();
                Some((front(k1, c1), front(k2, c2), near, [s1.intersect_p(&ray), s2.intersect_p(&ray), s1.intersect_p(&back), s2.intersect_p(&back)], b))
            } else { None }
        });
        match got {
            Ok(Some((c1, c2, near, occ, b))) => out.put(Ev::new("shadow").i("c1", qd(c1, 1024.)).i("c2", qd(c2, 1024.)).i("near", qd(near, 1e6)).b("between", !b.is_empty())
                .i("ends", occ.iter().filter(|x| **x).count() as i64).i("blocked", b.iter().filter(|x| **x).count() as i64).s("what", &desc).end()),
            Ok(None) => (),
            Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()),
        }
    }
}

/// A ray spawned from a triangle or a sphere starts on the side it heads to.
fn sides(a: &Args, out: &mut Out, r: &mut Rng) {
    let mat: Arc<dyn Material> = Arc::new(Bare);
    for k in 0..a.scale(20000, 400_000) {
        if k % 50 == 0 { out.unit(); out.put(Ev::new("unit").i("u", k as i64).end()); }
        let scale = (10f64).powf(r.fr(-3., 3.));
        let at = mul(rdir(r), scale * *r.pick(&[0., 0., 0.3, 1., 30.]));
        let v: Vec<D3> = loop {
            let v: Vec<D3> = (0..3).map(|_| f32s(add(at, mul(rdir(r), scale * r.fr(0.3, 1.))))).collect();
            if len(cross(sub(v[1], v[0]), sub(v[2], v[0]))) > 0.2 * scale * scale { break v; }
        };
        let n = unit(cross(sub(v[1], v[0]), sub(v[2], v[0])));
        let tri = Triangle::new([pt(v[0]), pt(v[1]), pt(v[2])], None, r.b(), mat.clone());
        let (x, y) = (r.fr(0.05, 0.6), r.fr(0.05, 0.35));
        let target = add(mul(v[0], x), add(mul(v[1], y), mul(v[2], 1. - x - y)));
        // often where coordinates of the point vanish
        let target = if r.b() { let c = r.n(3); let j = (c + 1) % 3; let m = n[j]; if m.abs() > 0.3 { let mut t = target; t[j] += t[c] * n[c] / m; t[c] = 0.; t } else { target } } else { target };
        let o = add(target, mul(add(mul(n, if r.b() { 1. } else { -1. }), mul(rdir(r), 0.8)), scale * r.fr(0.2, 3.)));
        let (o32, t32) = (pt(o), pt(target));
        let ray = Ray { origin: o32, direction: t32 - o32, t_max: f32::INFINITY };
        let w = loop { let w = rdir(r); if dot(w, n).abs() > 0.01 { break w; } };
        let from = if r.b() { Some(pt::verif::vector::Point2f::new(r.f() as f32, r.f() as f32)) } else { None };
        let desc = format!("triangle {:?} hit from {:?} to {:?}, spawning {:?}", v, o, target, w);
        match guard(&|| desc.clone(), || { let i = match from { Some(u) => Some(tri.sample(u)), None => tri.intersect(&ray).map(|x| x.0) }; i.map(|i| (i.spawn_ray(vt(w)), i)) }) {
            Ok(Some((ray, i))) => {
                let off = dot(n, sub(dp(ray.origin), v[0])) * dot(n, w).signum();
                let ulp = 6e-8 * (maxabs(v[0]).max(maxabs(v[1])).max(maxabs(v[2])));
                let moved = len(sub(dp(ray.origin), dp(i.p)));
                out.put(Ev::new("side").i("off", qd(off / ulp, 1024.)).i("moved", qd(moved / ulp, 1.)).b("along", ray.direction.x == vt(w).x && ray.direction.y == vt(w).y && ray.direction.z == vt(w).z).b("open", ray.t_max == f32::INFINITY).s("what", &desc).end());
            }
            Ok(None) => (),
            Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()),
        }
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC12);
    walks(a, &mut out, &mut r);
    shadows(a, &mut out, &mut r);
    sides(a, &mut out, &mut r);
    out.finish();
}
