//! The real triangles and spheres under single rays: exactly (integer scenes) and measured (floating point scenes).
use std::sync::Arc;

use pt::api::*;
use pt::verif::interaction::*;
use pt::verif::ray::*;
use pt::verif::shape::Shape;
use pt::verif::vector::*;

use crate::mock::*;
use crate::util::*;

pub type D3 = [f64; 3];
pub fn dv(v: Vector3f) -> D3 { [v.x as f64, v.y as f64, v.z as f64] }
pub fn dp(v: Point3f) -> D3 { [v.x as f64, v.y as f64, v.z as f64] }
fn vd(v: Vector3f) -> D3 { [v.x as f64, v.y as f64, v.z as f64] }
pub fn dn(v: Normal3f) -> D3 { [v.x as f64, v.y as f64, v.z as f64] }
pub fn sub(a: D3, b: D3) -> D3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn add(a: D3, b: D3) -> D3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn mul(a: D3, k: f64) -> D3 { [a[0] * k, a[1] * k, a[2] * k] }
pub fn dot(a: D3, b: D3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: D3, b: D3) -> D3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn len(a: D3) -> f64 { dot(a, a).sqrt() }
pub fn unit(a: D3) -> D3 { let l = len(a); mul(a, 1. / l) }
pub fn maxabs(a: D3) -> f64 { a[0].abs().max(a[1].abs()).max(a[2].abs()) }
pub fn qd(x: f64, s: f64) -> i64 {
    if x.is_nan() { return NAN_I; }
    let v = (x * s).round();
    if v > CLIP_I as f64 { CLIP_I } else if v < -CLIP_I as f64 { -CLIP_I } else { v as i64 }
}
pub fn qv(v: D3, s: f64) -> Vec<i64> { v.iter().map(|x| qd(*x, s)).collect() }
const EPS: f64 = 5.960464477539063e-8;

/// [|sn| , du.sn, sine of du and sn, sine of du and dv] in 2^-12, lengths of du and dv classified.
pub fn frame(i: &Interaction) -> Vec<i64> {
    let (n, u, v) = (dn(i.sn), dv(i.dpdu), dv(i.dpdv));
    let (lu, lv) = (len(u), len(v));
    // the crate works in single precision: a vector whose squared length underflows has no direction there
    let ok = |l: f64| if !l.is_finite() { NAN_I } else if l * l < 1e-37 { 0 } else { 1 };
    vec![qd(len(n), 4096.), ok(lu), ok(lv), qd(dot(u, n) / lu, 4096.), qd(len(cross(u, n)) / lu, 4096.), qd(len(cross(u, v)) / (lu * lv), 4096.)]
}

fn iv(v: &[i64; 3]) -> Vec<i64> { v.to_vec() }

struct Place { unit: f64, off: [f64; 3] }
impl Place {
    fn pick(r: &mut Rng) -> Place { Place { unit: *r.pick(&[1., 0.25, 16., 1.]), off: *r.pick(&[[0., 0., 0.], [0., 0., 0.], [-3., 7., 1.], [120., -64., 33.]]) } }
    fn p(&self, v: &[i64; 3]) -> Point3f { p3(self.c(0, v[0]), self.c(1, v[1]), self.c(2, v[2])) }
    fn c(&self, k: usize, v: i64) -> f32 { (self.off[k] * self.unit + self.unit * v as f64) as f32 }
    fn back(&self, p: D3) -> D3 { [p[0] / self.unit - self.off[0], p[1] / self.unit - self.off[1], p[2] / self.unit - self.off[2]] }
}

fn report(ev: Ev, s: &dyn Shape, ray: &Ray, pl: &Place) -> Ev {
    let yes = s.intersect_p(ray);
    let b = s.bbox();
    let ev = ev.b("yes", yes).aa("box", &[qv(pl.back(dp(b.min)), 1024.), qv(pl.back(dp(b.max)), 1024.)]);
    match s.intersect(ray) {
        None => ev.b("hit", false),
        Some((i, t)) => ev.b("hit", true).i("t", qd(t as f64 / pl.unit, 1024.)).a("p", &qv(pl.back(dp(i.p)), 1024.)).a("n", &qv(dn(i.n), 4096.)).a("sn", &qv(dn(i.sn), 4096.))
            .a("frame", &frame(&i)).a("uv", &[q(i.uv.x, 4096.), q(i.uv.y, 4096.)])
            .a("du", &qv(mul(dv(i.dpdu), 1. / len(dv(i.dpdu))), 4096.)).a("dv", &qv(mul(dv(i.dpdv), 1. / len(dv(i.dpdv))), 4096.))
            // the direction that the surface coordinates name, read as longitude and colatitude
            .a("polar", &{ let (u, v) = (i.uv.x as f64, i.uv.y as f64); qv([v.sin() * u.cos(), v.sin() * u.sin(), v.cos()], 4096.) })
            .b("wo", i.wo.x == -ray.direction.x && i.wo.y == -ray.direction.y && i.wo.z == -ray.direction.z),
    }
}

fn cross_i(a: &[i64; 3], b: &[i64; 3]) -> [i64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn sub_i(a: &[i64; 3], b: &[i64; 3]) -> [i64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }

fn dir(r: &mut Rng, max: i64) -> [i64; 3] {
    loop { let d = [r.i(-max, max), r.i(-max, max), r.i(-max, max)]; if d != [0, 0, 0] { return d; } }
}

fn exact(a: &Args, out: &mut Out, r: &mut Rng) {
    let mat: Arc<dyn Material> = Arc::new(Bare);
    for k in 0..a.scale(24000, 500_000) {
        if k % 50 == 0 { out.unit(); out.put(Ev::new("unit").i("u", k as i64).end()); }
        let pl = Place::pick(r);
        // the origin is often placed so that the ray goes through a chosen lattice point (vertex, edge point, centre)
        let half = r.i(-1, 12);
        let m = if half < 1 { -1 } else { half };
        let t_max = if m < 0 { f32::INFINITY } else { (m as f64 * 0.5 * pl.unit) as f32 };
        if r.chance(2, 3) {
            let side = *r.pick(&[2i64, 4, 6]);
            let v: Vec<[i64; 3]> = loop {
                let mut v: Vec<[i64; 3]> = (0..3).map(|_| [r.i(0, side), r.i(0, side), r.i(0, side)]).collect();
                if r.chance(1, 4) { let (ax, h) = (r.n(3), r.i(0, side)); for p in v.iter_mut() { p[ax] = h; } }
                if cross_i(&sub_i(&v[1], &v[0]), &sub_i(&v[2], &v[0])) != [0, 0, 0] { break v; }
            };
            let d = loop { let d = dir(r, 4); let mx = d.iter().map(|x| x.abs()).max().unwrap(); if mx != 3 || r.chance(1, 4) { break d; } };
            let target = match r.n(5) {
                0 => v[r.n(3)],
                1 => { let (i, j) = (r.n(3), r.n(3)); [(v[i][0] + v[j][0]).div_euclid(2), (v[i][1] + v[j][1]).div_euclid(2), (v[i][2] + v[j][2]).div_euclid(2)] }
                2 => [(v[0][0] + v[1][0] + v[2][0]).div_euclid(3), (v[0][1] + v[1][1] + v[2][1]).div_euclid(3), (v[0][2] + v[1][2] + v[2][2]).div_euclid(3)],
                _ => [r.i(0, side), r.i(0, side), r.i(0, side)],
            };
            let s = r.i(-1, 4);
            let o = [target[0] - s * d[0], target[1] - s * d[1], target[2] - s * d[2]];
            let rev = r.b();
            let vn: Option<Vec<[i64; 3]>> = if r.chance(2, 5) {
                let g = cross_i(&sub_i(&v[1], &v[0]), &sub_i(&v[2], &v[0]));
                let sg = [g[0].signum(), g[1].signum(), g[2].signum()];
                Some((0..3).map(|i| match r.n(6) { 0 => sub_i(&v[1], &v[0]), 1 => { let e = sub_i(&v[(i + 1) % 3], &v[i]); [-e[0], -e[1], -e[2]] }, 2 | 3 => sg, 4 => [-sg[0], -sg[1], -sg[2]], _ => dir(r, 2) }).collect())
            } else { None };
            // through the mesh constructor where it can express the triangle: one of several triangles of a
            // shuffled vertex list, with normals that are indexed on their own
            let mesh = !rev && r.b();
            let (mut vs, mut ix, mut ns, mut nx, mut at) = (v.clone(), vec![[0usize, 1, 2]], vec![], vec![], 0);
            if let Some(w) = vn.as_ref() { ns = w.clone(); nx = vec![[0usize, 1, 2]]; }
            if mesh {
                let shuffle = |r: &mut Rng, own: &[[i64; 3]], more: usize, rnd: &mut dyn FnMut(&mut Rng) -> [i64; 3]| {
                    let mut all: Vec<[i64; 3]> = own.to_vec();
                    for _ in 0..r.n(more) { all.push(rnd(r)); }
                    let mut order: Vec<usize> = (0..all.len()).collect();
                    for i in (1..order.len()).rev() { let j = r.n(i + 1); order.swap(i, j); }
                    let shuffled: Vec<[i64; 3]> = order.iter().map(|i| all[*i]).collect();
                    let pos = |k: usize| order.iter().position(|x| *x == k).unwrap();
                    let me = [pos(0), pos(1), pos(2)];
                    (shuffled, me)
                };
                let n = 1 + r.n(4);
                at = r.n(n);
                let (sv, me) = shuffle(r, &v, 4, &mut |r: &mut Rng| [r.i(0, side), r.i(0, side), r.i(0, side)]);
                ix = (0..n).map(|i| if i == at { me } else { [r.n(sv.len()), r.n(sv.len()), r.n(sv.len())] }).collect();
                vs = sv;
                if vn.is_some() {
                    let (sn, me) = shuffle(r, &ns, 4, &mut |r: &mut Rng| dir(r, 2));
                    let more = if r.chance(1, 4) { r.n(3) } else { 0 };
                    nx = (0..n + more).map(|i| if i == at { me } else { [r.n(sn.len()), r.n(sn.len()), r.n(sn.len())] }).collect();
                    ns = sn;
                } else if r.chance(1, 3) {
                    // normals that do not reach the triangle: too few, or none named
                    ns = (0..3).map(|_| dir(r, 2)).collect();
                    nx = if r.b() { (0..at).map(|_| [0, 1, 2]).collect() } else { vec![] };
                }
            }
            let nf = |w: &[i64; 3]| n3(w[0] as f32, w[1] as f32, w[2] as f32);
            let given = r.b();
            let build = || -> (Arc<dyn Shape>, i64) {
                if mesh {
                    let pool: Vec<Point3f> = vs.iter().map(|x| pl.p(x)).collect();
                    let bn: Option<Box<[Normal3f]>> = if ns.is_empty() && given { None } else { Some(ns.iter().map(nf).collect::<Vec<_>>().into_boxed_slice()) };
                    let bx: Option<Box<[[usize; 3]]>> = if nx.is_empty() && given { None } else { Some(nx.clone().into_boxed_slice()) };
                    let mut all = Triangle::new_triangle_mesh(pool.into_boxed_slice(), ix.clone().into_boxed_slice(), bn, bx, mat.clone());
                    let n = all.len() as i64;
                    (Arc::new(all.remove(at)), n)
                } else {
                    let vnf = if ns.is_empty() { None } else { Some([nf(&ns[0]), nf(&ns[1]), nf(&ns[2])]) };
                    (Arc::new(Triangle::new([pl.p(&v[0]), pl.p(&v[1]), pl.p(&v[2])], vnf, rev, mat.clone())), 1)
                }
            };
            let ray = Ray { origin: pl.p(&o), direction: v3(d[0] as f32, d[1] as f32, d[2] as f32), t_max };
            let one = |w: &[usize; 3]| w.iter().map(|x| *x as i64 + 1).collect::<Vec<i64>>();
            let ev = Ev::new("tri").aa("vs", &vs.iter().map(iv).collect::<Vec<_>>()).aa("ix", &ix.iter().map(one).collect::<Vec<_>>())
                .aa("ns", &ns.iter().map(iv).collect::<Vec<_>>()).aa("nx", &nx.iter().map(one).collect::<Vec<_>>()).i("at", at as i64 + 1)
                .a("o", &iv(&o)).a("d", &iv(&d)).i("m", m).b("rev", rev);
            let desc = format!("triangle {:?} from {:?} along {:?} limit {} at {:?} unit {}", v, o, d, m, pl.off, pl.unit);
            match guard(&|| desc.clone(), || { let (tri, n) = build(); report(ev.i("made", n), &*tri, &ray, &pl) }) { Ok(e) => out.put(e.end()), Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()) }
        } else {
            let c = [r.i(-2, 2), r.i(-2, 2), r.i(-2, 2)];
            let rad = r.i(1, 4);
            let d = if r.b() { let mut d = [0; 3]; d[r.n(3)] = *r.pick(&[-2, -1, 1, 3]); d } else { dir(r, 4) };
            let target = match r.n(4) { 0 => { let mut p = c; p[r.n(3)] += if r.b() { rad } else { -rad }; p } 1 => c, _ => [c[0] + r.i(-rad, rad), c[1] + r.i(-rad, rad), c[2] + r.i(-rad, rad)] };
            let s = r.i(-1, 4);
            let o = [target[0] - s * d[0], target[1] - s * d[1], target[2] - s * d[2]];
            let sph = Sphere::new(pl.p(&c), (rad as f64 * pl.unit) as f32, mat.clone());
            let ray = Ray { origin: pl.p(&o), direction: v3(d[0] as f32, d[1] as f32, d[2] as f32), t_max };
            let ev = Ev::new("sph").a("c", &iv(&c)).i("r", rad).a("o", &iv(&o)).a("d", &iv(&d)).i("m", m);
            let desc = format!("sphere {:?} {} from {:?} along {:?} limit {} at {:?} unit {}", c, rad, o, d, m, pl.off, pl.unit);
            match guard(&|| desc.clone(), || report(ev, &sph, &ray, &pl)) { Ok(e) => out.put(e.end()), Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()) }
        }
    }
}

fn rdir(r: &mut Rng) -> D3 { loop { let d = [r.fr(-1., 1.), r.fr(-1., 1.), r.fr(-1., 1.)]; let l = len(d); if l > 0.01 && l <= 1. { return mul(d, 1. / l); } } }
pub fn f32s(v: D3) -> D3 { [v[0] as f32 as f64, v[1] as f32 as f64, v[2] as f32 as f64] }
fn pt(v: D3) -> Point3f { p3(v[0] as f32, v[1] as f32, v[2] as f32) }
fn vt(v: D3) -> Vector3f { v3(v[0] as f32, v[1] as f32, v[2] as f32) }

/// Measured against double precision; every deviation is in units of the rounding it may have.
fn float(a: &Args, out: &mut Out, r: &mut Rng) {
    let mat: Arc<dyn Material> = Arc::new(Bare);
    for k in 0..a.scale(16000, 400_000) {
        if k % 50 == 0 { out.unit(); out.put(Ev::new("unit").i("u", k as i64).end()); }
        let scale = (10f64).powf(r.fr(-3., 3.));
        let at = if r.b() { [0.; 3] } else { mul(rdir(r), scale * (10f64).powf(r.fr(-1., 2.))) };
        let dl = *r.pick(&[1., 1., 0.01, 30.]);
        let dist = scale * (10f64).powf(r.fr(-1.5, 2.));
        if r.chance(3, 5) {
            let v: Vec<D3> = (0..3).map(|_| f32s(add(at, mul(rdir(r), scale * r.fr(0.2, 1.))))).collect();
            let g = cross(sub(v[1], v[0]), sub(v[2], v[0]));
            let big = len(sub(v[1], v[0])).max(len(sub(v[2], v[0]))).max(len(sub(v[2], v[1])));
            if len(g) < big * big * 0.05 { continue; }
            let (b1, b2) = (r.fr(-0.3, 1.2), r.fr(-0.3, 1.2));
            let target = add(mul(v[0], 1. - b1 - b2), add(mul(v[1], b1), mul(v[2], b2)));
            let d = f32s(mul(rdir(r), dl));
            let o = f32s(sub(target, mul(unit(d), dist * *r.pick(&[1., 1., 1., -1.]))));
            let nd = dot(g, d);
            if nd.abs() < 0.02 * len(g) * len(d) { continue; }
            let t = dot(g, sub(v[0], o)) / nd;
            let lim = t * r.fr(0.7, 1.6);
            let t_max = if r.chance(2, 3) || lim <= 0. { f32::INFINITY } else { lim as f32 };
            let ray = Ray { origin: pt(o), direction: vt(d), t_max };
            let rev = r.b();
            let tri = Triangle::new([pt(v[0]), pt(v[1]), pt(v[2])], None, rev, mat.clone());
            let p = add(o, mul(d, t));
            let area2 = dot(g, g);
            let bary = |p: D3| { let b = |i: usize, j: usize| dot(g, cross(sub(v[j], v[i]), sub(p, v[i]))) / area2; [b(1, 2), b(2, 0), b(0, 1)] };
            let b = bary(p);
            // sizes of the rounding: positions relative to the origin, seen along the ray
            let reach = v.iter().map(|x| maxabs(sub(*x, o))).fold(0., f64::max);
            let coord = v.iter().map(|x| maxabs(*x)).fold(maxabs(o), f64::max);
            let tilt = len(g) * len(d) / nd.abs();
            let ep = EPS * (reach + coord) * tilt * 16.;            // where the ray pierces the plane
            let eb = ep / (len(g) / big);
            let et = ep / len(d) + EPS * 4. * t.abs();
            let desc = format!("triangle {:?} from {:?} along {:?} limit {:?}", v, o, d, t_max);
            match guard(&|| desc.clone(), || {
                let ev = Ev::new("ftri").a("b", &b.iter().map(|x| qd(x / eb, 1.)).collect::<Vec<_>>()).i("ahead", qd(t / et, 1.)).i("room", if t_max.is_infinite() { CLIP_I } else { qd((t_max as f64 - t) / et, 1.) })
                    .b("rev", rev).b("yes", tri.intersect_p(&ray));
                match tri.intersect(&ray) {
                    None => ev.b("hit", false),
                    Some((i, th)) => {
                        let (ip, n) = (dp(i.p), dn(i.n));
                        let bp = bary(ip);
                        let want = mul(unit(g), if rev { -1. } else { 1. });
                        let bx = tri.bbox();
                        let outside = (0..3).map(|c| (bx.min[c] as f64 - ip[c]).max(ip[c] - bx.max[c] as f64)).fold(f64::MIN, f64::max);
                        ev.b("hit", true).i("dt", qd((th as f64 - t).abs() / et, 16.)).i("dp", qd(len(sub(ip, p)) / ep, 16.))
                            .i("plane", qd(dot(unit(g), sub(ip, v[0])).abs() / (EPS * coord.max(reach)), 16.))
                            .i("inside", qd(-bp.iter().cloned().fold(f64::MAX, f64::min) / eb, 16.))
                            .i("boxed", qd(outside / (EPS * coord), 16.)).i("dn", qd(len(sub(n, want)), 1e6)).a("frame", &frame(&i))
                    }
                }
            }) { Ok(e) => out.put(e.s("what", &desc).end()), Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()) }
        } else {
            // some spheres are as small as grains of dust
            let tiny = if r.chance(1, 3) { (10f64).powf(r.fr(-4., -1.)) } else { 1. };
            let (at, scale, dist) = (mul(at, tiny), scale * tiny, dist * tiny);
            let c = f32s(at);
            let rad = (scale * r.fr(0.1, 1.)) as f32 as f64;
            let d = f32s(mul(rdir(r), dl));
            let u = unit(d);
            let perp = { let w = rdir(r); let p = sub(w, mul(u, dot(w, u))); unit(p) };
            let miss = *r.pick(&[0., 0.5, 0.9, 0.999, 1.001, 1.5, 1e-4]) * rad;
            let o = f32s(sub(add(c, mul(perp, miss)), mul(u, *r.pick(&[dist, dist, -dist, 0., rad * 0.5]))));
            let oc = sub(o, c);
            let (aa, bb, cc) = (dot(d, d), dot(d, oc), dot(oc, oc) - rad * rad);
            let perp2 = dot(oc, oc) - bb * bb / aa;
            let disc = rad * rad - perp2.max(0.);
            let h = disc.max(0.).sqrt() / aa.sqrt();
            let (t0, t1) = ((-bb / aa) - h, (-bb / aa) + h);
            let coord = maxabs(c).max(maxabs(o));
            let el = EPS * (coord + len(oc)) * 16.;                       // rounding of positions
            // a root near the tangent moves with the square root of the error
            let et = (el / (disc.max(0.).sqrt() / rad).max((el / rad).sqrt())) / len(d) + 4. * EPS * t0.abs().max(t1.abs());
            let lim = *r.pick(&[t0, t1]) * r.fr(0.7, 1.6);
            let t_max = if r.chance(2, 3) || lim <= 0. { f32::INFINITY } else { lim as f32 };
            let ray = Ray { origin: pt(o), direction: vt(d), t_max };
            let sph = Sphere::new(pt(c), rad as f32, mat.clone());
            let _ = cc;
            let room = |t: f64| if t_max.is_infinite() { CLIP_I } else { qd((t_max as f64 - t) / et, 1.) };
            let desc = format!("sphere {:?} {} from {:?} along {:?} limit {:?}", c, rad, o, d, t_max);
            match guard(&|| desc.clone(), || {
                let ev = Ev::new("fsph").i("depth", qd((rad - perp2.max(0.).sqrt()) / el, 1.)).a("ahead", &[qd(t0 / et, 1.), qd(t1 / et, 1.)]).a("room", &[room(t0), room(t1)]).b("yes", sph.intersect_p(&ray));
                match sph.intersect(&ray) {
                    None => ev.b("hit", false),
                    Some((i, th)) => {
                        let (ip, n) = (dp(i.p), dn(i.n));
                        let ray_p = add(o, mul(d, th as f64));
                        let bx = sph.bbox();
                        let outside = (0..3).map(|c| (bx.min[c] as f64 - ip[c]).max(ip[c] - bx.max[c] as f64)).fold(f64::MIN, f64::max);
                        // the surface coordinates and the tangents that follow them
                        let q = unit(sub(ip, c));
                        let blur = 64. * EPS * (coord + rad) / rad;
                        let (ph, te) = (i.uv.x as f64, i.uv.y as f64);
                        let polar = [te.sin() * ph.cos(), te.sin() * ph.sin(), te.cos()];
                        let st = q[0].hypot(q[1]);
                        let round = 1e-3 + blur;
                        let (du, dv) = (vd(i.dpdu), vd(i.dpdv));
                        let turn = if st > 0.02 && blur < 1e-3 * st {
                            let (ex, ey) = (q[0] / st, q[1] / st);
                            [qd(len(sub(unit(du), [-ey, ex, 0.])), 1e4), qd(len(sub(unit(dv), [q[2] * ex, q[2] * ey, -st])), 1e4)]
                        } else { [0, 0] };
                        let ev = ev.i("uv", qd(len(sub(polar, q)) / round, 16.)).a("turn", &turn);
                        ev.b("hit", true).a("dt", &[qd((th as f64 - t0).abs() / et, 16.), qd((th as f64 - t1).abs() / et, 16.)]).i("dp", qd(len(sub(ip, ray_p)) / (el + EPS * 4. * (th as f64).abs() * len(d)), 16.))
                            .i("on", qd((len(sub(ip, c)) - rad).abs() / (EPS * (coord + rad)), 16.))
                            .i("boxed", qd(outside / (EPS * (coord + rad)), 16.)).i("dn", qd(len(sub(n, unit(sub(ip, c)))) / (EPS * (coord + rad) / rad), 16.)).a("frame", &frame(&i))
                    }
                }
            }) { Ok(e) => out.put(e.s("what", &desc).end()), Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()) }
        }
    }
}

/// A closed star-shaped mesh around `at`.
pub fn ball(r: &mut Rng, at: D3, scale: f64, mode: usize) -> (Vec<Point3f>, Vec<[usize; 3]>) {
    let mut v: Vec<D3> = Vec::new();
    let mut ix: Vec<[usize; 3]> = Vec::new();
    match mode {
        0 => { // box
            for k in 0..8 { v.push([if k & 1 == 0 { -1. } else { 1. }, if k & 2 == 0 { -1. } else { 1. }, if k & 4 == 0 { -1. } else { 1. }]); }
            for f in [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]].iter() { ix.push([f[0], f[1], f[2]]); ix.push([f[0], f[2], f[3]]); }
        }
        1 => { // octahedron
            for k in 0..3 { for s in [1., -1.].iter() { let mut p = [0.; 3]; p[k] = *s; v.push(p); } }
            for a in 0..2 { for b in 2..4 { for c in 4..6 { if (a + b + c) % 2 == 0 { ix.push([a, b, c]); } else { ix.push([a, c, b]); } } } }
        }
        _ => { // rings, pushed in and out
            let (m, n) = (r.i(2, 4) as usize, r.i(3, 7) as usize);
            v.push([0., 0., 1.]); v.push([0., 0., -1.]);
            for i in 0..m { for j in 0..n {
                let (th, ph) = (std::f64::consts::PI * (i + 1) as f64 / (m + 1) as f64, 2. * std::f64::consts::PI * (j as f64 + 0.3 * i as f64) / n as f64);
                let s = if mode == 2 { 1. } else { r.fr(0.6, 1.) };
                v.push([s * th.sin() * ph.cos(), s * th.sin() * ph.sin(), s * th.cos()]);
            } }
            let id = |i: usize, j: usize| 2 + i * n + j % n;
            for j in 0..n { ix.push([0, id(0, j), id(0, j + 1)]); ix.push([1, id(m - 1, j + 1), id(m - 1, j)]); }
            for i in 0..m - 1 { for j in 0..n { ix.push([id(i, j), id(i + 1, j), id(i + 1, j + 1)]); ix.push([id(i, j), id(i + 1, j + 1), id(i, j + 1)]); } }
        }
    }
    (v.iter().map(|x| pt(add(at, mul(*x, scale)))).collect(), ix)
}

fn seal(a: &Args, out: &mut Out, r: &mut Rng) {
    let mat: Arc<dyn Material> = Arc::new(Bare);
    for k in 0..a.scale(500, 12000) {
        let scale = (10f64).powf(r.fr(-2., 2.));
        let at = if r.b() { [0.; 3] } else { mul(rdir(r), scale * (10f64).powf(r.fr(-1., 1.5))) };
        let mode = r.n(4);
        let (vs, ix) = ball(r, at, scale, mode);
        let tris = Triangle::new_triangle_mesh(vs.clone().into_boxed_slice(), ix.clone().into_boxed_slice(), None, None, mat.clone());
        out.unit();
        out.put(Ev::new("unit").i("u", k as i64).end());
        for _ in 0..40 {
            // from a point inside, towards a vertex, a point of an edge, a point of a face, or anywhere
            let o = add(at, mul(rdir(r), scale * r.fr(0., 0.1)));
            let f = ix[r.n(ix.len())];
            let (x, y, z) = (dp(vs[f[0]]), dp(vs[f[1]]), dp(vs[f[2]]));
            let w = r.f();
            let target = match r.n(4) { 0 => x, 1 => add(mul(x, w), mul(y, 1. - w)), 2 => add(mul(x, 0.5), mul(y, 0.5)), _ => add(mul(x, w * 0.5), add(mul(y, 0.5), mul(z, 0.5 - w * 0.5))) };
            let o32 = pt(o);
            let d = if r.chance(3, 4) { let t = pt(target); t - o32 } else { let mut d = [0f32; 3]; d[r.n(3)] = if r.b() { 1. } else { -1. }; v3(d[0], d[1], d[2]) };
            let ray = Ray { origin: o32, direction: d, t_max: f32::INFINITY };
            let desc = format!("mesh of {} triangles around {:?} size {} from {:?} along {:?}", tris.len(), at, scale, o, (d.x, d.y, d.z));
            match guard(&|| desc.clone(), || (tris.iter().filter(|t| t.intersect_p(&ray)).count(), tris.iter().filter(|t| t.intersect(&ray).is_some()).count())) {
                Ok((y, h)) => out.put(Ev::new("seal").i("yes", y as i64).i("hits", h as i64).s("what", &desc).end()),
                Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()),
            }
        }
    }
}

/// Triangles that are a line or a point, and needles.
fn flat(a: &Args, out: &mut Out, r: &mut Rng) {
    let mat: Arc<dyn Material> = Arc::new(Bare);
    for k in 0..a.scale(6000, 200_000) {
        if k % 50 == 0 { out.unit(); out.put(Ev::new("unit").i("u", k as i64).end()); }
        let at = mul(rdir(r), r.fr(0., 3.));
        let e = mul(rdir(r), r.fr(0.1, 2.));
        let w = *r.pick(&[0.5, 2., -1., 0.1, 1., 0., 1e-4]);
        let v = [at, add(at, e), add(add(at, mul(e, w)), mul(rdir(r), *r.pick(&[0., 0., 1e-7, 1e-6, 1e-5])))];
        let s = r.f();
        let target = add(at, mul(e, s * w.max(1.)));
        let d = rdir(r);
        let o = sub(target, mul(d, r.fr(0.5, 20.)));
        let t32 = pt(target); let o32 = pt(o);
        let ray = Ray { origin: o32, direction: t32 - o32, t_max: f32::INFINITY };
        let tri = Triangle::new([pt(v[0]), pt(v[1]), pt(v[2])], None, false, mat.clone());
        let desc = format!("flat triangle {:?} from {:?} to {:?}", v, o, target);
        match guard(&|| desc.clone(), || (tri.intersect_p(&ray), tri.intersect(&ray))) {
            Ok((y, h)) => {
                let ev = Ev::new("flat").b("yes", y).b("hit", h.is_some());
                out.put(match h { Some((i, _)) => ev.a("frame", &frame(&i)).i("n", qd(len(dn(i.n)), 4096.)), None => ev }.s("what", &desc).end());
            }
            Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()),
        }
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC11);
    exact(a, &mut out, &mut r);
    float(a, &mut out, &mut r);
    seal(a, &mut out, &mut r);
    flat(a, &mut out, &mut r);
    out.finish();
}
