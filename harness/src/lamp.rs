//! C14: real lights: densities, sides, what their samples reach and what is in the way.
use std::sync::Arc;

use pt::api::*;
use pt::verif::interaction::*;
use pt::verif::ray::*;
use pt::verif::shape::Shape;
use pt::verif::vector::*;

use crate::mock::*;
use crate::shape::*;
use crate::util::*;
use crate::walk::rdir;

type I3 = [i64; 3];
fn ipt(v: I3) -> Point3f { p3(v[0] as f32, v[1] as f32, v[2] as f32) }
fn d3(v: I3) -> D3 { [v[0] as f64, v[1] as f64, v[2] as f64] }
fn isub(a: I3, b: I3) -> I3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn idot(a: I3, b: I3) -> i64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn icross(a: I3, b: I3) -> I3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn point(r: &mut Rng, m: i64, step: i64) -> I3 { [r.i(-m, m) * step, r.i(-m, m) * step, r.i(-m, m) * step] }

/// `unit`: the size of the lattice, a power of two: nothing but the area depends on it.
struct Lamp { v: [I3; 3], n: I3, vn: Option<[I3; 3]>, rev: bool, unit: f32 }
fn lamp(r: &mut Rng) -> Lamp {
    loop {
        let v = [point(r, 2, 4), point(r, 2, 4), point(r, 2, 4)];
        let n = icross(isub(v[1], v[0]), isub(v[2], v[0]));
        if n == [0; 3] { continue; }
        let side = if r.b() { 1 } else { -1 };
        // vertex normals, all on one side
        let vn = if r.b() { let mut one = || loop { let w = point(r, 3, 1); if idot(w, n) * side > 0 { return w; } }; Some([one(), one(), one()]) } else { None };
        let unit = *r.pick(&[1., 1., 0.5, 0.03125, 0.0009765625, 0.000030517578125, 32., 4096.]);
        return Lamp { v, n, vn, rev: r.b(), unit };
    }
}
impl Lamp {
    fn ipt(&self, v: I3) -> Point3f { ipt(v) * self.unit }
    fn at(&self, o: I3) -> Interaction { Interaction { p: self.ipt(o), ..Default::default() } }
    fn triangle(&self) -> Triangle {
        let nf = |w: I3| { let u = unit(d3(w)); n3(u[0] as f32, u[1] as f32, u[2] as f32) };
        Triangle::new([self.ipt(self.v[0]), self.ipt(self.v[1]), self.ipt(self.v[2])], self.vn.map(|m| [nf(m[0]), nf(m[1]), nf(m[2])]), self.rev, Arc::new(Bare))
    }
    fn light(&self, l: I3) -> AreaLight { AreaLight::new(Spectrum::new(l[0] as f32, l[1] as f32, l[2] as f32), self.triangle()) }
    fn ev(&self, ev: Ev) -> Ev { ev.aa("v", &self.v.iter().map(|x| x.to_vec()).collect::<Vec<_>>()) }
}
fn towards(d: D3) -> Vector3f { let u = unit(d); v3(u[0] as f32, u[1] as f32, u[2] as f32) }

/// Smallest barycentric coordinate and distance where a ray meets the plane of a triangle.
fn meet(v: &[D3; 3], o: D3, d: D3) -> Option<(f64, f64)> {
    let n = cross(sub(v[1], v[0]), sub(v[2], v[0]));
    let den = dot(n, d);
    if den.abs() < 1e-9 * len(n) * len(d) { return None; }
    let t = dot(n, sub(v[0], o)) / den;
    let p = add(o, mul(d, t));
    let nn = dot(n, n);
    let b = |i: usize| { let (a, c) = (v[(i + 1) % 3], v[(i + 2) % 3]); dot(n, cross(sub(c, a), sub(p, a))) / nn };
    Some((b(0).min(b(1)).min(b(2)), t))
}

fn densities(a: &Args, out: &mut Out, r: &mut Rng) {
    for u in 0..a.scale(3000, 60000) {
        let m = lamp(r);
        out.unit();
        out.put(Ev::new("unit").i("u", u as i64).end());
        let c = [r.i(1, 9), r.i(1, 9), r.i(1, 9)];
        let light = m.light(c);
        for _ in 0..4 {
            let o = loop { let o = point(r, 8, 1); if idot(m.n, isub(o, m.v[0])) != 0 { break o; } };
            // a point of the plane on the lattice: inside, on the edge or outside
            let (x, y) = (r.i(-2, 5), r.i(-2, 5));
            let z = 4 - x - y;
            let mut t = [0i64; 3];
            for k in 0..3 { t[k] = (x * m.v[0][k] + y * m.v[1][k] + z * m.v[2][k]) / 4; }
            let mut d = isub(t, o);
            if d == [0; 3] { continue; }
            match r.n(8) { 0 => d = [-d[0], -d[1], -d[2]], 1 => d = isub(m.v[1], m.v[0]), _ => () }
            let dir = towards(d3(d));
            let got = guard(&|| format!("light at {:?} seen from {:?} along {:?} unit {}", m.v, o, d, m.unit), || light.pdf_li(&m.at(o), dir));
            match got {
                Ok(p) => out.put(m.ev(Ev::new("dens")).a("o", &o).a("d", &d).i("pdf", q(p, 32768.)).end()),
                Err(e) => out.put(Ev::new("panic").s("what", &e).end()),
            }
        }
        for _ in 0..4 {
            let o = loop { let o = point(r, 8, 1); if idot(m.n, isub(o, m.v[0])) != 0 { break o; } };
            let (x, y) = (r.f() as f32, r.f() as f32);
            let s = Point2f::new(*r.pick(&[x, x, 0.25, 0., 0.99999994]), *r.pick(&[y, y, 0.5, 0., 0.99999994]));
            let got = guard(&|| format!("light at {:?} sampled from {:?} with {:?} unit {}", m.v, o, s, m.unit), || {
                let (wi, l, pdf, _) = light.sample_li(&m.at(o), s);
                let again = light.pdf_li(&m.at(o), wi);
                let ray = Ray { origin: m.ipt(o), direction: wi, ..Default::default() };
                let seen = light.intersect(&ray).map(|(i, _)| light.l(&i, -wi));
                (wi, l, pdf, again, seen)
            });
            match got {
                Ok((wi, l, pdf, again, seen)) => {
                    let v = [d3(m.v[0]), d3(m.v[1]), d3(m.v[2])];
                    let w = dv(wi);
                    let (b, t) = meet(&v, d3(o), w).unwrap_or((-9., -9.));
                    let same = if pdf == again { 0 } else { (ord(pdf) - ord(again)).abs() };
                    let unit3 = |s: Spectrum| vec![q(s[0], 4.), q(s[1], 4.), q(s[2], 4.)];
                    let mut ev = m.ev(Ev::new("lit")).a("o", &o).b("rev", m.rev).a("c", &c).a("l", &unit3(l)).i("len", qd(len(w), 65536.)).i("in", qd(b, 1e6)).i("ahead", qd(t, 64.)).i("pdf", q(pdf, 32768.)).i("same", same)
                        .aa("vn", &m.vn.map(|x| x.iter().map(|y| y.to_vec()).collect::<Vec<_>>()).unwrap_or_default());
                    ev = ev.b("hit", seen.is_some());
                    if let Some(s) = seen { ev = ev.a("s", &unit3(s)); }
                    out.put(ev.end());
                }
                Err(e) => out.put(Ev::new("panic").s("what", &e).end()),
            }
        }
    }
}

/// Samples of a light are spread evenly over it.
fn spreads(a: &Args, out: &mut Out, r: &mut Rng) {
    for u in 0..a.scale(60, 1200) {
        let m = lamp(r);
        out.unit();
        out.put(Ev::new("unit").i("u", 100000 + u as i64).end());
        let light = m.light([1, 1, 1]);
        let o = point(r, 8, 1);
        let n = 192;
        let got = guard(&|| format!("light at {:?} sampled all over", m.v), || {
            let mut count = vec![0i64; 64];
            let mut off = 0;
            for i in 0..n { for j in 0..n {
                let p = mul(dp(light.sample_ref(&m.at(o), Point2f::new((i as f32 + 0.5) / n as f32, (j as f32 + 0.5) / n as f32)).p), 1. / m.unit as f64);
                // barycentric cell: the triangle divided by midpoints three times
                let nn = d3(m.n);
                let (v0, v1, v2) = (d3(m.v[0]), d3(m.v[1]), d3(m.v[2]));
                let b0 = dot(nn, cross(sub(v2, v1), sub(p, v1))) / dot(nn, nn);
                let b1 = dot(nn, cross(sub(v0, v2), sub(p, v2))) / dot(nn, nn);
                let (b0, b1, b2) = (b0 * 8., b1 * 8., (1. - b0 - b1) * 8.);
                if b0 < -1e-4 || b1 < -1e-4 || b2 < -1e-4 || (dot(nn, sub(p, v0)) / len(nn)).abs() > 1e-4 { off += 1; continue; }
                let (x, y) = (b0.floor().max(0.).min(7.), b1.floor().max(0.).min(7.));
                let upper = (b0 - x) + (b1 - y) > 1.;
                let (x, y) = (x as usize, y as usize);
                // row x holds 2 (8 - x) - 1 cells
                let k = (0..x).map(|i| 2 * (8 - i) - 1).sum::<usize>() + 2 * y.min(7 - x) + upper as usize;
                count[k.min(63)] += 1;
            } }
            (count, off)
        });
        // next to the corners and edges
        if u % 10 == 0 {
            let (sx, sy) = (r.fr(0., 1.), r.fr(0., 1.));
            let res = guard(&|| format!("light at {:?} sampled next to its corners", m.v), || {
                let (mut corner, mut edge) = (vec![vec![0i64; 8]; 3], vec![vec![0i64; 8]; 3]);
                let nn = d3(m.n);
                let (v0, v1, v2) = (d3(m.v[0]), d3(m.v[1]), d3(m.v[2]));
                for i in 0..1u32 << 20 {
                    let x = ((sx + i as f64 * 0.7548776662466927).fract() as f32).min(0.99999994);
                    let y = ((sy + i as f64 * 0.5698402909980532).fract() as f32).min(0.99999994);
                    let p = mul(dp(light.sample_ref(&m.at(o), Point2f::new(x, y)).p), 1. / m.unit as f64);
                    let b0 = dot(nn, cross(sub(v2, v1), sub(p, v1))) / dot(nn, nn);
                    let b1 = dot(nn, cross(sub(v0, v2), sub(p, v2))) / dot(nn, nn);
                    let b = [b0, b1, 1. - b0 - b1];
                    for c in 0..3 { for k in 0..8 { let lim = 1. / (2u32 << k) as f64; if b[c] > 1. - lim { corner[c][k] += 1; } if b[c] < lim { edge[c][k] += 1; } } }
                }
                (corner, edge)
            });
            match res {
                Ok((corner, edge)) => out.put(Ev::new("corners").aa("corner", &corner).aa("edge", &edge).end()),
                Err(e) => out.put(Ev::new("panic").s("what", &e).end()),
            }
        }
        match got {
            Ok((count, off)) => out.put(Ev::new("spread").i("n", (n * n) as i64).i("off", off).a("count", &count).end()),
            Err(e) => out.put(Ev::new("panic").s("what", &e).end()),
        }
    }
}

/// What lies between a point and a light, in whole scenes.
fn shades(a: &Args, out: &mut Out, r: &mut Rng) {
    for u in 0..a.scale(3000, 60000) {
        if u % 20 == 0 { out.unit(); }
        out.put(Ev::new("unit").i("u", 200000 + u as i64).end());
        let scale = (10f64).powf(r.fr(-2., 2.)) as f32 as f64;
        let far = *r.pick(&[0., 1., 1., 30.]) * scale;
        let home = mul(rdir(r), far);
        let place = |r: &mut Rng, m: f64| f32s(add(home, mul([r.fr(-1., 1.), r.fr(-1., 1.), r.fr(-1., 1.)], m * scale)));
        let tri = |r: &mut Rng, m: f64| loop {
            let c = place(r, m);
            let z = r.fr(0.2, 1.) * scale;
            let v = [f32s(add(c, mul(rdir(r), z))), f32s(add(c, mul(rdir(r), z))), f32s(add(c, mul(rdir(r), z)))];
            if len(cross(sub(v[1], v[0]), sub(v[2], v[0]))) > 0.1 * z * z { return v; }
        };
        let f = |v: D3| p3(v[0] as f32, v[1] as f32, v[2] as f32);
        let mat: Arc<dyn Material> = Arc::new(Bare);
        let nb = r.n(5);
        let blockers: Vec<[D3; 3]> = (0..nb).map(|_| tri(r, 3.)).collect();
        let distant = r.b();
        let o = place(r, 4.);
        let w = rdir(r);
        let lamp = tri(r, 4.);
        let rev = r.b();
        let desc = format!("{} blockers, scale {}, {} light", nb, scale, if distant { "distant" } else { "area" });
        let wlen = *r.pick(&[1., 0.1, 7.]);
        let s = Point2f::new(r.f() as f32, r.f() as f32);
        let got = guard(&|| desc.clone(), || {
            let mut b = Builder::new();
            // something else first or last, so that the order does not matter
            for t in blockers.iter() { b.add_shape(Triangle::new([f(t[0]), f(t[1]), f(t[2])], None, false, mat.clone())); }
            if distant {
                b.add_light(DistantLight::new(Spectrum::new(1., 2., 3.), v3((w[0] * wlen) as f32, (w[1] * wlen) as f32, (w[2] * wlen) as f32)));
                // area lights are in the way as well
                b.add_area_light(AreaLight::new(Spectrum::new(5., 5., 5.), Triangle::new([f(lamp[0]), f(lamp[1]), f(lamp[2])], None, rev, mat.clone())));
            } else {
                b.add_area_light(AreaLight::new(Spectrum::new(1., 2., 3.), Triangle::new([f(lamp[0]), f(lamp[1]), f(lamp[2])], None, rev, mat.clone())));
            }
            let scene = b.construct(|v| KdTree::new(v, None));
            let from = Interaction { p: f(o), ..Default::default() };
            let light = scene.lights().iter().find(|l| l.is_delta() == distant).expect("the light is not in the scene");
            let (wi, l, pdf, vis) = light.sample_li(&from, s);
            (wi, l, pdf, light.pdf_li(&from, towards(w)), light.pdf_li(&from, wi), vis.unoccluded(&scene), scene.lights().len())
        });
        match got {
            Ok((wi, l, pdf, other, again, clear, n)) => {
                let (d, range) = if distant { (w, f64::MAX) } else { let d = dv(wi); (d, meet(&lamp, o, d).map(|x| x.1).unwrap_or(f64::MAX)) };
                let mut ways: Vec<Vec<i64>> = Vec::new();
                let mut check = |t: &[D3; 3]| match meet(t, o, unit(d)) { Some((b, x)) => ways.push(vec![qd(b, 1e6), qd(x / scale, 1e4), if range == f64::MAX { 1_000_000_000 } else { qd((range - x) / scale, 1e4) }]), None => ways.push(vec![-1_000_000, 0, 0]) };
                for t in blockers.iter() { check(t); }
                if distant { check(&lamp); }
                out.put(Ev::new("shade").b("distant", distant).i("n", n as i64).b("clear", clear).aa("ways", &ways).i("turn", qd(len(sub(dv(wi), unit(d))), 1e6)).i("len", qd(len(dv(wi)), 65536.))
                    .a("l", &[q(l[0], 4.), q(l[1], 4.), q(l[2], 4.)]).i("pdf", q(pdf, 32768.)).i("other", q(other, 32768.)).i("again", q(again, 32768.)).i("blur", qd(far / scale * 1e-6 + 1e-4, 1e6)).s("what", &desc).end());
            }
            Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", desc, e)).end()),
        }
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC14);
    densities(a, &mut out, &mut r);
    spreads(a, &mut out, &mut r);
    shades(a, &mut out, &mut r);
    out.finish();
}
