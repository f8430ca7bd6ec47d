//! C16, C17: real materials: what their samples, densities and values add up to, and the laws of optics.
use std::f64::consts::PI;
use std::sync::Arc;

use pt::api::*;
use pt::verif::reflection::*;
use pt::verif::vector::*;

use crate::lobes::{frame, Frame, I3};
use crate::mock::*;
use crate::shape::*;
use crate::util::*;

fn col(c: I3) -> Arc<ConstantTexture<Spectrum>> { Arc::new(ConstantTexture::new(Spectrum::new(c[0] as f32 / 64., c[1] as f32 / 64., c[2] as f32 / 64.))) }
fn num(x: f32) -> Arc<ConstantTexture<f32>> { Arc::new(ConstantTexture::new(x)) }

/// Everything in 1/64, roughness in 1/1000.
#[derive(Clone)]
pub struct Mat { kind: &'static str, a: I3, b: I3, eta: I3, k: I3, ru: i64, rv: i64 }
impl Mat {
    fn build(&self) -> Arc<dyn Material> {
        let (ru, rv) = (self.ru as f32 / 1000., self.rv as f32 / 1000.);
        match self.kind {
            "lambert" => Arc::new(LambertianReflectionMaterial::new(col(self.a))),
            "mirror" => Arc::new(MirrorMaterial::new(col(self.a))),
            "metal" => Arc::new(MetalMaterial::new(col(self.a), col(self.eta), col(self.k), num(ru), num(rv))),
            "plastic" => Arc::new(PlasticMaterial::new(col(self.a), col(self.b), num(ru))),
            _ => Arc::new(GlassMaterial::new(col(self.a), col(self.b), num(self.eta[0] as f32 / 64.), num(ru), num(rv))),
        }
    }
    fn smooth(&self) -> bool { self.ru == 0 && (self.rv == 0 || self.kind == "plastic") }
    /// Next to the critical angle the fraction changes with the last bit of the direction.
    fn settled(&self, wo: D3, wi: D3) -> bool {
        if self.kind != "glass" { return true; }
        let eta = if wo[2] > 0. { self.eta[0] as f64 / 64. } else { 64. / self.eta[0] as f64 };
        let c = dot(wo, facet(wo, wi, eta));
        (1. - (1. - c * c) / (eta * eta)).abs() > 3e-3
    }
    fn desc(&self) -> String { format!("{} a {:?} b {:?} eta {:?} k {:?} roughness {} {}", self.kind, self.a, self.b, self.eta, self.k, self.ru, self.rv) }
    fn ev(&self, ev: Ev) -> Ev { ev.s("kind", self.kind).a("a", &self.a).a("b", &self.b).a("eta", &self.eta).a("k", &self.k).i("ru", self.ru).i("rv", self.rv) }
}
const KINDS: [&str; 5] = ["lambert", "mirror", "metal", "plastic", "glass"];
fn rough(r: &mut Rng, lo: i64) -> i64 { *r.pick(&[lo, 200, 350, 500, 1000]) }
fn mat(r: &mut Rng, kind: &'static str, lo: i64) -> Mat {
    let c = |r: &mut Rng| { if r.b() { let x = r.i(0, 64); [x, x, x] } else { [r.i(0, 64), r.i(0, 64), r.i(0, 64)] } };
    let (mut a, mut b) = (c(r), c(r));
    if kind == "plastic" { for i in 0..3 { b[i] = b[i].min(64 - a[i]); } }
    if kind == "glass" { match r.n(4) { 0 => a = [64; 3], 1 => b = [64; 3], 2 => { a = [64; 3]; b = [64; 3]; } _ => () } }
    let ru = rough(r, lo);
    let rv = if r.b() { ru } else { rough(r, lo) };
    let e = *r.pick(&[96, 85, 128, 70, 160, 48, 32]);
    let eta = if kind == "glass" { [e; 3] } else { [r.i(6, 200), r.i(6, 200), r.i(6, 200)] };
    let mut k = [r.i(0, 256), r.i(0, 256), r.i(0, 256)];
    let mut eta = eta;
    if kind == "metal" && r.chance(1, 6) { let c = r.n(3); k[c] = 0; if r.b() { eta[c] = 64; } }
    Mat { kind, a, b, eta, k, ru, rv }
}
/// Rows of a frame as vectors, and coordinates in it.
fn rows(f: &Frame) -> [D3; 3] { let g = |i: usize| { let m = f.m[i]; mul([m[0] as f64, m[1] as f64, m[2] as f64], 1. / f.q as f64) }; [g(0), g(1), g(2)] }
fn to(m: &[D3; 3], w: D3) -> Vector3f { let x = add(add(mul(m[0], w[0]), mul(m[1], w[1])), mul(m[2], w[2])); v3(x[0] as f32, x[1] as f32, x[2] as f32) }
fn from(m: &[D3; 3], v: Vector3f) -> D3 { let x = dv(v); [dot(m[0], x), dot(m[1], x), dot(m[2], x)] }
fn polar(z: f64, phi: f64) -> D3 { let s = (1. - z * z).max(0.).sqrt(); [s * phi.cos(), s * phi.sin(), z] }
fn ratio(a: f32, b: f32) -> i64 { if a == b { 65536 } else if a.is_nan() || b.is_nan() { NAN_I } else { qd(a as f64 / b as f64, 65536.) } }
/// Values of a sample and of its direction; what makes no difference is not compared.
fn ratios(f: Spectrum, g: Spectrum, pdf: f32) -> Vec<i64> { (0..3).map(|k| if (f[k] - g[k]).abs() < 1e-6 * pdf { 65536 } else { ratio(f[k], g[k]) }).collect() }
fn f3(s: Spectrum, k: f64) -> Vec<i64> { vec![q(s[0], k), q(s[1], k), q(s[2], k)] }

const Z: usize = 12;
const P: usize = 8;

/// Ledger of sampled directions against the reported density; what samples report; energy.
fn ledger(a: &Args, out: &mut Out, r: &mut Rng) {
    let n = 360;
    for u in 0..a.scale(150, 2500) {
        let kind = *r.pick(&["lambert", "metal", "metal", "plastic", "plastic", "glass", "glass", "glass"]);
        let mut m = mat(r, kind, 150);
        if kind == "plastic" && r.chance(1, 4) { m.ru = 0; m.rv = 0; }
        let side = if r.b() { 1. } else { -1. };
        let steep = if kind == "lambert" || m.smooth() && kind == "plastic" { *r.pick(&[0.15, 1e-2, 1e-4, 1e-6]) } else { *r.pick(&[0.15, 0.15, 0.05]) };
        let fr = if steep < 0.02 { [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]] } else { rows(&frame(r, r_plain(u))) };
        let at = FrameAt(&fr);
        let zo = if steep < 0.1 { steep } else { r.fr(0.15, 1.) } * side;
        let wo_l = if r.chance(1, 6) { [0., 0., side] } else { polar(zo, r.fr(0., 2. * PI)) };
        let wo = to(&fr, wo_l);
        out.unit();
        let got = guard(&|| m.desc(), || {
            let bsdf = m.build().compute_scattering(&at.interaction());
            let mut count = vec![0i64; Z * P];
            let (mut spec, mut none, mut odd) = (0i64, 0i64, 0i64);
            let mut e = [[0f64; 3]; 2];
            let mut kept: Vec<(Vector3f, Spectrum, f32, f32, Spectrum)> = Vec::new();
            for i in 0..n { for j in 0..n {
                let (wi, f, pdf, flag) = bsdf.sample_f(wo, Point2f::new((i as f32 + 0.5) / n as f32, (j as f32 + 0.5) / n as f32));
                if pdf == 0. { none += 1; continue; }
                if !(pdf > 0.) || pdf.is_infinite() || (0..3).any(|k| !(f[k] >= 0.) || f[k].is_infinite()) { odd += 1; continue; }
                let w = from(&fr, wi);
                if (dot(w, w) - 1.).abs() > 2e-4 { odd += 1; }
                let t = (w[2] * wo_l[2] < 0.) as usize;
                for k in 0..3 { e[t][k] += f[k] as f64 * w[2].abs() / pdf as f64; }
                if flag & SPECULAR != 0 { spec += 1; continue; }
                let zc = (((w[2] + 1.) / 2. * Z as f64) as usize).min(Z - 1);
                let pc = ((w[1].atan2(w[0]) / (2. * PI) + 1.).fract() * P as f64) as usize;
                count[zc * P + pc.min(P - 1)] += 1;
                if (i * 7 + j * 3) % 997 == 0 && w[2].abs() > 1e-3 && m.settled(wo_l, w) { kept.push((wi, f, pdf, bsdf.pdf(wo, wi), bsdf.f(wo, wi))); }
            } }
            let pdf = |z: f64, phi: f64| bsdf.pdf(wo, to(&fr, polar(z, phi))) as f64;
            let mass: Vec<i64> = (0..Z * P).map(|c| {
                let (z, p) = (2. / Z as f64, 2. * PI / P as f64);
                let (z0, p0) = (-1. + z * (c / P) as f64, p * (c % P) as f64);
                qd(integral(&pdf, z0, z, p0, p, 0), 1048576.)
            }).collect();
            (count, mass, spec, none, odd, e, kept)
        });
        match got {
            Ok((count, mass, spec, none, odd, e, kept)) => {
                let t = (n * n) as f64;
                let share: Vec<i64> = count.iter().map(|c| qd(*c as f64 / t, 1048576.)).collect();
                let en = |x: [f64; 3]| x.iter().map(|y| qd(y / t, 4096.)).collect::<Vec<_>>();
                out.put(m.ev(Ev::new("ledger")).b("above", side > 0.).i("z", qd(wo_l[2], 4096.)).i("spec", qd(spec as f64 / t, 1048576.)).i("none", qd(none as f64 / t, 1048576.)).i("odd", odd).a("share", &share).a("mass", &mass).a("refl", &en(e[0])).a("trans", &en(e[1])).end());
                for (_, f, pdf, p2, f2) in kept { out.put(Ev::new("same").i("pdf", ratio(pdf, p2)).a("f", &ratios(f, f2, pdf)).s("what", m.kind).end()); }
            }
            Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", m.desc(), e)).end()),
        }
    }
}
/// By subdivision where it has not settled.
fn integral(f: &dyn Fn(f64, f64) -> f64, z0: f64, z: f64, p0: f64, p: f64, depth: usize) -> f64 {
    let mid = |z0: f64, z: f64, p0: f64, p: f64, n: usize| { let mut s = 0.; for i in 0..n { for j in 0..n { s += f(z0 + z * (i as f64 + 0.5) / n as f64, p0 + p * (j as f64 + 0.5) / n as f64); } } s * z * p / (n * n) as f64 };
    if depth >= 3 {
        let (a, b) = (mid(z0, z, p0, p, 3), mid(z0, z, p0, p, 4));
        if (a - b).abs() < 5e-8 || depth >= 12 { return b; }
    }
    let mut s = 0.;
    for i in 0..2 { for j in 0..2 { s += integral(f, z0 + z / 2. * i as f64, z / 2., p0 + p / 2. * j as f64, p / 2., depth + 1); } }
    s
}
fn r_plain(u: usize) -> bool { u % 3 == 0 }
struct FrameAt<'a>(&'a [D3; 3]);
impl<'a> FrameAt<'a> {
    fn interaction(&self) -> pt::verif::interaction::Interaction {
        let v = |i: usize| { let x = self.0[i]; v3(x[0] as f32, x[1] as f32, x[2] as f32) };
        let n = v(2);
        pt::verif::interaction::Interaction { n: n3(n.x, n.y, n.z), sn: n3(n.x, n.y, n.z), dpdu: v(0), dpdv: v(1), ..Default::default() }
    }
}

/// Levels of the cells the microfacet normals are sorted into.
const LEVELS: [f64; 10] = [0., 0.02, 0.05, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9];
const TURNS: usize = 8;
fn unit(a: D3) -> D3 { mul(a, 1. / dot(a, a).sqrt()) }
/// The normal of the facet that sends wo to wi, upwards; eta: index on the other side over that on this one.
fn facet(wo: D3, wi: D3, eta: f64) -> D3 {
    let h = unit(if wo[2] * wi[2] > 0. { add(wo, wi) } else { add(wo, mul(wi, eta)) });
    if h[2] < 0. { mul(h, -1.) } else { h }
}
/// Where the facet whose slopes in units of the roughness are (x, y) sends wo.
fn sent(wo: D3, ax: f64, ay: f64, x: f64, y: f64, eta: Option<f64>) -> Option<D3> {
    let h = unit([ax * x, ay * y, 1.]);
    let h = if wo[2] < 0. { mul(h, -1.) } else { h };
    let c = dot(wo, h);
    match eta {
        None => Some(add(mul(wo, -1.), mul(h, 2. * c))),
        Some(e) => { let s2 = (1. - c * c) / (e * e); if s2 >= 1. || c <= 0. { None } else { Some(add(mul(wo, -1. / e), mul(h, c / e - (1. - s2).sqrt()))) } }
    }
}
/// Normals of the microfacets of rough surfaces, sampled and by the density, in cells fitted to the roughness.
/// Diffuse surfaces at their rim and around the normal: shares of 2^22 samples in shells of 2^-k of the squared cosine.
fn shells(a: &Args, out: &mut Out, r: &mut Rng) {
    const K: usize = 12;
    for u in 0..a.scale(6, 60) {
        let m = mat(r, "lambert", 100);
        let fr = rows(&frame(r, r_plain(u)));
        let side = if r.b() { 1. } else { -1. };
        let wo_l = polar(side * r.fr(0.1, 1.), r.fr(0., 2. * PI));
        let (sx, sy) = (r.fr(0., 1.), r.fr(0., 1.));
        out.unit();
        let got = guard(&|| m.desc(), || {
            let bsdf = m.build().compute_scattering(&FrameAt(&fr).interaction());
            let wo = to(&fr, wo_l);
            let (mut rim, mut top, mut odd, mut all) = (vec![0i64; K], vec![0i64; K], 0i64, 0i64);
            for i in 0..1u32 << 22 {
                let x = ((sx + i as f64 * 0.7548776662466927).fract() as f32).min(0.99999994);
                let y = ((sy + i as f64 * 0.5698402909980532).fract() as f32).min(0.99999994);
                let (wi, _, pdf, _) = bsdf.sample_f(wo, Point2f::new(x, y));
                if pdf == 0. { continue; }
                all += 1;
                let w = from(&fr, wi);
                if (dot(w, w) - 1.).abs() > 2e-4 { odd += 1; }
                let z2 = w[2] * w[2] / dot(w, w);
                let h2 = (w[0] * w[0] + w[1] * w[1]) / dot(w, w);
                for k in 0..K { let lim = 1. / (2u32 << k) as f64; if z2 < lim { rim[k] += 1; } if h2 < lim { top[k] += 1; } }
            }
            // the share the reported density puts there
            let mass = |z0: f64, z1: f64| -> i64 {
                let (n, t) = (64, 8);
                let mut sum = 0.;
                for i in 0..n { for j in 0..t {
                    let w = polar(side * (z0 + (z1 - z0) * (i as f64 + 0.5) / n as f64), 2. * PI * (j as f64 + 0.5) / t as f64);
                    sum += bsdf.pdf(wo, to(&fr, w)) as f64;
                } }
                qd(sum * (z1 - z0) * 2. * PI / (n * t) as f64, 4194304.)
            };
            let lim = |k: usize| 1. / (2u32 << k) as f64;
            let (mr, mt): (Vec<i64>, Vec<i64>) = ((0..K).map(|k| mass(0., lim(k).sqrt())).collect(), (0..K).map(|k| mass((1. - lim(k)).sqrt(), 1.)).collect());
            Ev::new("shells").i("all", all).i("odd", odd).a("rim", &rim).a("top", &top).a("massrim", &mr).a("masstop", &mt)
        });
        match got {
            Ok(ev) => out.put(ev.end()),
            Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", m.desc(), e)).end()),
        }
    }
}
fn facets(a: &Args, out: &mut Out, r: &mut Rng) {
    for u in 0..a.scale(240, 4000) {
        let kind = *r.pick(&["metal", "plastic", "glass", "glass"]);
        let mut m = mat(r, kind, 100);
        let width = |r: &mut Rng| *r.pick(&[1i64, 2, 5, 10, 20, 50, 100, 200, 400, 700, 1000, 1500]);
        m.ru = width(r); m.rv = if kind == "plastic" || r.b() { m.ru } else { width(r) };
        let oneway = kind != "plastic" && r.chance(1, 5);
        if oneway { let w = *r.pick(&[50, 100, 200, 400]); if r.b() { m.ru = w; m.rv = 0; } else { m.ru = 0; m.rv = w; } }
        m.a = [r.i(1, 64); 3]; m.b = [r.i(1, 64); 3];
        match kind { "plastic" => m.a = [0; 3], "glass" => match r.n(4) { 0 => m.a = [0; 3], 1 => m.b = [0; 3], _ => () }, _ => () }
        let fr = rows(&frame(r, r_plain(u)));
        let side = if r.b() { 1. } else { -1. };
        let tilted = r.b();
        let wo_l = if tilted { polar(side * r.fr(if kind == "glass" { 0.985 } else { 0.9 }, 1.), r.fr(0., 2. * PI)) } else { [0., 0., side] };
        let e = m.eta[0] as f64 / 64.;
        let eta = if side > 0. { e } else { 1. / e };
        let (ax, ay) = (m.ru as f64 / 1000., m.rv as f64 / 1000.);
        let levels = LEVELS.len() - 1;
        out.unit();
        let (n0, n1) = (1440, 72);
        let got = guard(&|| m.desc(), || {
            let bsdf = m.build().compute_scattering(&FrameAt(&fr).interaction());
            let wo = to(&fr, wo_l);
            let mut count = [vec![0i64; levels * TURNS], vec![0i64; levels * TURNS]];
            let mut row = [vec![0i64; 16], vec![0i64; 16]];
            for i in 0..n0 { for j in 0..n1 {
                let (wi, _, pdf, flag) = bsdf.sample_f(wo, Point2f::new((i as f32 + 0.5) / n0 as f32, (j as f32 + 0.5) / n1 as f32));
                if !(pdf > 0.) || flag & GLOSSY == 0 { continue; }
                let wi = from(&fr, wi);
                let t = (wi[2] * wo_l[2] < 0.) as usize;
                let h = facet(wo_l, wi, eta);
                let (x, y) = (h[0] / h[2], h[1] / h[2]);
                if oneway { let s = x / ax.max(1e-9) * (ax > 0.) as i64 as f64 + y / ay.max(1e-9) * (ay > 0.) as i64 as f64; row[t][((s / (1. + s * s).sqrt() + 1.) * 8.).min(15.) as usize] += 1; continue; }
                let s = (x / ax) * (x / ax) + (y / ay) * (y / ay);
                let c = s / (1. + s);
                let turn = (((y / ay).atan2(x / ax) / (2. * PI) + 1.).fract() * TURNS as f64) as usize;
                if let Some(k) = (0..levels).find(|k| c < LEVELS[k + 1]) { count[t][k * TURNS + turn.min(TURNS - 1)] += 1; }
            } }
            let mass = |eta: Option<f64>| (0..levels * TURNS).map(|k| {
                if oneway { return 0.; }
                let (c0, dc, t0, dt) = (LEVELS[k / TURNS], LEVELS[k / TURNS + 1] - LEVELS[k / TURNS], (k % TURNS) as f64 / TURNS as f64, 1. / TURNS as f64);
                let at = |c: f64, t: f64| { let s = (c / (1. - c)).sqrt(); sent(wo_l, ax, ay, s * (2. * PI * t).cos(), s * (2. * PI * t).sin(), eta) };
                let n = 5;
                let mut sum = 0.;
                for i in 0..n { for j in 0..n {
                    let (c, t) = (c0 + dc * (i as f64 + 0.5) / n as f64, t0 + dt * (j as f64 + 0.5) / n as f64);
                    let d = 1e-5;
                    if let (Some(w), Some(c1), Some(c2), Some(t1), Some(t2)) = (at(c, t), at(c - d, t), at(c + d, t), at(c, t - d), at(c, t + d)) {
                        let area = cross(add(c2, mul(c1, -1.)), add(t2, mul(t1, -1.)));
                        sum += bsdf.pdf(wo, to(&fr, w)) as f64 * dot(area, area).sqrt() / (4. * d * d);
                    }
                } }
                sum * dc * dt / (n * n) as f64
            }).collect::<Vec<_>>();
            (count, row, mass(None), mass(Some(eta)))
        });
        match got {
            Ok((count, row, m0, m1)) => {
                let t = (n0 * n1) as f64;
                let part = |c: &Vec<i64>| c.iter().map(|x| qd(*x as f64 / t, 1048576.)).collect::<Vec<_>>();
                let full = |c: &Vec<f64>| c.iter().map(|x| qd(*x, 1048576.)).collect::<Vec<_>>();
                for (what, c, row, mass) in [("reflected", &count[0], &row[0], &m0), ("transmitted", &count[1], &row[1], &m1)] {
                    if what == "transmitted" && kind != "glass" { continue; }
                    let ev = m.ev(Ev::new(if oneway { "oneway" } else { "facets" })).s("what", what).b("above", side > 0.).b("tilted", tilted);
                    out.put(if oneway { ev.a("share", &part(row)).end() } else { ev.a("share", &part(c)).a("mass", &full(mass)).end() });
                }
            }
            Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", m.desc(), e)).end()),
        }
    }
}
/// Outgoing directions close to the surface.
fn edges(a: &Args, out: &mut Out, r: &mut Rng) {
    let n = 192;
    for u in 0..a.scale(300, 6000) {
        let kind = *r.pick(&["lambert", "metal", "metal", "plastic", "plastic", "glass", "glass"]);
        let mut m = mat(r, kind, 150);
        if kind == "plastic" && r.chance(1, 4) { m.ru = 0; m.rv = 0; }
        let fr = if u % 2 == 0 { [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]] } else { rows(&frame(r, true)) };
        let z = *r.pick(&[0.03, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-9]);
        let wo_l = polar(if r.b() { z } else { -z }, r.fr(0., 2. * PI));
        let wo = to(&fr, wo_l);
        out.unit();
        let seed = r.n(1 << 30) as u64;
        let got = guard(&|| m.desc(), || {
            let mut r = Rng::new(seed);
            let bsdf = m.build().compute_scattering(&FrameAt(&fr).interaction());
            let mut e = [[0f64; 3]; 2];
            let mut odd = 0i64;
            let mut kept: Vec<(Spectrum, f32, f32, Spectrum)> = Vec::new();
            for i in 0..n * n + 400 {
                let s = if i < n * n { [((i / n) as f64 + 0.5) / n as f64, ((i % n) as f64 + 0.5) / n as f64] }
                        else { [r.n(2) as f64 * 0.5 + *r.pick(&[0., 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]) * r.f(), r.f()] };
                let (wi, f, pdf, flag) = bsdf.sample_f(wo, Point2f::new(s[0].min(0.9999) as f32, s[1].min(0.9999) as f32));
                if pdf == 0. { continue; }
                let w = from(&fr, wi);
                if !(pdf > 0.) || pdf.is_infinite() || (0..3).any(|k| !(f[k] >= 0.) || f[k].is_infinite()) {
                    // the side of a facet between nearly opposite directions is a matter of rounding
                    let rounding = pdf < 0. && pdf.is_finite() && (0..3).all(|k| f[k].is_finite()) && (0..3).all(|k| (wo_l[k] + w[k]).abs() < 1e-3);
                    if !rounding { odd += 1; }
                    continue;
                }
                if i < n * n { for k in 0..3 { e[(w[2] * wo_l[2] < 0.) as usize][k] += f[k] as f64 * w[2].abs() / pdf as f64; } continue; }
                if flag & SPECULAR != 0 || w[2].abs() < 1e-3 { continue; }
                let eta = m.eta[0] as f64 / 64.;
                let h = facet(wo_l, w, if wo_l[2] > 0. { eta } else { 1. / eta });
                // in single precision the facet between nearly opposite directions is known up to 1e-7 / dot
                if kind == "lambert" || (h[2] > 0.05 && dot(wo_l, h).abs() > 0.006 && dot(wo_l, h).abs() * (m.ru.min(m.rv).max(1)) as f64 / 1000. > 1e-4 && m.settled(wo_l, w)) { kept.push((f, pdf, bsdf.pdf(wo, wi), bsdf.f(wo, wi))); }
            }
            (e, odd, kept)
        });
        match got {
            Ok((e, odd, kept)) => {
                let g = |x: [f64; 3]| x.iter().map(|y| qd(y / (n * n) as f64, 4096.)).collect::<Vec<_>>();
                out.put(m.ev(Ev::new("edge")).b("above", wo_l[2] > 0.).i("z", qd(wo_l[2].abs(), 1e9)).i("odd", odd).a("refl", &g(e[0])).a("trans", &g(e[1])).end());
                for (f, pdf, p2, f2) in kept.into_iter().take(12) { out.put(Ev::new("same").i("pdf", ratio(pdf, p2)).a("f", &ratios(f, f2, pdf)).s("what", m.kind).end()); }
            }
            Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", m.desc(), e)).end()),
        }
    }
}

/// Values of pairs of directions, both ways round.
fn pairs(a: &Args, out: &mut Out, r: &mut Rng) {
    for u in 0..a.scale(1500, 30000) {
        let kind = *r.pick(&KINDS);
        let mut m = mat(r, kind, 100);
        let wild = r.chance(1, 3);
        if wild { m.ru = *r.pick(&[0, 1, 20, 300]); m.rv = *r.pick(&[0, 1, 20, 300]); }
        let fr = if wild { [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]] } else { rows(&frame(r, r_plain(u))) };
        out.unit();
        out.put(Ev::new("unit").i("u", u as i64).end());
        let built = guard(&|| m.desc(), || m.build().compute_scattering(&FrameAt(&fr).interaction()));
        let bsdf = match built { Ok(b) => b, Err(e) => { out.put(Ev::new("panic").s("what", &e).end()); continue; } };
        for _ in 0..10 {
            let dir = |r: &mut Rng| {
                let z = if wild { *r.pick(&[1e-3, 1e-6, 1e-10, 1e-18, 0.5, 1., 0.999]) } else { r.fr(0.05, 1.) };
                polar(if r.b() { z } else { -z }, r.fr(0., 2. * PI))
            };
            let wo = dir(r);
            let wi = match r.n(8) { 0 if wild => [-wo[0], -wo[1], wo[2]], 1 if wild => wo, 2 if wild => [-wo[0], -wo[1], -wo[2]], _ => dir(r) };
            let (o, i) = (to(&fr, wo), to(&fr, wi));
            let got = guard(&|| m.desc(), || (bsdf.f(o, i), bsdf.f(i, o), bsdf.pdf(o, i)));
            match got {
                Ok((f, g, p)) => out.put(m.ev(Ev::new("pair")).b("same", wo[2] * wi[2] > 0.).b("above", wo[2] > 0.).b("wild", wild)
                    .a("f", &f3(f, 65536.)).a("g", &f3(g, 65536.)).a("r", &[ratio(f[0], g[0]), ratio(f[1], g[1]), ratio(f[2], g[2])]).i("pdf", q(p, 65536.)).end()),
                Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", m.desc(), e)).end()),
            }
        }
    }
}

/// Smooth surfaces: every direction they send light in, and how much.
fn optics(a: &Args, out: &mut Out, r: &mut Rng) {
    for u in 0..a.scale(3000, 60000) {
        let mut m = mat(r, *r_kind(u), 100);
        m.ru = 0; m.rv = 0;
        if m.kind == "glass" && r.chance(1, 4) { m.eta = [*r.pick(&[16, 20, 24, 64, 200]); 3]; }
        if m.kind == "metal" { for i in 0..3 { if m.k[i] < 64 && (m.k[i], m.eta[i]) != (0, 64) { m.eta[i] = m.eta[i].max(80); } } }
        // colours may be larger than one
        if r.chance(1, 8) { for i in 0..3 { m.a[i] = r.i(0, 200); m.b[i] = r.i(0, 200); } }
        let fr = rows(&frame(r, r_plain(u / 5)));
        out.unit();
        for _ in 0..4 {
            let z = if r.chance(1, 6) { 1. } else if r.chance(1, 6) { r.fr(0.01, 0.1) } else { r.fr(0.1, 1.) };
            let mut side = if r.b() { 1. } else { -1. };
            let mut z = z;
            // next to the critical angle, where the other side is grazed
            let e = m.eta[0] as f64 / 64.;
            if m.kind == "glass" && e != 1. && r.chance(1, 5) {
                side = if e > 1. { -1. } else { 1. };
                let s = e.min(1. / e) * (1. - *r.pick(&[1e-2, 1e-3, 1e-4, 1e-5, -1e-5, -1e-4, -1e-3]));
                z = (1. - s * s).sqrt();
            }
            let wo = polar(side * z, r.fr(0., 2. * PI));
            let got = guard(&|| m.desc(), || {
                let bsdf = m.build().compute_scattering(&FrameAt(&fr).interaction());
                (0..8).map(|i| bsdf.sample_f(to(&fr, wo), Point2f::new((i as f32 + 0.5) / 8., r_second(i)))).collect::<Vec<_>>()
            });
            match got {
                Ok(v) => {
                    // one ray of every kind and direction, with all it carries on average
                    let mut rays: Vec<([i64; 4], [f64; 3])> = Vec::new();
                    for (wi, f, pdf, flag) in v.iter().filter(|x| x.2 != 0. && x.3 & SPECULAR != 0) {
                        let w = from(&fr, *wi);
                        let key = [*flag as i64, qd(w[0], 16384.), qd(w[1], 16384.), qd(w[2], 16384.)];
                        let at = rays.iter().position(|x| x.0 == key).unwrap_or_else(|| { rays.push((key, [0.; 3])); rays.len() - 1 });
                        for k in 0..3 { rays[at].1[k] += f[k] as f64 * w[2].abs() / *pdf as f64 / 8.; }
                    }
                    let rays: Vec<Vec<i64>> = rays.iter().map(|(k, e)| k.iter().cloned().chain(e.iter().map(|x| qd(*x, 16384.))).collect()).collect();
                    out.put(m.ev(Ev::new("optic")).a("wo", &[qd(wo[0], 16384.), qd(wo[1], 16384.), qd(wo[2], 16384.)]).aa("rays", &rays).end());
                }
                Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", m.desc(), e)).end()),
            }
        }
    }
}
/// Glass that hardly differs from what is around it: index 1 + e / 4096.
fn subtle(a: &Args, out: &mut Out, r: &mut Rng) {
    for u in 0..a.scale(600, 12000) {
        let e = *r.pick(&[1, 2, 5, 10, 20, 30, 41, 50, 60]);
        let fr = rows(&frame(r, r_plain(u / 5)));
        let z = *r.pick(&[1., 0.5, 0.25, 0.125, 0.0625, 0.03125]) * r.fr(0.8, 1.);
        let below = r.b();
        let n = 1. + e as f64 / 4096.;
        // the reflected fraction jumps to one there
        if below && ((1. - z * z) * n * n - 1.).abs() < 4e-4 { continue; }
        let wo = polar(if below { -z } else { z }, r.fr(0., 2. * PI));
        out.unit();
        let got = guard(&|| format!("glass of index {} seen from {:?}", n, wo), || {
            let mat: Arc<dyn Material> = Arc::new(GlassMaterial::new(col([64; 3]), col([64; 3]), num(n as f32), num(0.), num(0.)));
            let bsdf = mat.compute_scattering(&FrameAt(&fr).interaction());
            (0..2).map(|i| bsdf.sample_f(to(&fr, wo), Point2f::new(0.25 + 0.5 * i as f32, 0.4))).collect::<Vec<_>>()
        });
        match got {
            Ok(v) => {
                let rays: Vec<Vec<i64>> = v.iter().filter(|x| x.2 != 0.).map(|(wi, f, pdf, flag)| {
                    let w = from(&fr, *wi);
                    vec![*flag as i64, qd(w[0], 16384.), qd(w[1], 16384.), qd(w[2], 16384.), qd(f[1] as f64 * w[2].abs() / *pdf as f64 / 2., 16384.)]
                }).collect();
                out.put(Ev::new("subtle").i("over", e).i("c", qd(z, 4096.)).b("below", below).a("wo", &[qd(wo[0], 16384.), qd(wo[1], 16384.), qd(wo[2], 16384.)]).aa("rays", &rays).end());
            }
            Err(x) => out.put(Ev::new("panic").s("what", &format!("glass {}: {}", e, x)).end()),
        }
    }
}
fn r_second(i: usize) -> f32 { [0.1, 0.7, 0.4, 0.9][i % 4] }
fn r_kind(u: usize) -> &'static &'static str { &["mirror", "metal", "glass", "plastic", "glass"][u % 5] }

/// Surfaces with little roughness: all they reflect and transmit.
fn limits(a: &Args, out: &mut Out, r: &mut Rng) {
    let n = 96;
    for u in 0..a.scale(400, 8000) {
        let kind = *r.pick(&["metal", "glass", "glass", "plastic"]);
        let mut m = mat(r, kind, 100);
        m.ru = *r.pick(&[1, 2, 5, 20, 30]); m.rv = if r.b() { m.ru } else { *r.pick(&[1, 2, 5, 20, 30]) };
        if m.kind == "plastic" { m.a = [0; 3]; }
        if m.kind == "metal" { for i in 0..3 { if m.k[i] < 64 && (m.k[i], m.eta[i]) != (0, 64) { m.eta[i] = m.eta[i].max(80); } } }
        let fr = rows(&frame(r, r_plain(u)));
        let z = r.fr(0.4, 1.);
        let wo = polar(if r.b() { z } else { -z }, r.fr(0., 2. * PI));
        out.unit();
        let got = guard(&|| m.desc(), || {
            let bsdf = m.build().compute_scattering(&FrameAt(&fr).interaction());
            let mut e = [[0f64; 3]; 2];
            for i in 0..n { for j in 0..n {
                let (wi, f, pdf, _) = bsdf.sample_f(to(&fr, wo), Point2f::new((i as f32 + 0.5) / n as f32, (j as f32 + 0.5) / n as f32));
                if !(pdf > 0.) { continue; }
                let w = from(&fr, wi);
                for k in 0..3 { e[(w[2] * wo[2] < 0.) as usize][k] += f[k] as f64 * w[2].abs() / pdf as f64; }
            } }
            e
        });
        match got {
            Ok(e) => { let g = |x: [f64; 3]| x.iter().map(|y| qd(y / (n * n) as f64, 16384.)).collect::<Vec<_>>(); out.put(m.ev(Ev::new("limit")).i("z", qd(wo[2], 16384.)).a("refl", &g(e[0])).a("trans", &g(e[1])).end()) }
            Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", m.desc(), e)).end()),
        }
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC16);
    match a.extra.get(0).map(|s| s.as_str()) {
        Some("optics") => { optics(a, &mut out, &mut r); subtle(a, &mut out, &mut r); limits(a, &mut out, &mut r); }
        Some("facets") => { shells(a, &mut out, &mut r); facets(a, &mut out, &mut r); edges(a, &mut out, &mut r); }
        _ => { ledger(a, &mut out, &mut r); pairs(a, &mut out, &mut r); }
    }
    out.finish();
}
