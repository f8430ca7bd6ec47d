//! C15: scripted lobes inside the real composition.
use std::sync::{Arc, Mutex};

use pt::api::*;
use pt::verif::interaction::*;
use pt::verif::reflection::*;
use pt::verif::vector::*;

use crate::mock::*;
use crate::util::*;

pub type I3 = [i64; 3];
/// A rotation with rational entries: rows s, t, n over q.
pub struct Frame { pub m: [I3; 3], pub q: i64 }
pub fn frame(r: &mut Rng, plain: bool) -> Frame {
    loop {
        let k = |r: &mut Rng| r.i(-2, 2);
        let (a, b, c, d) = if plain { *r.pick(&[(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (1, 1, 1, 1), (1, -1, 1, 1), (0, 1, 1, 0), (1, -1, 0, 0), (1, 1, -1, 1)]) }
            else { (k(r), k(r), k(r), k(r)) };
        let q = a * a + b * b + c * c + d * d;
        if q == 0 { continue; }
        let mut m = [
            [a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
            [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
            [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]];
        let mut q = q;
        if plain { for row in m.iter_mut() { for x in row.iter_mut() { *x /= q; } } q = 1; }
        return Frame { m, q };
    }
}
pub fn idot(a: I3, b: I3) -> i64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn ilen(a: I3) -> f64 { (idot(a, a) as f64).sqrt() }
pub fn uvec(a: I3) -> Vector3f { let l = ilen(a); v3((a[0] as f64 / l) as f32, (a[1] as f64 / l) as f32, (a[2] as f64 / l) as f32) }
pub fn idir(r: &mut Rng, m: i64) -> I3 { loop { let v = [r.i(-m, m), r.i(-m, m), r.i(-m, m)]; if v != [0; 3] { return v; } } }
impl Frame {
    pub fn at(&self, g: I3, stretch: f32) -> Interaction {
        let n = uvec(g);
        let sn = uvec(self.m[2]);
        Interaction { n: n3(n.x, n.y, n.z), sn: n3(sn.x, sn.y, sn.z), dpdu: uvec(self.m[0]) * stretch, dpdv: uvec(self.m[1]), ..Default::default() }
    }
    pub fn ev(&self, ev: Ev) -> Ev { ev.aa("m", &self.m.iter().map(|x| x.to_vec()).collect::<Vec<_>>()).i("q", self.q) }
}
/// A direction's integer components, and its length in 1/1024.
pub fn dir(ev: Ev, k: &str, v: I3) -> Ev { ev.a(k, &[v[0], v[1], v[2], (ilen(v) * 1024.).round() as i64]) }
pub fn fixed(v: Vector3f, s: f64) -> Vec<i64> { vec![q(v.x, s), q(v.y, s), q(v.z, s)] }

enum Call { F(Vector3f, Vector3f), Pdf(Vector3f, Vector3f), Sample(Vector3f, f32, f32) }
struct Scripted { k: usize, flag: BxDFFlag, f: I3, pdf: i64, wi: I3, none: bool, log: Arc<Mutex<Vec<(usize, Call)>>> }
impl Scripted {
    fn spec(&self) -> bool { self.flag & SPECULAR != 0 }
    fn val(&self) -> Spectrum { Spectrum::new(self.f[0] as f32, self.f[1] as f32, self.f[2] as f32) }
}
impl BxDF for Scripted {
    fn flag(&self) -> BxDFFlag { self.flag }
    fn f(&self, wo: Vector3f, wi: Vector3f) -> Spectrum { self.log.lock().unwrap().push((self.k, Call::F(wo, wi))); if self.spec() { Spectrum::default() } else { self.val() } }
    fn sample_f(&self, wo: Vector3f, s: Point2f) -> (Vector3f, Spectrum, f32) {
        self.log.lock().unwrap().push((self.k, Call::Sample(wo, s.x, s.y)));
        if self.none { return Default::default(); }
        (uvec(self.wi), self.val(), if self.spec() { 1. } else { self.pdf as f32 })
    }
    fn pdf(&self, wo: Vector3f, wi: Vector3f) -> f32 { self.log.lock().unwrap().push((self.k, Call::Pdf(wo, wi))); if self.spec() { 0. } else { self.pdf as f32 } }
}

const KINDS: [BxDFFlag; 7] = [REFLECTION | DIFFUSE, REFLECTION | GLOSSY, TRANSMISSION | DIFFUSE, TRANSMISSION | GLOSSY, REFLECTION | SPECULAR, TRANSMISSION | SPECULAR, REFLECTION | TRANSMISSION | GLOSSY];

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC15);
    for u in 0..a.scale(2500, 50000) {
        out.unit();
        out.put(Ev::new("unit").i("u", u as i64).end());
        let plain = r.b();
        let fr = frame(&mut r, plain);
        // the geometric normal: the shading normal, near it or anything
        let g = match r.n(4) { 0 => idir(&mut r, 3), 1 => { let d = idir(&mut r, 1); let m = fr.m[2]; [m[0] * 4 + d[0] * fr.q, m[1] * 4 + d[1] * fr.q, m[2] * 4 + d[2] * fr.q] } _ => fr.m[2] };
        let n = if u % 50 == 0 { 0 } else { let most = *r.pick(&[2, 6]); if u % 40 == 1 { *r.pick(&[8, 9, 11, 17, 33, 70]) } else { 1 + r.n(most) } };
        let log = Arc::new(Mutex::new(Vec::new()));
        let mut lobes: Vec<Vec<i64>> = Vec::new();
        let at = fr.at(g, *r.pick(&[1., 0.01, 30., 1e-6, 1e-4, 1e4, 1e7]));
        let mut bsdf = BSDF::new(&at);
        for k in 0..n {
            let l = Scripted { k, flag: *r.pick(&KINDS), f: [r.i(0, 50), r.i(0, 50), r.i(0, 50)], pdf: r.i(1, 50), wi: idir(&mut r, 4), none: r.chance(1, 8), log: log.clone() };
            lobes.push(vec![l.flag as i64, l.f[0], l.f[1], l.f[2], l.pdf, l.wi[0], l.wi[1], l.wi[2], (ilen(l.wi) * 1024.).round() as i64, l.none as i64]);
            bsdf.add(l);
        }
        let base = fr.ev(Ev::new("surface")).a("g", &g).aa("lobes", &lobes);
        out.put(base.end());
        let name = format!("{} lobes", n);
        // directions whose side is a matter of rounding are left out
        let clear = |w: I3, tangent: bool| (plain && g.iter().filter(|x| **x == 0).count() == 2 || idot(w, g) != 0) && (if tangent { plain } else { idot(w, fr.m[2]) != 0 });
        let calls = |ev: Ev| {
            let c = log.lock().unwrap().drain(..).collect::<Vec<_>>();
            let sampled: Vec<Vec<i64>> = c.iter().filter_map(|(k, c)| if let Call::Sample(wo, x, y) = c { let mut v = vec![*k as i64 + 1, q(*x, 65536.), q(*y, 65536.)]; v.extend(fixed(*wo, 4096.)); v.push((*x >= 0. && *x < 1. && *y >= 0. && *y < 1.) as i64); Some(v) } else { None }).collect();
            let asked: Vec<Vec<i64>> = c.iter().filter_map(|(_, c)| match c { Call::F(o, i) | Call::Pdf(o, i) => { let mut v = fixed(*o, 4096.); v.extend(fixed(*i, 4096.)); Some(v) } _ => None }).collect();
            ev.aa("sampled", &sampled).aa("asked", &asked)
        };
        for _ in 0..6 {
            let t = r.chance(1, 6);
            let pick = |r: &mut Rng, t: bool| loop {
                let w = if t { let (x, y) = (r.i(-3, 3), r.i(-3, 3)); let (s, t) = (fr.m[0], fr.m[1]); [s[0] * x + t[0] * y, s[1] * x + t[1] * y, s[2] * x + t[2] * y] } else { idir(r, 5) };
                if w == [0; 3] || !(idot(w, fr.m[2]) == 0 || !t) { continue; }
                if clear(w, idot(w, fr.m[2]) == 0) { return w; }
                if t && !plain { return [0; 3]; }
            };
            let mut wo = pick(&mut r, t);
            // nearly tangential
            if plain && !t && r.chance(1, 5) {
                let (m, (x, y), z) = (&fr.m, *r.pick(&[(350, 0), (0, 350), (-240, 240), (100, -300), (-90, 0)]), if r.b() { 1 } else { -1 });
                wo = [0, 1, 2].map(|i| m[0][i] * x + m[1][i] * y + m[2][i] * z);
                if !clear(wo, false) { continue; }
            }
            let wi = pick(&mut r, false);
            if wo == [0; 3] { continue; }
            log.lock().unwrap().clear();
            let got = guard(&|| name.clone(), || { let f = bsdf.f(uvec(wo), uvec(wi)); (f, bsdf.pdf(uvec(wo), uvec(wi))) });
            match got {
                Ok((f, p)) => out.put(calls(dir(dir(Ev::new("pair"), "wo", wo), "wi", wi)).a("f", &[q(f[0], 16.), q(f[1], 16.), q(f[2], 16.)]).i("pdf", q(p, 4096.)).end()),
                Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", name, e)).end()),
            }
            let (x, y) = (r.f() as f32, r.f() as f32);
            // at the borders between the lobes' shares: the last number before and the first behind
            let b = if n > 0 { let b = (1 + r.n(n)) as f32 / n as f32; let e = *r.pick(&[-1i32, -1, -2, -9, 0, 1, 5]); f32::from_bits((b.to_bits() as i32 + e) as u32).min(0.99999994) } else { x };
            let s = [*r.pick(&[x, x, b, b, 0., 0.99999994]), *r.pick(&[y, 0., 0.99999994])];
            log.lock().unwrap().clear();
            let got = guard(&|| name.clone(), || bsdf.sample_f(uvec(wo), Point2f::new(s[0], s[1])));
            match got {
                Ok((wi, f, p, flag)) => out.put(calls(dir(Ev::new("sample"), "wo", wo)).a("wi", &fixed(wi, 4096.)).a("f", &[q(f[0], 16.), q(f[1], 16.), q(f[2], 16.)]).i("pdf", q(p, 4096.)).i("flag", flag as i64).end()),
                Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", name, e)).end()),
            }
        }
        // every lobe gets its share of the numbers, evenly spread again
        if n > 0 && u % 10 == 0 {
            let wo = loop { let w = idir(&mut r, 5); if clear(w, false) && idot(w, fr.m[2]) != 0 { break w; } };
            let (nx, ny) = (16 * n, 16);
            log.lock().unwrap().clear();
            let got = guard(&|| name.clone(), || for i in 0..nx { for j in 0..ny { bsdf.sample_f(uvec(wo), Point2f::new((i as f32 + 0.5) / nx as f32, (j as f32 + 0.5) / ny as f32)); } });
            if let Err(e) = got { out.put(Ev::new("panic").s("what", &format!("{}: {}", name, e)).end()); continue; }
            let mut count = vec![vec![0i64; 16]; n];
            let mut off = 0;
            for (k, c) in log.lock().unwrap().drain(..) { if let Call::Sample(_, x, y) = c {
                if !(x >= 0. && x < 1. && y >= 0. && y < 1.) { off += 1; continue; }
                count[k][(x * 4.) as usize * 4 + (y * 4.) as usize] += 1;
            } }
            out.put(Ev::new("shares").i("each", 16).i("off", off).aa("count", &count).end());
        }
    }
    out.finish();
}
