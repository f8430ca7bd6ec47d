//! C21: walks over checkerboards, evaluated directly and through materials.
use std::sync::Arc;

use pt::api::*;
use pt::verif::interaction::*;
use pt::verif::texture::*;
use pt::verif::vector::*;

use crate::lobes::{frame, I3};
use crate::mock::*;
use crate::shape::*;
use crate::util::*;

struct Map { dim: i64, m: [I3; 3], o: I3, q: i64 }
impl Map {
    fn uv(&self) -> UVMapping2D { UVMapping2D::new(self.m[0][0] as f32 / 4., self.m[1][1] as f32 / 4., self.o[0] as f32 / 4., self.o[1] as f32 / 4.) }
    fn space(&self) -> IdentityMapping3D {
        let f = |r: usize, c: usize| (self.m[r][c] as f64 / (4 * self.q) as f64) as f32;
        let o = |r: usize| self.o[r] as f32 / 4.;
        IdentityMapping3D::new(Transform::from([[f(0, 0), f(0, 1), f(0, 2), o(0)], [f(1, 0), f(1, 1), f(1, 2), o(1)], [f(2, 0), f(2, 1), f(2, 2), o(2)], [0., 0., 0., 1.]]))
    }
    fn ev(&self) -> String { Ev::new("texture").i("dim", self.dim).aa("m", &self.m.iter().map(|x| x.to_vec()).collect::<Vec<_>>()).a("o", &self.o).i("q", self.q).end() }
}
fn det(m: &[I3; 3]) -> i64 { m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]) }
fn map(r: &mut Rng) -> Map {
    let o = if r.chance(1, 3) { [0; 3] } else { [r.i(-9, 9), r.i(-9, 9), r.i(-9, 9)] };
    let s = |r: &mut Rng| *r.pick(&[4i64, 4, 4, 1, 2, 8, 40, -4, -1, -8, 3, 20]);
    if r.chance(2, 5) { return Map { dim: 2, m: [[s(r), 0, 0], [0, s(r), 0], [0, 0, 0]], o: [o[0], o[1], 0], q: 1 }; }
    match r.n(4) {
        0 => Map { dim: 3, m: [[s(r), 0, 0], [0, s(r), 0], [0, 0, s(r)]], o, q: 1 },
        1 => { let v = s(r); let fr = frame(r, true); Map { dim: 3, m: fr.m.map(|row| row.map(|x| x * v)), o, q: 1 } }
        2 => loop { let mut m = [[0; 3]; 3]; for row in m.iter_mut() { for x in row.iter_mut() { *x = r.i(-4, 4); } } if det(&m) != 0 { return Map { dim: 3, m, o, q: 1 }; } },
        _ => { let v = s(r); let fr = frame(r, false); Map { dim: 3, m: fr.m.map(|row| row.map(|x| x * v)), o, q: fr.q } }
    }
}
fn clone_map(m: &Map) -> Map { Map { dim: m.dim, m: m.m, o: m.o, q: m.q } }

struct Board { plain: Arc<dyn Texture<Output = f32>>, colour: Arc<dyn Texture<Output = Spectrum>>, mats: Vec<(&'static str, Arc<dyn Material>)>, a: Spectrum, b: Spectrum }
fn board(r: &mut Rng, mp: &Map) -> Board {
    let mut c = || *r.pick(&[0.25f32, 0.5, 0.75]);
    let a = Spectrum::new(c(), c(), 0.25);
    let b = Spectrum::new(c(), c(), 0.5);
    let black = || Arc::new(ConstantTexture::new(Spectrum::new(0., 0., 0.)));
    let mp = clone_map(mp);
    let col = || -> Arc<dyn Texture<Output = Spectrum>> { if mp.dim == 2 { Arc::new(CheckerboardTexture::new(mp.uv(), a, b)) } else { Arc::new(Checkerboard3DTexture::new(mp.space(), a, b)) } };
    let plain: Arc<dyn Texture<Output = f32>> = if mp.dim == 2 { Arc::new(CheckerboardTexture::new(mp.uv(), 7f32, -3f32)) } else { Arc::new(Checkerboard3DTexture::new(mp.space(), 7f32, -3f32)) };
    let mats: Vec<(&'static str, Arc<dyn Material>)> = vec![
        ("matt", Arc::new(LambertianReflectionMaterial::new(col()))),
        ("mirror", Arc::new(MirrorMaterial::new(col()))),
        ("plastic", Arc::new(PlasticMaterial::new(col(), black(), Arc::new(ConstantTexture::new(0.5f32))))),
    ];
    Board { plain, colour: col(), mats, a, b }
}
fn same(x: Spectrum, y: Spectrum) -> bool { let (x, y) = (rgb(&x), rgb(&y)); (0..3).all(|k| (x[k] - y[k]).abs() < 1e-4) }
fn rgb(s: &Spectrum) -> [f32; 3] { [s.r, s.g, s.b] }

fn walk(out: &mut Out, r: &mut Rng) {
    let mp = map(r);
    out.unit();
    out.put(mp.ev());
    let mut lines: Vec<String> = Vec::new();
    let what = format!("mapping {:?} {:?}/{} offset {:?}", mp.dim, mp.m, mp.q, mp.o);
    let res = guard(&|| what.clone(), || {
        let bd = board(r, &mp);
        let mut p: I3 = [0; 3];
        for _ in 0..24 {
            match r.n(12) {
                0 => p = [r.i(-16, 16), r.i(-16, 16), r.i(-16, 16)],
                1 => { let far = if mp.q == 1 { 1 << 18 } else { 1 << 10 }; p = [r.i(-far, far), r.i(-far, far), r.i(-far, far)] }
                2 => { p = p.map(|x| -x) }
                3 => { p = p.map(|x| x / 8 * 8) }
                _ => { let k = r.n(mp.dim as usize); p[k] += *r.pick(&[-8i64, 8, -8, 8, -1, 1, -4, 4, 3, -16, 24]); }
            }
            let f = |k: usize| p[k] as f32 / 8.;
            let noise = || 0.3f32;
            let n = n3(0., 0., 1.);
            let wo = v3(0.36, 0.48, 0.8);
            let base = Interaction { n, sn: n, dpdu: v3(1., 0., 0.), dpdv: v3(0., 1., 0.), wo, ..Default::default() };
            let i = if mp.dim == 2 { Interaction { uv: Point2f::new(f(0), f(1)), p: p3(noise(), -5.25, 3.5), ..base } }
                else { Interaction { p: p3(f(0), f(1), f(2)), uv: Point2f::new(noise(), 1.75), ..base } };
            let x = bd.plain.evaluate(&i);
            let c = bd.colour.evaluate(&i);
            let v1 = if x == 7. { 1 } else if x == -3. { 2 } else { 0 };
            let which = |c: Spectrum| if same(c, bd.a) { 1 } else if same(c, bd.b) { 2 } else { 9 };
            // both kinds of values agree or it is neither
            let val = if v1 == which(c) { v1 } else { 0 };
            let (by, m) = r.pick(&bd.mats);
            let bsdf = m.compute_scattering(&i);
            let mat = match *by {
                "mirror" => { let (wi, f, pdf, _) = bsdf.sample_f(wo, Point2f::new(0.4, 0.7)); let k = if pdf > 0. { wi.z.abs() / pdf } else { 0. }; which(f * k) }
                _ => which(bsdf.f(wo, v3(-0.6, 0., 0.8)) * std::f32::consts::PI),
            };
            lines.push(Ev::new("at").a("p", &p).i("val", val).i("mat", mat).s("by", by).end());
        }
        let (a, s) = (r.fr(-9., 9.) as f32, Spectrum::new(r.f() as f32, r.f() as f32, r.f() as f32));
        let (ta, ts) = (ConstantTexture::new(a), ConstantTexture::new(s));
        let mut g = || r.fr(-100., 100.) as f32;
        let i = Interaction { p: p3(g(), g(), g()), uv: Point2f::new(g(), g()), n: n3(g(), g(), g()), wo: v3(g(), g(), g()), ..Default::default() };
        lines.push(Ev::new("constant").b("same", ta.evaluate(&i) == a && rgb(&ts.evaluate(&i)) == rgb(&s)).end());
    });
    for l in lines { out.put(l); }
    if let Err(e) = res { out.put(Ev::new("panic").s("what", &format!("{}: {}", e, what)).end()); }
}

/// Any magnitude: the mapping only shifts the binary point, so a coordinate of
/// the texture is exactly a mantissa times a power of two.
fn far(out: &mut Out, r: &mut Rng) {
    out.unit();
    let dim = 2 + r.n(2) as i64;
    let shift: Vec<i32> = { let one = r.chance(1, 2); let s = r.i(-30, 60) as i32; (0..3).map(|_| if one || dim == 3 { s } else { r.i(-30, 60) as i32 }).collect() };
    let p2 = |e: i32| (e as f64).exp2() as f32;
    let what = format!("mapping by powers of two {:?}", &shift[..dim as usize]);
    let mut lines: Vec<String> = Vec::new();
    let res = guard(&|| what.clone(), || {
        let tex: Box<dyn Texture<Output = f32>> = if dim == 2 { Box::new(CheckerboardTexture::new(UVMapping2D::new(p2(shift[0]), p2(shift[1]), 0., 0.), 7f32, -3f32)) }
            else { let s = p2(shift[0]); Box::new(Checkerboard3DTexture::new(IdentityMapping3D::new(Transform::from([[s, 0., 0., 0.], [0., s, 0., 0.], [0., 0., s, 0.], [0., 0., 0., 1.]])), 7f32, -3f32)) };
        for _ in 0..12 {
            let c: Vec<(i64, i32)> = (0..dim as usize).map(|k| {
                let bits = r.n(24) as u32;
                let m = r.i(0, (1i64 << bits) + 1) * if r.b() { 1 } else { -1 };
                let e = if r.chance(1, 3) { r.i(-30, 3) as i32 } else { r.i(-24, 50) as i32 };
                (m, e.min(100 - shift[k])) // a finite coordinate
            }).collect();
            // the exponent within the texture
            let at: Vec<Vec<i64>> = (0..dim as usize).map(|k| vec![c[k].0, (c[k].1 + shift[k]) as i64]).collect();
            let f = |k: usize| if k < c.len() { c[k].0 as f32 * p2(c[k].1) } else { 0.3 };
            let i = if dim == 2 { Interaction { uv: Point2f::new(f(0), f(1)), p: p3(0.3, 1.2, 4.5), ..Default::default() } } else { Interaction { p: p3(f(0), f(1), f(2)), uv: Point2f::new(0.3, 1.75), ..Default::default() } };
            let x = tex.evaluate(&i);
            lines.push(Ev::new("far").aa("c", &at).i("val", if x == 7. { 1 } else if x == -3. { 2 } else { 0 }).end());
        }
    });
    for l in lines { out.put(l); }
    if let Err(e) = res { out.put(Ev::new("panic").s("what", &format!("{}: {}", e, what)).end()); }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC21);
    for _ in 0..a.scale(1500, 150000) { walk(&mut out, &mut r); }
    for _ in 0..a.scale(500, 30000) { far(&mut out, &mut r); }
    out.finish();
}
