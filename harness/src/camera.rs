//! C20: rays of the perspective camera, alone and as the integrator sends them.
use std::sync::Mutex;

use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::camera::*;
use pt::verif::film::*;
use pt::verif::filter::*;
use pt::verif::vector::*;

use crate::lobes::{frame, Frame, I3};
use crate::mock::*;
use crate::shape::*;
use crate::util::*;

type Seen = (f32, f32, [f32; 3]);
static SEEN: Mutex<Vec<Seen>> = Mutex::new(Vec::new());
static ORIGINS: Mutex<Vec<[f32; 3]>> = Mutex::new(Vec::new());
fn observer(x: f32, y: f32, l: [f32; 3]) { SEEN.lock().unwrap_or_else(|e| e.into_inner()).push((x, y, l)); }

struct Shot { fr: Frame, pos: I3, tn: i64, td: i64, win: [i64; 4], res: [i64; 2], n: i64, f: i64, far: i64, tilt: i64, grow: i64, crop: u32 }
fn shot(r: &mut Rng) -> Shot {
    let plain = r.chance(1, 4);
    let fr = frame(r, plain);
    let (tn, td) = *r.pick(&[(1, 1), (1, 1), (1, 2), (3, 4), (1, 4), (2, 1), (4, 3), (1, 16), (3, 1), (5, 12), (1, 48), (16, 1), (40, 1)]);
    // a small window in a wide field: its corners in 2^-crop quarters
    let (tn, td, crop) = if r.chance(1, 5) { *r.pick(&[(16, 1, 4), (16, 1, 6), (40, 1, 5), (40, 1, 7), (3, 1, 3), (40, 1, 8)]) } else { (tn, td, 0) };
    let res = match r.n(5) { 0 => [r.i(1, 6), r.i(1, 6)], 1 => [r.i(500, 2800), r.i(500, 2800)], 2 => { let s = r.i(2, 64); [s, s] }, _ => [r.i(2, 64), r.i(2, 64)] };
    let win = match r.n(5) {
        0 => [-4, -4, 4, 4],
        1 => { let a = r.i(1, 8); [-4 * a / 4, -4, 4 * a / 4, 4] }
        2 => { let (a, b) = (r.i(1, 8), r.i(1, 8)); [-a, -b, a, b] }
        _ => { let (a, b, c, d) = (r.i(-8, 7), r.i(-8, 7), r.i(1, 8), r.i(1, 8)); [a, b, (a + c).min(8), (b + d).min(8)] }
    };
    let n = *r.pick(&[1, 4, 16, 16, 40, 160]);
    Shot { fr, pos: [r.i(-20, 20), r.i(-20, 20), r.i(-20, 20)], tn, td, win, res, n, f: n * r.i(2, 100).max(2), far: r.i(1, 12), tilt: match r.n(8) { 0..=3 => 0, 4 => *r.pick(&[-1, 1]) * r.i(20, 200), _ => r.i(-3, 3) }, grow: r.i(1, 4), crop }
}
impl Shot {
    fn fov(&self) -> f32 { (2. * (self.tn as f64 / self.td as f64).atan()).to_degrees() as f32 }
    fn perspective(&self) -> Transform { Transform::perspective(self.fov(), self.n as f32 / 16., self.f as f32 / 16.) }
    fn camera(&self) -> PerspectiveCamera {
        let p = |v: I3| p3(v[0] as f32, v[1] as f32, v[2] as f32);
        let (u, d) = (self.fr.m[1], self.fr.m[2]);
        let look = [0, 1, 2].map(|k| self.pos[k] + self.far * d[k]);
        let up = [0, 1, 2].map(|k| (self.grow * u[k] + self.tilt * d[k]) as f32);
        let w = |k: usize| self.win[k] as f32 / (4 << self.crop) as f32;
        PerspectiveCamera::new(Transform::look_at(p(self.pos), p(look), v3(up[0], up[1], up[2])), self.perspective(),
            BBox2f { min: Point2f::new(w(0), w(1)), max: Point2f::new(w(2), w(3)) }, Point2u::new(self.res[0] as u32, self.res[1] as u32))
    }
    fn ev(&self) -> String { Ev::new("camera").i("q", self.fr.q).aa("f", &self.fr.m.iter().map(|x| x.to_vec()).collect::<Vec<_>>()).a("pos", &self.pos).i("tn", self.tn).i("td", self.td << self.crop).a("win", &self.win).a("res", &self.res).end() }
    fn what(&self) -> String { format!("frame {:?}/{} pos {:?} tan {}/{} window {:?}/4/2^{} film {:?} planes {}/16 {}/16 target {} tilt {}", self.fr.m, self.fr.q, self.pos, self.tn, self.td, self.win, self.crop, self.res, self.n, self.f, self.far, self.tilt) }
}
fn unit_q(v: Vector3f) -> Vec<i64> { qv(dv(v), 16384.) }

fn one(out: &mut Out, r: &mut Rng, s: &Shot) {
    out.unit();
    out.put(s.ev());
    let mut lines: Vec<String> = Vec::new();
    let res = guard(&|| s.what(), || {
        let cam = if r.b() { s.camera() } else { s.camera().clone() };
        let go = |x: i64, y: i64| cam.generate_ray(&CameraSample { p_film: Point2f::new(x as f32 / 16., y as f32 / 16.) });
        let (w, h) = (16 * s.res[0], 16 * s.res[1]);
        let mut at = vec![(0, 0), (w, 0), (0, h), (w, h), (w / 2, h / 2)];
        for _ in 0..6 { at.push((r.i(0, w), r.i(0, h))); }
        // a film with a wide filter samples outside its window
        at.push((r.i(-64, 0), r.i(-64, h + 64)));
        at.push((r.i(w, w + 64), r.i(-64, h + 64)));
        for (x, y) in at {
            let ray = go(x, y);
            lines.push(Ev::new("ray").i("x", x).i("y", y).a("o", &qv(dp(ray.origin), 256.)).a("dir", &unit_q(ray.direction)).b("endless", ray.t_max == f32::INFINITY).end());
        }
        if s.win[0] == -s.win[2] && s.win[1] == -s.win[3] {
            let u = unit([0, 1, 2].map(|k| s.fr.m[1][k] as f64));
            let x = r.i(0, w);
            let up = |y: i64| qd(dot(dv(go(x, y).direction), u), 16384.);
            lines.push(Ev::new("centre").a("dir", &unit_q(go(w / 2, h / 2).direction)).i("top", up(0)).i("bottom", up(h)).end());
        }
        let t = s.perspective();
        for _ in 0..if s.crop == 0 { 2 } else { 0 } {
            let z = match r.n(4) { 0 => s.n, 1 => s.f, _ => r.i(s.n, s.f) };
            let m = 2 * z;
            let p = [r.i(-m, m), r.i(-m, m), z];
            let pt = p3(p[0] as f32 / 16., p[1] as f32 / 16., p[2] as f32 / 16.);
            let img = t.apply(&pt);
            let back = t.inverse_apply(&img);
            lines.push(Ev::new("project").i("n", s.n).i("f", s.f).a("p", &p).a("img", &qv(dp(img), 4096.)).a("back", &qv(dp(back), 4096.)).end());
        }
    });
    for l in lines { out.put(l); }
    if let Err(e) = res { out.put(Ev::new("panic").s("what", &format!("{}: {}", e, s.what())).end()); }
}

/// The same through the integrator: what the camera sends for each sample, seen from the scene.
fn picture(out: &mut Out, r: &mut Rng) {
    let mut s = shot(r);
    s.res = [r.i(1, 20), r.i(1, 20)];
    out.unit();
    out.put(s.ev());
    let salt = r.u64();
    let radius = *r.pick(&[0.5f32, 1., 1.5]);
    let threads = 1;
    SEEN.lock().unwrap_or_else(|e| e.into_inner()).clear();
    ORIGINS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let res = guard(&|| s.what(), || {
        let film = Film::new(Point2u::new(s.res[0] as u32, s.res[1] as u32), GaussianFilter::new(radius, 1.));
        let scene = screen_scene(|i| {
            ORIGINS.lock().unwrap_or_else(|e| e.into_inner()).push([i.p.x, i.p.y, i.p.z]);
            Spectrum::new(2. - i.wo.x, 2. - i.wo.y, 2. - i.wo.z)
        });
        let f = move |p: Point2i, k: u32, d: u32| Rng::new(salt ^ ((p.x as u64) << 40) ^ ((p.y as u64) << 20) ^ ((k as u64) << 8) ^ d as u64).n(16) as f32 / 16.;
        Integrator::new(scene, FnSampler::new(2, std::sync::Arc::new(f)), s.camera(), film).render(threads);
    });
    if let Err(e) = res { out.put(Ev::new("panic").s("what", &format!("{}: {}", e, s.what())).end()); return; }
    let seen = SEEN.lock().unwrap_or_else(|e| e.into_inner());
    let org = ORIGINS.lock().unwrap_or_else(|e| e.into_inner());
    if seen.len() != org.len() || seen.is_empty() { out.put(Ev::new("panic").s("what", &format!("{} rays for {} samples: {}", org.len(), seen.len(), s.what())).end()); return; }
    let (n, step) = (seen.len(), 1 + seen.len() / 60);
    for k in (r.n(step)..n).step_by(step) {
        let (x, y, l) = seen[k];
        let o = org[k];
        out.put(Ev::new("ray").i("x", q(x, 16.)).i("y", q(y, 16.)).a("o", &[q(o[0], 256.), q(o[1], 256.), q(o[2], 256.)])
            .a("dir", &[q(l[0] - 2., 16384.), q(l[1] - 2., 16384.), q(l[2] - 2., 16384.)]).b("endless", true).end());
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC20);
    pt::verif::observe_samples(observer);
    for _ in 0..a.scale(1500, 200000) { let s = shot(&mut r); one(&mut out, &mut r, &s); }
    for _ in 0..a.scale(150, 12000) { picture(&mut out, &mut r); }
    out.finish();
}
