//! C13 C14: whole paths through scripted worlds: tables say what every ray meets, how every place
//! scatters, what every light sends and what is blocked; the radiance is observed at the film.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::camera::*;
use pt::verif::container::*;
use pt::verif::interaction::*;
use pt::verif::ray::*;
use pt::verif::reflection::*;
use pt::verif::sampler::*;
use pt::verif::scene::*;
use pt::verif::vector::*;

use crate::mock::*;
use crate::util::*;

/// The directions of a scripted world; the cosine with the vertical is COS/5.
pub const DIRS: [[f32; 3]; 10] = [[0., 0., 1.], [0., 0., -1.], [0.6, 0., 0.8], [-0.6, 0., -0.8], [-0.6, 0., 0.8], [0.6, 0., -0.8], [0., 0.8, 0.6], [0., -0.8, -0.6], [0., -0.8, 0.6], [0., 0.8, -0.6]];
pub const ND: usize = 10;
pub const COS: [i64; ND] = [5, 5, 4, 4, 4, 4, 3, 3, 3, 3];
fn opp(d: usize) -> usize { d ^ 1 }
fn up(d: usize) -> bool { d & 1 == 0 }
fn dvec(d: usize) -> Vector3f { v3(DIRS[d][0], DIRS[d][1], DIRS[d][2]) }
fn dindex(v: Vector3f) -> usize {
    let l = v.length();
    for d in 0..ND { if v.dot(dvec(d)) > 0.99999 * l { return d; } }
    panic!("a direction of no table: {:?}", v)
}
/// Places sit on a line, the camera is place 0.
fn at(k: usize) -> Point3f { p3(64. * k as f32, 0., 0.) }
fn pindex(p: Point3f) -> usize {
    let k = (p.x / 64.).round();
    if (p - p3(64. * k, 0., 0.)).length() > 0.01 || k < 0. { panic!("a ray from no place: {:?}", p) }
    k as usize
}

#[derive(Clone, Default)]
pub struct Lobe { spec: bool, out: Vec<usize>, f: Vec<[i64; 3]>, wf: Vec<i64>, pdf: Vec<i64> }
#[derive(Clone, Default)]
pub struct LightT { area: bool, l: [i64; 3], dir: usize, pdf: Vec<Vec<i64>>, dirs: Vec<Vec<usize>>, face: Vec<Vec<bool>>, dist: Vec<Vec<f32>> }
#[derive(Clone, Default)]
pub struct World {
    k: usize, j: usize, pts: Vec<[f32; 2]>,
    next: Vec<Vec<usize>>, emit: Vec<usize>, glow: Vec<[i64; 3]>, gs: Vec<i64>, ss: Vec<i64>, lobes: Vec<Vec<Lobe>>,
    lights: Vec<LightT>, blk: Vec<Vec<bool>>, start: usize, start_dir: usize,
    /// Scale of all densities and scattering values, scale of all emission.
    su: f32, eu: f32,
    /// What the first place scatters is made faint and all emission strong to make up for it; the first place itself shows none.
    fade: f32,
}
impl World {
    /// A light without density makes up for the scale of the scattering values.
    fn shine(&self, t: &LightT) -> Spectrum { rgb(t.l, EMIT_UNIT * self.eu / self.fade / if t.area { 1. } else { self.su }) }
}
const EMIT_UNIT: f32 = 0.25;
const F_UNIT: f32 = 1. / 16.;
const PDF_UNIT: f32 = 0.25;
fn rgb(v: [i64; 3], u: f32) -> Spectrum { Spectrum::new(v[0] as f32 * u, v[1] as f32 * u, v[2] as f32 * u) }

/// A scripted lobe; lobes get directions of the surface's frame.
struct MockLobe { w: Arc<World>, k: usize, i: usize }
impl MockLobe {
    fn lobe(&self) -> &Lobe { &self.w.lobes[self.k][self.i] }
    fn turn(&self, v: Vector3f) -> Vector3f { if self.w.ss[self.k] > 0 { v } else { v3(v.x, -v.y, -v.z) } }
    fn value(&self, wo: usize, wi: usize) -> Spectrum { rgb(self.lobe().f[wi], F_UNIT * self.w.su * if self.k == self.w.start { self.w.fade } else { 1. } * self.lobe().wf[wo] as f32) }
}
impl BxDF for MockLobe {
    fn flag(&self) -> BxDFFlag { REFLECTION | TRANSMISSION | if self.lobe().spec { SPECULAR } else { DIFFUSE } }
    fn f(&self, wo: Vector3f, wi: Vector3f) -> Spectrum {
        if self.lobe().spec { return Spectrum::default(); }
        self.value(dindex(self.turn(wo)), dindex(self.turn(wi)))
    }
    fn sample_f(&self, wo: Vector3f, u: Point2f) -> (Vector3f, Spectrum, f32) {
        let j = point(&self.w, u.y);
        let wi = self.lobe().out[j];
        (self.turn(dvec(wi)), self.value(dindex(self.turn(wo)), wi), self.lobe().pdf[wi] as f32 * PDF_UNIT * self.w.su)
    }
    fn pdf(&self, _: Vector3f, wi: Vector3f) -> f32 {
        if self.lobe().spec { return 0.; }
        self.lobe().pdf[dindex(self.turn(wi))] as f32 * PDF_UNIT * self.w.su
    }
}
/// Which of the sample points, by the second coordinate.
fn point(w: &World, y: f32) -> usize {
    for (j, p) in w.pts.iter().enumerate() { if p[1] == y { return j; } }
    panic!("a sample point of no table: {}", y)
}
struct MockMaterial { w: Arc<World>, k: usize }
impl Material for MockMaterial {
    fn compute_scattering(&self, i: &Interaction) -> BSDF {
        let mut b = BSDF::new(i);
        for n in 0..self.w.lobes[self.k].len() { b.add(MockLobe { w: self.w.clone(), k: self.k, i: n }); }
        b
    }
}
fn place_of(i: &Interaction) -> usize { pindex(i.p) }
/// The shape of every place that is no light.
struct Ground { w: Arc<World> }
/// The shape of the places of one light, and what is sampled for it.
struct Lamp { w: Arc<World>, n: usize }
macro_rules! unit_box { () => { fn bbox(&self) -> BBox3f { BBox3f::new(p3(-2., -2., -2.), p3(2., 2., 2.)) } } }
impl Shape for Ground {
    unit_box!();
    fn area(&self) -> f32 { 0. }
    fn intersect_p(&self, _: &Ray) -> bool { false }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { Arc::new(Bare) }
    fn compute_scattering(&self, i: &Interaction) -> BSDF { MockMaterial { w: self.w.clone(), k: place_of(i) }.compute_scattering(i) }
    fn sample(&self, _: Point2f) -> Interaction { Interaction::default() }
    fn l(&self, i: &Interaction, _: Vector3f) -> Spectrum { rgb(self.w.glow[place_of(i)], EMIT_UNIT * self.w.eu / self.w.fade) }
}
impl Shape for Lamp {
    unit_box!();
    fn area(&self) -> f32 { self.n as f32 + 1. }
    fn intersect_p(&self, _: &Ray) -> bool { false }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { Arc::new(AnyMaterial { w: self.w.clone() }) }
    fn sample(&self, _: Point2f) -> Interaction { Interaction::default() }
    fn sample_ref(&self, r: &Interaction, u: Point2f) -> Interaction {
        let (k, j) = (place_of(r), point(&self.w, u.y));
        if (u.x - self.w.pts[j][0]).abs() > 1e-6 { panic!("the two halves of a sample come from different draws"); }
        let t = &self.w.lights[self.n];
        let d = dvec(t.dirs[k][j]);
        let n = if t.face[k][j] { -d } else { d };
        Interaction { p: r.p + d * t.dist[k][j], n: Normal3f::from(n), sn: Normal3f::from(n), ..Default::default() }
    }
    fn pdf(&self, r: &Interaction, wi: Vector3f) -> f32 { self.w.lights[self.n].pdf[place_of(r)][dindex(wi)] as f32 * PDF_UNIT * self.w.su }
}
struct AnyMaterial { w: Arc<World> }
impl Material for AnyMaterial {
    fn compute_scattering(&self, i: &Interaction) -> BSDF { MockMaterial { w: self.w.clone(), k: place_of(i) }.compute_scattering(i) }
}
/// What every ray meets.
struct Maze { w: Arc<World>, ground: Arc<dyn Shape>, lamps: Vec<Arc<dyn Shape>> }
impl Container for Maze {
    fn bbox(&self) -> BBox3f { BBox3f::new(p3(-2., -2., -2.), p3(2., 2., 2.)) }
    fn intersect_p(&self, r: &Ray) -> bool { self.w.blk[pindex(r.origin)][dindex(r.direction)] }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        let (from, d) = (pindex(r.origin), dindex(r.direction));
        let k = self.w.next[from][d];
        if k == 0 { return None; }
        let e = self.w.emit[k];
        Some(Interaction { p: at(k), n: Normal3f::from(dvec(self.w.gs[k] as usize)), sn: n3(0., 0., self.w.ss[k] as f32), dpdu: v3(2., 0., 0.), dpdv: v3(0., 2. * self.w.ss[k] as f32, 0.), wo: -r.direction,
            shape: Some(if e > 0 { self.lamps[e - 1].clone() } else { self.ground.clone() }), ..Default::default() })
    }
}
#[derive(Clone)]
struct Eye { d: usize }
impl Camera for Eye { fn generate_ray(&self, _: &CameraSample) -> Ray { Ray { origin: at(0), direction: dvec(self.d), ..Default::default() } } }

fn addr<T: ?Sized>(x: &T) -> usize { x as *const T as *const u8 as usize }
/// Which light of the world each light of the scene is.
fn order(w: &Arc<World>) -> Vec<usize> {
    let (s, lamps) = scene_of(w);
    let r = Interaction { p: at(1), n: n3(0., 0., 1.), sn: n3(0., 0., 1.), ..Default::default() };
    let mut left: Vec<usize> = (0..w.lights.len()).collect();
    s.lights().iter().map(|l| {
        let f = left.iter().position(|n| {
            let t = &w.lights[*n];
            if t.area { addr(&**l) == addr(&*lamps[*n]) }
            else if l.is_delta() { let (wi, li, _, _) = l.sample_li(&r, Point2f::new(0.5, 0.5)); wi.dot(dvec(t.dir)) > 0.999 && (0..3).all(|c| li[c] == w.shine(t)[c]) }
            else { false }
        }).expect("a light of the scene is none of those added");
        left.remove(f)
    }).collect()
}
fn scene(w: &Arc<World>) -> Scene<Maze> { scene_of(w).0 }
fn scene_of(w: &Arc<World>) -> (Scene<Maze>, Vec<Arc<dyn Shape>>) {
    let mut b = Builder::new();
    for (n, t) in w.lights.iter().enumerate() {
        if t.area { b.add_area_light(AreaLight::new(w.shine(t), Lamp { w: w.clone(), n })); }
        else { b.add_light(DistantLight::new(w.shine(t), dvec(t.dir))); }
    }
    b.add_shape(Ground { w: w.clone() });
    let w = w.clone();
    let kept = Arc::new(Mutex::new(Vec::new()));
    let keep = kept.clone();
    let s = b.construct(move |shapes| {
        // every shape says which one it is
        let mut lamps: Vec<Arc<dyn Shape>> = w.lights.iter().map(|_| shapes[0].clone()).collect();
        let mut ground = shapes[0].clone();
        for s in shapes.iter() { let n = s.area() as usize; if n == 0 { ground = s.clone(); } else { lamps[n - 1] = s.clone(); } }
        *keep.lock().unwrap() = lamps.clone();
        Maze { w: w.clone(), ground, lamps }
    });
    let lamps = kept.lock().unwrap().clone();
    (s, lamps)
}

/// Where the draws of a sample come from.
enum Draws {
    /// All sequences of digits.
    All { n1: usize, tape: Vec<(usize, usize)>, pos: usize, limit: usize },
    /// Constant 2-D point per sample, 1-D values by index.
    Each { list: Vec<(usize, Vec<f32>, f32)>, cur: usize, n: usize },
}
struct Rec { samples: Vec<[f32; 3]>, started: usize, n1: Vec<usize>, over: bool }
static REC: Mutex<Rec> = Mutex::new(Rec { samples: Vec::new(), started: 0, n1: Vec::new(), over: false });
fn note(_: f32, _: f32, l: [f32; 3]) { REC.lock().unwrap_or_else(|e| e.into_inner()).samples.push(l); }

struct Tape { w: Arc<World>, d: Arc<Mutex<Draws>> }
impl Clone for Tape { fn clone(&self) -> Tape { Tape { w: self.w.clone(), d: self.d.clone() } } }
impl Tape {
    fn digit(&self, base: usize) -> usize {
        match *self.d.lock().unwrap() {
            Draws::All { ref mut tape, ref mut pos, .. } => { if *pos == tape.len() { tape.push((0, base)); } let v = tape[*pos].0; *pos += 1; v }
            _ => unreachable!(),
        }
    }
}
impl Sampler for Tape {
    fn start_pixel(&mut self, _: Point2i) { REC.lock().unwrap().started += 1; }
    fn start_next_sample(&mut self) -> bool {
        let mut rec = REC.lock().unwrap_or_else(|e| e.into_inner());
        let more = match *self.d.lock().unwrap() {
            Draws::All { ref mut tape, ref mut pos, limit, .. } => {
                tape.truncate(*pos);
                *pos = 0;
                while let Some(&(v, b)) = tape.last() { if v + 1 == b { tape.pop(); } else { break; } }
                if let Some(t) = tape.last_mut() { t.0 += 1; }
                if rec.started >= limit { rec.over = true; }
                !tape.is_empty() && rec.started < limit
            }
            Draws::Each { ref list, ref mut cur, ref mut n } => { rec.n1.push(*n); *n = 0; *cur += 1; *cur < list.len() }
        };
        if more { rec.started += 1; }
        more
    }
    fn get_1d(&mut self) -> f32 {
        let n1 = match *self.d.lock().unwrap() {
            Draws::All { n1, .. } => n1,
            Draws::Each { ref list, cur, ref mut n } => { let v = list[cur].1.get(*n).cloned().unwrap_or(list[cur].2); *n += 1; return v; }
        };
        (2 * self.digit(n1) + 1) as f32 / (2 * n1) as f32
    }
    fn get_2d(&mut self) -> Point2f {
        let j = match *self.d.lock().unwrap() { Draws::Each { ref list, cur, .. } => Some(list[cur].0), _ => None };
        let j = j.unwrap_or_else(|| self.digit(self.w.j));
        Point2f::new(self.w.pts[j][0], self.w.pts[j][1])
    }
    fn get_camera_sample(&mut self, p: Point2i) -> CameraSample { CameraSample { p_film: Point2f::new(p.x as f32 + 0.5, p.y as f32 + 0.5) } }
}

/// One render of one pixel; the radiance of every sample, in order, and how many were started.
fn shoot(w: &Arc<World>, draws: Draws) -> (Vec<[f32; 3]>, usize, Vec<usize>, bool) {
    { let mut r = REC.lock().unwrap_or_else(|e| e.into_inner()); *r = Rec { samples: Vec::new(), started: 0, n1: Vec::new(), over: false }; }
    let film = Film::new(Point2u::new(1, 1), GaussianFilter::new(0.5, 1.));
    let s = Tape { w: w.clone(), d: Arc::new(Mutex::new(draws)) };
    Integrator::new(scene(w), s, Eye { d: w.start_dir }, film).render(1);
    let mut r = REC.lock().unwrap_or_else(|e| e.into_inner());
    let samples = std::mem::replace(&mut r.samples, Vec::new()).iter().map(|s| [s[0] / w.eu, s[1] / w.eu, s[2] / w.eu]).collect();
    (samples, r.started, std::mem::replace(&mut r.n1, Vec::new()), r.over)
}

// ---------- worlds ----------
/// layers: DAG with this many layers of scattering places; 0: a cyclic chain.
fn world(r: &mut Rng, layers: usize, small: bool) -> World { world_of(r, layers, small, None) }
fn world_of(r: &mut Rng, layers: usize, small: bool, crowd: Option<usize>) -> World {
    let mut w = World { su: *r.pick(&[1., 1., 1. / 4096., 1e-6f64.log2().round().exp2() as f32, 1024., 1048576.]), eu: *r.pick(&[1., 1., 1. / 1048576., 65536., 1. / 64.]), fade: 1., ..World::default() };
    let steep = r.chance(2, 3);
    let nlight = if let Some(n) = crowd { n } else if layers == 0 { r.n(2) } else if small { 1 + r.n(2) } else { *r.pick(&[0, 1, 1, 2, 2, 3]) };
    let maxl = if small { 2 } else { *r.pick(&[1, 2, 2, 3, 4]) };
    w.j = if small { 2 } else if maxl == 3 { 6 } else { 4 };
    let mut perm: Vec<usize> = (0..w.j).collect();
    r.shuffle(&mut perm);
    w.pts = (0..w.j).map(|j| [(2 * j + 1) as f32 / (2 * w.j) as f32, (2 * perm[j] + 1) as f32 / (2 * w.j) as f32]).collect();
    let per = if layers == 0 { 1 + r.n(4) } else { 1 + r.n(3) };
    w.k = if layers == 0 { per } else { per * layers + 2 };
    let layer = |k: usize| if k == 0 { 0 } else { (k - 1) / per + 1 };
    let reds = [[1i64, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [2, 1, 3]];
    let hue = r.chance(if layers == 0 { 2 } else { 1 }, 5);
    let colour = |r: &mut Rng, m: i64| -> [i64; 3] { if hue && r.b() { let c = *r.pick(&reds); let k = r.i(1, 1.max(m / 3)); [c[0] * k, c[1] * k, c[2] * k] } else { [r.i(1, m), r.i(1, m), r.i(1, m)] } };
    // distant lights first: the scene lists area lights last
    let nd = if layers == 0 { r.n(nlight + 1) } else { if nlight == 0 { 0 } else { r.n(nlight) } };
    for i in 0..nlight {
        let area = i >= nd;
        let mut t = LightT { area, l: colour(r, 8), dir: r.n(ND), ..Default::default() };
        for _ in 0..=w.k {
            t.pdf.push((0..ND).map(|_| *r.pick(&[0, 1, 1, 2, 4, 8, 3])).collect());
            t.dirs.push((0..w.j).map(|_| r.n(ND)).collect());
            t.face.push((0..w.j).map(|_| !r.chance(1, 4)).collect());
            t.dist.push((0..w.j).map(|_| r.i(1, 9) as f32 * 0.5).collect());
        }
        w.lights.push(t);
    }
    for k in 0..=w.k {
        let last = layers != 0 && layer(k) > layers;
        w.next.push((0..ND).map(|_| {
            if k == 0 { return 1 + r.n(per); }
            if layers == 0 { return 1 + r.n(w.k); }
            if last || r.chance(1, 6) { return 0; }
            let first = layer(k) * per + 1;
            first + r.n(w.k + 1 - first)
        }).collect());
        let areas: Vec<usize> = (0..nlight).filter(|i| w.lights[*i].area).collect();
        w.emit.push(if k > 0 && !areas.is_empty() && r.chance(1, 2) { *r.pick(&areas) + 1 } else { 0 });
        w.glow.push(if layers == 0 || r.chance(1, 3) { colour(r, 6) } else { [0; 3] });
        w.gs.push(r.n(if steep { ND } else { 2 }) as i64);
        w.ss.push(if r.b() { 1 } else { -1 });
        w.blk.push((0..ND).map(|_| r.chance(1, 5)).collect());
        let mut lobes = Vec::new();
        let nl = if last { r.n(2) } else if layers == 0 { 1 } else { let n = 1 + r.n(maxl); if w.j == 6 { n } else if n == 3 { 4 } else { n } };
        let nl = if last && r.b() { 0 } else { nl };
        for _ in 0..nl {
            let spec = r.chance(1, 2);
            let mut lo = Lobe { spec, ..Default::default() };
            lo.out = (0..w.j).map(|_| r.n(ND)).collect();
            for d in 0..ND {
                let used = lo.out.contains(&d);
                if layers == 0 {
                    // f cos / pdf at most one: f/16 * cos/5 * 4/pdf
                    let p = *r.pick(&[1, 2, 4]);
                    let m = 20 * p / COS[d];
                    let full = r.chance(1, 2);
                    let one = |r: &mut Rng| if full { m } else { r.i(1.max(m / 2), m) };
                    lo.pdf.push(p);
                    lo.f.push(if hue && r.chance(1, 3) { let c = *r.pick(&reds); [c[0].min(1) * m, c[1].min(1) * m, c[2].min(1) * m] } else { [one(r), one(r), one(r)] });
                } else {
                    lo.pdf.push(if used { *r.pick(&[1, 2, 4, 8, 3]) } else { *r.pick(&[0, 1, 2, 4]) });
                    lo.f.push(if r.chance(1, 8) { [0; 3] } else { colour(r, 16) });
                }
                lo.wf.push(if layers == 0 { 1 } else { r.i(1, 2) });
            }
            lobes.push(lo);
        }
        w.lobes.push(lobes);
    }
    // a blocked direction leads somewhere all the same; a light's own density is zero where it is missed
    w.start_dir = r.n(ND);
    w.start = w.next[0][w.start_dir];
    w
}
fn faint(r: &mut Rng, mut w: World) -> World {
    if r.chance(1, 3) {
        w.fade = *r.pick(&[1. / 256., 1. / 16384., 1. / 1048576.]);
        let s = w.start;
        w.emit[s] = 0;
        w.glow[s] = [0; 3];
    }
    w
}
/// A world around one path of the specification: at every step the place's lobes and the lobe taken.
fn planned(r: &mut Rng, plan: &[(String, String)]) -> World {
    let mut w = world(r, 3, true);
    while w.lights.iter().all(|t| !t.area) { w = world(r, 3, true); }
    // place 1.. of the path are the first of every layer; what is around it stays
    let per = (w.k - 2) / 3;
    let spot = |m: usize| m * per + 1;
    w.next[0] = (0..ND).map(|_| spot(0)).collect();
    w.start = spot(0);
    for (m, (ty, kind)) in plan.iter().enumerate() {
        let k = spot(m);
        let kinds: Vec<bool> = match ty.as_str() { "spec" => vec![true], "diff" => vec![false], _ => if r.b() { vec![true, false] } else { vec![false, true] } };
        w.lobes[k] = kinds.iter().map(|spec| {
            let taken = *spec == (kind == "spec");
            let mut lo = Lobe { spec: *spec, ..Default::default() };
            lo.out = (0..w.j).map(|_| r.n(ND)).collect();
            for d in 0..ND {
                lo.pdf.push(*r.pick(&[1, 2, 4, 3]));
                lo.f.push([r.i(1, 16), r.i(1, 16), r.i(1, 16)]);
                lo.wf.push(r.i(1, 2));
                if taken && lo.out.contains(&d) { w.next[k][d] = spot(m + 1).min(w.k); }
            }
            lo
        }).collect();
        w.blk[k] = (0..ND).map(|_| r.chance(1, 8)).collect();
    }
    let end = spot(plan.len()).min(w.k);
    let areas: Vec<usize> = (0..w.lights.len()).filter(|i| w.lights[*i].area).collect();
    w.emit[end] = if r.chance(3, 4) { *r.pick(&areas) + 1 } else { 0 };
    if r.b() { w.lobes[end] = Vec::new(); }
    w
}
fn b2i(b: bool) -> i64 { b as i64 }
fn world_event(w: &World, u: usize) -> String {
    let ints = |v: &Vec<usize>| jarr(&v.iter().map(|x| *x as i64).collect::<Vec<i64>>());
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    let rgbs = |v: &[[i64; 3]]| list(v.iter().map(|c| jarr(c)).collect());
    let dirs = |v: &Vec<usize>| jarr(&v.iter().map(|x| *x as i64 + 1).collect::<Vec<i64>>());
    let lights: Vec<String> = w.lights.iter().map(|t| format!("{{\"area\":{},\"l\":{},\"dir\":{},\"pdf\":{},\"dirs\":{},\"face\":{}}}", t.area, jarr(&t.l), t.dir + 1,
        list(t.pdf[1..].iter().map(|x| jarr(x)).collect()), list(t.dirs[1..].iter().map(|x| dirs(x)).collect()), list(t.face[1..].iter().map(|x| jarr(&x.iter().map(|b| b2i(*b)).collect::<Vec<_>>())).collect()))).collect();
    let lobes: Vec<String> = w.lobes[1..].iter().map(|ls| list(ls.iter().map(|l| format!("{{\"spec\":{},\"out\":{},\"f\":{},\"wf\":{},\"pdf\":{}}}", l.spec, dirs(&l.out), rgbs(&l.f), jarr(&l.wf), jarr(&l.pdf))).collect())).collect();
    Ev::new("world").i("u", u as i64).i("k", w.k as i64).i("j", w.j as i64).i("start", w.start as i64).i("dir", w.start_dir as i64 + 1)
        .raw("next", &list(w.next[1..].iter().map(|x| ints(x)).collect())).raw("emit", &ints(&w.emit[1..].to_vec())).raw("glow", &rgbs(&w.glow[1..]))
        .a("gs", &w.gs[1..].iter().map(|d| d + 1).collect::<Vec<_>>()).raw("blk", &list(w.blk[1..].iter().map(|x| jarr(&x.iter().map(|b| b2i(*b)).collect::<Vec<_>>())).collect()))
        .raw("lights", &list(lights)).raw("lobes", &list(lobes)).end()
}
pub const L_UNIT: f64 = 65536.;
fn lq(l: &[f64; 3]) -> Vec<i64> { l.iter().map(|x| q(*x as f32, L_UNIT)).collect() }
fn f64s(l: &[f32; 3]) -> [f64; 3] { [l[0] as f64, l[1] as f64, l[2] as f64] }

fn one_world(out: &mut Out, r: &mut Rng, w: World, u: usize, enumerate: usize) {
    let w = Arc::new(w);
    out.unit();
    out.put(world_event(&w, u));
    let nl = w.lights.len();
    let lights = match guard(&|| format!("world {}", u), || order(&w)) { Ok(o) => o, Err(e) => { out.put(Ev::new("panic").s("what", &e).end()); return; } };
    // single draws: one point for every 2-D draw, one value for every 1-D draw
    let mut list = Vec::new();
    let mut expect = Vec::new();
    for j in 0..w.j {
        for i in 0..nl.max(1) {
            let n = nl.max(1);
            let edge = *r.pick(&[0, 1, 2]);
            // values at both ends of the light's interval
            let v = match edge { 0 => i as f32 / n as f32 + 1e-6, 1 => (2 * i + 1) as f32 / (2 * n) as f32, _ => (i + 1) as f32 / n as f32 - 1e-6 };
            let v = if edge == 0 && i == 0 && r.b() { 0. } else if edge == 2 && i + 1 == n && r.b() { 0.99999994 } else { v };
            list.push((j, Vec::new(), v));
            expect.push((j, i));
        }
    }
    let n = list.len();
    match guard(&|| format!("world {}", u), || shoot(&w, Draws::Each { list, cur: 0, n: 0 })) {
        Ok((s, _, _, _)) if s.len() == n => {
            for (m, (j, i)) in expect.iter().enumerate() { out.put(Ev::new("one").i("j", *j as i64 + 1).i("i", lights.get(*i).cloned().unwrap_or(0) as i64 + 1).a("l", &lq(&f64s(&s[m]))).end()); }
        }
        Ok((s, _, _, _)) => out.put(Ev::new("lost").s("what", &format!("{} of {} samples of world {} reached the film", s.len(), n, u)).end()),
        Err(e) => { out.put(Ev::new("panic").s("what", &format!("world {}: {}", u, e)).end()); return; }
    }
    if enumerate == 0 { return; }
    let draws = Draws::All { n1: nl.max(1), tape: Vec::new(), pos: 0, limit: enumerate };
    match guard(&|| format!("world {} all draws", u), || {
        let d = Arc::new(Mutex::new(draws));
        // the probability of a tape is the product over its digits: weigh the samples as they come
        weigh(&w, d)
    }) {
        Ok(Some((sum, n))) => out.put(Ev::new("mean").i("n", n as i64).a("l", &lq(&sum)).end()),
        Ok(None) => (),
        Err(e) => out.put(Ev::new("panic").s("what", &format!("world {}: {}", u, e)).end()),
    }
}
static WEIGHTS: Mutex<Vec<f64>> = Mutex::new(Vec::new());
#[derive(Clone)]
struct Weighing(Tape);
impl Sampler for Weighing {
    fn start_pixel(&mut self, p: Point2i) { self.0.start_pixel(p) }
    fn start_next_sample(&mut self) -> bool {
        if let Draws::All { ref tape, pos, .. } = *self.0.d.lock().unwrap() {
            WEIGHTS.lock().unwrap_or_else(|e| e.into_inner()).push(tape[..pos].iter().map(|x| 1. / x.1 as f64).product());
        }
        self.0.start_next_sample()
    }
    fn get_1d(&mut self) -> f32 { self.0.get_1d() }
    fn get_2d(&mut self) -> Point2f { self.0.get_2d() }
    fn get_camera_sample(&mut self, p: Point2i) -> CameraSample { self.0.get_camera_sample(p) }
}
fn weigh(w: &Arc<World>, d: Arc<Mutex<Draws>>) -> Option<([f64; 3], usize)> {
    { let mut r = REC.lock().unwrap_or_else(|e| e.into_inner()); *r = Rec { samples: Vec::new(), started: 0, n1: Vec::new(), over: false }; }
    WEIGHTS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let film = Film::new(Point2u::new(1, 1), GaussianFilter::new(0.5, 1.));
    Integrator::new(scene(w), Weighing(Tape { w: w.clone(), d }), Eye { d: w.start_dir }, film).render(1);
    let r = REC.lock().unwrap_or_else(|e| e.into_inner());
    let ws = WEIGHTS.lock().unwrap_or_else(|e| e.into_inner());
    if r.over { return None; }
    if r.samples.len() != ws.len() { panic!("{} of {} samples reached the film", r.samples.len(), ws.len()); }
    let total: f64 = ws.iter().sum();
    if (total - 1.).abs() > 1e-9 { panic!("the draws of a sample do not form a tree ({})", total); }
    let mut sum = [0f64; 3];
    for (s, p) in r.samples.iter().zip(ws.iter()) { for c in 0..3 { sum[c] += (s[c] / w.eu) as f64 * p; } }
    Some((sum, ws.len()))
}

/// Random termination: every 1-D draw in turn decides where a path ends; find where.
fn endings(out: &mut Out, w: World, u: usize, first: usize) {
    let w = Arc::new(w);
    out.unit();
    out.put(world_event(&w, u));
    for j in vec![first % w.j] {
        let all = |list: Vec<(usize, Vec<f32>, f32)>| guard(&|| format!("world {} point {}", u, j), || shoot(&w, Draws::Each { list, cur: 0, n: 0 }));
        let (base, n1) = match all(vec![(j, vec![], 0.)]) {
            Ok((s, _, n, _)) if s.len() == 1 => (s[0], n[0]),
            Ok(_) => { out.put(Ev::new("lost").s("what", &format!("world {} point {}: all draws zero", u, j)).end()); continue; }
            Err(e) => { out.put(Ev::new("panic").s("what", &format!("world {}: {}", u, e)).end()); continue; }
        };
        if base.iter().any(|x| *x > 16000.) { continue; }
        let draw = |m: usize, v: f32| { let mut d = vec![0f32; n1]; d[m] = v; (j, d, 0f32) };
        let top = 0.99999994f32;
        let ends = match all((0..n1).map(|m| draw(m, top)).collect()) { Ok((s, _, _, _)) if s.len() == n1 => s, Ok(_) => { out.put(Ev::new("lost").s("what", &format!("world {} point {}: one draw one", u, j)).end()); continue; }, Err(e) => { out.put(Ev::new("panic").s("what", &e).end()); continue; } };
        let deciding: Vec<usize> = (0..n1).filter(|m| ends[*m] != base).collect();
        let mut lo: HashMap<usize, f32> = deciding.iter().map(|m| (*m, 0f32)).collect();
        let mut hi: HashMap<usize, f32> = deciding.iter().map(|m| (*m, top)).collect();
        let mut bad = false;
        if !deciding.is_empty() {
            for _ in 0..22 {
                let mids: Vec<f32> = deciding.iter().map(|m| (lo[m] + hi[m]) / 2.).collect();
                let list = deciding.iter().zip(mids.iter()).map(|(m, v)| draw(*m, *v)).collect();
                match all(list) {
                    Ok((s, _, _, _)) if s.len() == deciding.len() => for (x, m) in deciding.iter().enumerate() { if s[x] == base { lo.insert(*m, mids[x]); } else { hi.insert(*m, mids[x]); } },
                    _ => { bad = true; break; }
                }
            }
        }
        if bad { out.put(Ev::new("lost").s("what", &format!("world {} point {}: while searching", u, j)).end()); continue; }
        out.put(Ev::new("ends").i("j", j as i64 + 1).a("l", &lq(&f64s(&base))).a("q", &deciding.iter().map(|m| qd_(hi[m])).collect::<Vec<_>>())
            .aa("d", &deciding.iter().map(|m| lq(&f64s(&ends[*m]))).collect::<Vec<_>>()).end());
    }
}
fn qd_(x: f32) -> i64 { (x as f64 * 32768.).round() as i64 }

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC13);
    observe(note);
    let direct = a.extra.iter().any(|x| x == "direct");
    if direct {
        for u in 0..a.scale(700, 20000) { let w = world(&mut r, 1, u % 2 == 0); let w = faint(&mut r, w); one_world(&mut out, &mut r, w, u, 20000); }
        // many lights
        for u in 0..a.scale(8, 60) { let n = [20usize, 70, 300, 6][u % 4]; let w = world_of(&mut r, 1, true, Some(n)); one_world(&mut out, &mut r, w, 300000 + u, 0); }
    } else {
        let text = a.input.as_ref().map(|p| std::fs::read_to_string(p).unwrap()).unwrap_or_default();
        for (n, line) in text.lines().enumerate() {
            let words: Vec<String> = line.split('"').skip(1).step_by(2).map(|s| s.to_string()).collect();
            let plan: Vec<(String, String)> = words.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect();
            for v in 0..a.scale(2, 20) { let w = planned(&mut r, &plan); let w = faint(&mut r, w); one_world(&mut out, &mut r, w, 200000 + n * 100 + v, 8000); }
        }
        for u in 0..a.scale(400, 8000) { let small = u % 4 != 0; let layers = 1 + r.n(if small { 3 } else { 2 }); let w = world(&mut r, layers, small); let w = faint(&mut r, w); one_world(&mut out, &mut r, w, u, 12000); }
        for u in 0..a.scale(80, 1200) { let w = world(&mut r, 0, u % 2 == 0); endings(&mut out, w, 100000 + u, r.n(12)); }
    }
    out.finish();
}
fn observe(f: fn(f32, f32, [f32; 3])) { pt::verif::observe_samples(f); }
