//! Stand-ins for the crate's traits, so that every observation is made through its public seams.
use std::sync::Arc;

use pt::verif::bbox::*;
use pt::verif::camera::*;
use pt::verif::container::*;
use pt::verif::filter::*;
use pt::verif::interaction::*;
use pt::verif::ray::*;
use pt::verif::reflection::*;
use pt::verif::sampler::*;
use pt::verif::scene::*;
use pt::verif::shape::*;
use pt::verif::vector::*;
use pt::api::{Material, Spectrum};

pub fn v3(x: f32, y: f32, z: f32) -> Vector3f { Vector3f::new(x, y, z) }
pub fn p3(x: f32, y: f32, z: f32) -> Point3f { Point3f::new(x, y, z) }
pub fn n3(x: f32, y: f32, z: f32) -> Normal3f { Normal3f::new(x, y, z) }

/// No lobes.
pub struct Bare;
impl Material for Bare {
    fn compute_scattering(&self, i: &Interaction) -> BSDF { BSDF::new(i) }
}

/// A shape that is only there to emit: radiance is a function of the hit point.
pub struct Glow<F: Fn(&Interaction) -> Spectrum + Sync + Send>(pub F);
impl<F: Fn(&Interaction) -> Spectrum + Sync + Send> Shape for Glow<F> {
    fn bbox(&self) -> BBox3f { BBox3f::new(p3(-1., -1., -1.), p3(1., 1., 1.)) }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, _: &Ray) -> bool { true }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { Arc::new(Bare) }
    fn sample(&self, _: Point2f) -> Interaction { Interaction::default() }
    fn l(&self, i: &Interaction, _: Vector3f) -> Spectrum { (self.0)(i) }
}

/// The camera hands the film position on as the ray's origin.
#[derive(Clone)]
pub struct FlatCamera;
impl Camera for FlatCamera {
    fn generate_ray(&self, s: &CameraSample) -> Ray { Ray { origin: p3(s.p_film.x, s.p_film.y, 0.), direction: v3(0., 0., 1.), ..Default::default() } }
}

/// Every ray hits the one shape, at the ray's origin.
pub struct Screen(pub Arc<dyn Shape>);
impl Container for Screen {
    fn bbox(&self) -> BBox3f { BBox3f::new(p3(-1., -1., -1.), p3(1., 1., 1.)) }
    fn intersect_p(&self, _: &Ray) -> bool { false }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        Some(Interaction { p: r.origin, n: n3(0., 0., -1.), sn: n3(0., 0., -1.), dpdu: v3(1., 0., 0.), dpdv: v3(0., 1., 0.), wo: -r.direction,
            shape: Some(self.0.clone()), ..Default::default() })
    }
}
pub fn screen_scene<F: Fn(&Interaction) -> Spectrum + Sync + Send + 'static>(f: F) -> Scene<Screen> {
    let s: Arc<dyn Shape> = Arc::new(Glow(f));
    Builder::new().construct(move |_| Screen(s))
}

/// Offsets of sample k of a position come from a function.
pub struct FnSampler { pub spp: u32, pub f: Arc<dyn Fn(Point2i, u32, u32) -> f32 + Sync + Send>, pub p: Point2i, pub k: u32, pub d: u32 }
impl FnSampler {
    pub fn new(spp: u32, f: Arc<dyn Fn(Point2i, u32, u32) -> f32 + Sync + Send>) -> FnSampler { FnSampler { spp, f, p: Point2i::new(0, 0), k: 0, d: 0 } }
}
impl Clone for FnSampler { fn clone(&self) -> Self { FnSampler { spp: self.spp, f: self.f.clone(), p: self.p, k: self.k, d: self.d } } }
impl Sampler for FnSampler {
    fn start_pixel(&mut self, p: Point2i) { self.p = p; self.k = 0; self.d = 0; }
    fn start_next_sample(&mut self) -> bool { self.k += 1; self.d = 0; self.k < self.spp }
    fn get_1d(&mut self) -> f32 { self.d += 1; (self.f)(self.p, self.k, self.d - 1) }
    fn get_2d(&mut self) -> Point2f { let a = self.get_1d(); let b = self.get_1d(); Point2f::new(a, b) }
}
unsafe impl Send for FnSampler {}

/// A filter that only has values at the centres of the 16x16 steps.
pub struct TableFilter { pub radius: f32, pub table: Vec<i64>, pub unit: f32 }
impl Filter for TableFilter {
    fn radius(&self) -> f32 { self.radius }
    fn evaluate(&self, p: Point2f) -> f32 {
        let ix = p.x / self.radius * 16. - 0.5;
        let iy = p.y / self.radius * 16. - 0.5;
        let (rx, ry) = (ix.round(), iy.round());
        if (ix - rx).abs() > 0.01 || (iy - ry).abs() > 0.01 || rx < 0. || ry < 0. || rx > 15. || ry > 15. { return 0.; }
        self.table[(ry as usize) * 16 + rx as usize] as f32 * self.unit
    }
}

pub struct Ppm { pub magic: String, pub w: i64, pub h: i64, pub max: i64, pub px: Vec<i64>, pub bad: i64 }
/// Plain PPM: whitespace separated tokens, comments allowed.  `bad` counts tokens that are not numbers.
pub fn parse_ppm(data: &[u8]) -> Ppm {
    let text = String::from_utf8_lossy(data).to_string();
    let mut toks: Vec<String> = Vec::new();
    for line in text.lines() {
        let line = match line.find('#') { Some(i) => &line[..i], None => line };
        toks.extend(line.split_whitespace().map(|s| s.to_string()));
    }
    let mut bad = 0;
    let mut nums = Vec::new();
    for t in toks.iter().skip(1) {
        match t.parse::<u32>() { Ok(v) => nums.push(v as i64), Err(_) => { bad += 1; nums.push(-1); } }
    }
    let g = |i: usize| nums.get(i).cloned().unwrap_or(-1);
    Ppm { magic: toks.get(0).cloned().unwrap_or_default(), w: g(0), h: g(1), max: g(2), px: nums.iter().skip(3).cloned().collect(), bad }
}
