//! C18: assembling scenes: every call, what lights are told, what is handed on, and shadow rays afterwards.
use std::sync::{Arc, Mutex};

use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::container::*;
use pt::verif::container_simple::*;
use pt::verif::interaction::*;
use pt::verif::light::*;
use pt::verif::ray::*;
use pt::verif::scene::*;
use pt::verif::shape::Shape;
use pt::verif::vector::*;

use crate::mock::*;
use crate::shape::*;
use crate::util::*;

type I3 = [i64; 3];
#[derive(Clone)]
struct Call { kind: &'static str, lo: I3, hi: I3 }
/// An integer point in a scene whose unit is `u`.
fn ip(v: I3, u: f32) -> Point3f { p3(v[0] as f32 * u, v[1] as f32 * u, v[2] as f32 * u) }

/// A plate at the far face of its box.
struct Plate { id: i64, lo: I3, hi: I3, u: f32 }
impl Plate {
    fn meet(&self, ray: &Ray) -> Option<f32> {
        let (o, d) = (dp(ray.origin).map(|x| x / self.u as f64), dv(ray.direction).map(|x| x / self.u as f64));
        let m = maxabs(d);
        let x = (0..3).find(|x| d[*x].abs() >= 0.9999 * m)?;
        let t = (self.hi[x] as f64 - o[x]) / d[x];
        let inside = (0..3).all(|y| y == x || { let p = o[y] + t * d[y]; p >= self.lo[y] as f64 - 1e-3 && p <= self.hi[y] as f64 + 1e-3 });
        if inside && t * m > 1e-6 && t < ray.t_max as f64 { Some(t as f32) } else { None }
    }
}
impl Shape for Plate {
    fn bbox(&self) -> BBox3f { BBox3f::new(ip(self.lo, self.u), ip(self.hi, self.u)) }
    fn area(&self) -> f32 { (self.hi[0] - self.lo[0] + 1) as f32 * self.u * self.u }
    fn intersect_p(&self, r: &Ray) -> bool { self.meet(r).is_some() }
    fn intersect(&self, r: &Ray) -> Option<(Interaction, f32)> { self.meet(r).map(|t| (Interaction { p: r.position(t), n: n3(0., 0., 1.), wo: -r.direction, ..Default::default() }, t)) }
    fn material(&self) -> Arc<dyn Material> { Arc::new(Bare) }
    fn sample(&self, _: Point2f) -> Interaction { Interaction { p: ip(self.hi, self.u), n: n3(0., 0., 1.), ..Default::default() } }
    fn pdf(&self, _: &Interaction, _: Vector3f) -> f32 { self.id as f32 }
}

enum Note { Told(i64, BBox3f), Handed(Vec<i64>) }
type Notes = Arc<Mutex<Vec<Note>>>;

/// A distant light that keeps what it is told.
struct Ear { id: i64, notes: Notes, inner: DistantLight }
impl Light for Ear {
    fn is_delta(&self) -> bool { true }
    fn pre_process(&mut self, b: BBox3f) { self.notes.lock().unwrap().push(Note::Told(self.id, b)); self.inner.pre_process(b); }
    fn sample_li(&self, i: &Interaction, s: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) { self.inner.sample_li(i, s) }
    fn pdf_li(&self, _: &Interaction, _: Vector3f) -> f32 { self.id as f32 }
}

/// Holds any container, so that scenes are of one type.
struct Held(Option<Box<dyn Container + Sync + Send>>);
impl Container for Held {
    fn bbox(&self) -> BBox3f { self.0.as_ref().unwrap().bbox() }
    fn intersect_p(&self, r: &Ray) -> bool { self.0.as_ref().map_or(false, |c| c.intersect_p(r)) }
    fn intersect(&self, r: &Ray) -> Option<Interaction> { self.0.as_ref().and_then(|c| c.intersect(r)) }
}

fn floor_ints(p: Point3f, u: f32) -> Vec<i64> { dp(p).iter().map(|x| qd((x / u as f64).floor(), 1.)).collect() }
fn ceil_ints(p: Point3f, u: f32) -> Vec<i64> { dp(p).iter().map(|x| qd((x / u as f64).ceil(), 1.)).collect() }

fn one(out: &mut Out, r: &mut Rng, calls: &[Call], along: Option<I3>) {
    let notes: Notes = Arc::new(Mutex::new(Vec::new()));
    let solid: Vec<usize> = (0..calls.len()).filter(|k| calls[*k].kind != "light").collect();
    let ways: Vec<I3> = calls.iter().map(|_| if let Some(w) = along { w } else if r.b() { let mut w = [0; 3]; w[r.n(3)] = if r.b() { 1 } else { -1 }; w } else { loop { let w = [r.i(-2, 2), r.i(-2, 2), r.i(-2, 2)]; if w != [0; 3] { break w; } } }).collect();
    let how = r.n(3);
    // scenes of atoms and of planets
    let unit = *r.pick(&[1f32, 1., 1. / 1024., 1. / 1048576., 1024., 1048576.]);
    out.put(Ev::new("new").end());
    for (k, c) in calls.iter().enumerate() { out.put(Ev::new("add").i("id", k as i64 + 1).s("kind", c.kind).a("lo", &c.lo).a("hi", &c.hi).end()); }
    let (n2, mine) = (notes.clone(), calls.to_vec());
    let desc = || mine.iter().map(|c| format!("{} {:?} {:?}", c.kind, c.lo, c.hi)).collect::<Vec<_>>().join("; ");
    let handed_at: Arc<Mutex<Vec<(i64, usize)>>> = Arc::new(Mutex::new(Vec::new()));
    let h2 = handed_at.clone();
    let built = guard(&desc, || {
        let mut b = Builder::new();
        for (k, c) in calls.iter().enumerate() {
            let id = k as i64 + 1;
            match c.kind {
                "shape" => b.add_shape(Plate { id, lo: c.lo, hi: c.hi, u: unit }),
                "light" => {
                    let (w, s) = (ways[k], [1f32, 3., 0.25][k % 3]);
                    b.add_light(Ear { id, notes: notes.clone(), inner: DistantLight::new(Spectrum::from(1.), v3(w[0] as f32 * s, w[1] as f32 * s, w[2] as f32 * s)) })
                }
                _ => b.add_area_light(AreaLight::new(Spectrum::from(1.), Plate { id, lo: c.lo, hi: c.hi, u: unit })),
            }
        }
        let scene = b.construct(move |shapes: Box<[Arc<dyn Shape>]>| {
            let ids: Vec<i64> = shapes.iter().map(|s| s.pdf(&Interaction::default(), v3(0., 0., 1.)) as i64).collect();
            *h2.lock().unwrap() = shapes.iter().map(|s| (s.pdf(&Interaction::default(), v3(0., 0., 1.)) as i64, &**s as *const dyn Shape as *const () as usize)).collect();
            n2.lock().unwrap().push(Note::Handed(ids));
            if shapes.is_empty() { Held(None) }
            else if how == 0 { Held(Some(Box::new(Simple::new(shapes)))) }
            else { Held(Some(Box::new(KdTree::new(shapes, None)))) }
        });
        let at = Interaction::default();
        let lights: Vec<(i64, usize)> = scene.lights().iter().map(|l| (l.pdf_li(&at, v3(0., 0., 1.)) as i64, &**l as *const dyn Light as *const () as usize)).collect();
        (scene, lights)
    });
    let (scene, lights) = match built { Ok(x) => x, Err(e) => { out.put(Ev::new("panic").s("what", &format!("{}: {}", e, desc())).end()); return; } };
    for n in notes.lock().unwrap().iter() {
        match n {
            Note::Told(id, b) => out.put(Ev::new("told").i("id", *id).a("lo", &ceil_ints(b.min, unit)).a("hi", &floor_ints(b.max, unit)).end()),
            Note::Handed(ids) => out.put(Ev::new("handed").a("shapes", ids).end()),
        }
    }
    let handed = handed_at.lock().unwrap().clone();
    let ids: Vec<i64> = lights.iter().map(|x| x.0).collect();
    let same = lights.iter().map(|x| if handed.contains(x) { "true" } else { "false" }).collect::<Vec<_>>().join(",");
    out.put(Ev::new("done").a("lights", &ids).raw("same", &format!("[{}]", same)).end());
    if solid.is_empty() { return; }
    for (j, id) in ids.iter().enumerate() {
        if *id < 1 || *id as usize > calls.len() || calls[*id as usize - 1].kind != "light" { continue; }
        let way = ways[*id as usize - 1];
        for _ in 0..if along.is_some() { 8 } else { 4 } {
            let c = &calls[*r.pick(&solid)];
            let mut p = [0; 3];
            for x in 0..3 { p[x] = if r.b() { c.lo[x] } else if r.b() { c.hi[x] } else { r.i(c.lo[x], c.hi[x]) }; }
            // often straight in front of or behind another plate
            let d = &calls[*r.pick(&solid)];
            if r.b() {
                let t = r.i(0, 12);
                let back = [d.hi[0] - t * way[0], d.hi[1] - t * way[1], d.hi[2] - t * way[2]];
                if (0..3).all(|x| back[x] >= c.lo[x] && back[x] <= c.hi[x]) { p = back; }
            }
            let got = guard(&desc, || {
                let i = Interaction { p: ip(p, unit), ..Default::default() };
                let (_, _, _, vis) = scene.lights()[j].sample_li(&i, Point2f::new(0.5, 0.5));
                vis.unoccluded(&scene)
            });
            match got {
                Ok(free) => out.put(Ev::new("shadow").i("light", *id).a("p", &p).a("way", &way).b("free", free).end()),
                Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", e, desc())).end()),
            }
        }
    }
}

fn thick(r: &mut Rng, lo: &mut I3, hi: &mut I3) { for x in 0..3 { if hi[x] - lo[x] < 1 { let g = r.i(1, 4); lo[x] -= g; hi[x] += g; } } }

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC18);
    let text = a.input.as_ref().map(|p| std::fs::read_to_string(p).unwrap()).unwrap_or_default();
    for line in text.lines() {
        // <<<<"kind", <<lo, hi>>>>, ...>>
        let kinds: Vec<&str> = line.split('"').skip(1).step_by(2).collect();
        let nums: Vec<i64> = line.split('"').skip(2).step_by(2).flat_map(|s| s.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect::<Vec<i64>>()).collect();
        let axis = r.n(3);
        let (step, off) = (*r.pick(&[1, 7, 40]), r.i(-60, 60));
        let calls: Vec<Call> = kinds.iter().enumerate().map(|(k, s)| {
            let (mut lo, mut hi) = ([0; 3], [0; 3]);
            for x in 0..3 { let c = r.i(-3, 3); lo[x] = c; hi[x] = c; }
            lo[axis] = off + step * nums[2 * k];
            hi[axis] = off + step * nums[2 * k + 1];
            let kind = match *s { "shape" => "shape", "light" => "light", _ => "area" };
            thick(&mut r, &mut lo, &mut hi);
            Call { kind, lo, hi }
        }).collect();
        out.unit();
        one(&mut out, &mut r, &calls, None);
    }
    for u in 0..a.scale(4000, 100000) {
        let n = if u % 800 == 400 { 250 + r.n(60) } else if r.chance(1, 10) { r.n(41) } else { r.n(9) };
        let reach = *r.pick(&[4, 20, 200]);
        let calls: Vec<Call> = (0..n).map(|_| {
            let kind = *r.pick(&["shape", "light", "area"]);
            let mut lo = [0; 3]; let mut hi = [0; 3];
            for x in 0..3 { lo[x] = r.i(-reach, reach); hi[x] = lo[x] + r.i(0, reach / 2); }
            thick(&mut r, &mut lo, &mut hi);
            Call { kind, lo, hi }
        }).collect();
        out.unit();
        one(&mut out, &mut r, &calls, None);
    }
    // two ends of a long scene, seen from each other along its whole length
    for _ in 0..a.scale(300, 6000) {
        let (far, s) = (*r.pick(&[100, 1000, 20000]), r.i(1, 3));
        let mut way = if r.b() { [1, 1, 1] } else { [1, 0, 0] };
        r.shuffle(&mut way);
        for x in 0..3 { if r.b() { way[x] = -way[x]; } }
        let at = [r.i(-50, 50), r.i(-50, 50), r.i(-50, 50)];
        let mut calls = vec![Call { kind: "light", lo: [0; 3], hi: [1; 3] }];
        for end in 0..2 {
            let (mut lo, mut hi) = (at, at);
            for x in 0..3 { lo[x] += end * far * way[x]; hi[x] = lo[x] + s; }
            calls.push(Call { kind: *r.pick(&["shape", "area"]), lo, hi });
        }
        r.shuffle(&mut calls);
        out.unit();
        one(&mut out, &mut r, &calls, Some(way));
    }
    out.finish();
}
