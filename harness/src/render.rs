//! C01 C02 C03: whole renders under controlled and free schedules, with and without failing workers.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::thread::{self, ThreadId};
use std::time::{Duration, Instant};

use crate::film::{img_event, U};
use crate::mock::*;
use crate::util::*;
use pt::api::{DistantLight, Film, HaltonSampler, Integrator, Light, Material, Shape, Spectrum};
use pt::verif::bbox::*;
use pt::verif::camera::*;
use pt::verif::container::*;
use pt::verif::interaction::*;
use pt::verif::light::VisibilityTester;
use pt::verif::ray::*;
use pt::verif::reflection::*;
use pt::verif::sampler::*;
use pt::verif::scene::*;
use pt::verif::vector::*;

// ---------- shared control of one render ----------
#[derive(Default)]
struct St {
    names: HashMap<ThreadId, i64>,
    waiting: Vec<i64>,
    go: HashMap<i64, i64>, // thread -> 0 proceed, n fail at the n-th visit of the fault site
    exited: usize,
    live: i64, // cameras in existence: a worker that is still running has one
    open: bool, // gates are open
    log: Vec<String>,
    pos: BTreeMap<(i64, i64), (i64, i64, HashSet<i64>)>, // rays, adds, threads
    faults: i64,
    changed: Option<Instant>,
    serial: i64, // cameras made so far; the render makes one for each worker in turn
    held: bool,
    gated: bool,
}
pub struct Ctl { st: Mutex<St>, cv: Condvar, main: ThreadId, detail: bool, jitter: bool, x0: i64, y0: i64, site: &'static str, hold: Option<(i64, usize, bool)> }

thread_local! {
    static BLOCK: RefCell<Option<(i64, i64)>> = RefCell::new(None);
    static ARMED: RefCell<i64> = RefCell::new(0);
}
static CURRENT: Mutex<Option<Arc<Ctl>>> = Mutex::new(None);

impl Ctl {
    fn name(&self, st: &mut St) -> i64 {
        let n = st.names.len() as i64 + 1;
        *st.names.entry(thread::current().id()).or_insert(n)
    }
    /// One worker is kept at its first ray until the others have done everything else.
    fn hold(&self, serial: i64) {
        let (who, threads, fails) = match self.hold { Some(h) => h, None => return };
        let t = Instant::now();
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        if st.held { return; }
        if serial != who {
            while !st.held && t.elapsed() < Duration::from_secs(2) { st = self.cv.wait_timeout(st, Duration::from_millis(50)).unwrap_or_else(|e| e.into_inner()).0; }
            st.held = true;
            return;
        }
        st.held = true;
        self.cv.notify_all();
        while st.exited + 1 < threads && t.elapsed() < Duration::from_millis(2500) { st = self.cv.wait_timeout(st, Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner()).0; }
        drop(st);
        thread::sleep(Duration::from_millis(30));
        if fails { ARMED.with(|a| *a.borrow_mut() = 1); }
    }
    fn ray(&self, x: f32, y: f32) {
        let (px, py) = (x.floor() as i64, y.floor() as i64);
        let block = ((px - self.x0).div_euclid(16), (py - self.y0).div_euclid(16));
        let new = BLOCK.with(|b| { let mut b = b.borrow_mut(); let n = *b != Some(block); *b = Some(block); n });
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        let me = self.name(&mut st);
        if self.detail { st.log.push(Ev::new("ray").i("t", me).i("x", px).i("y", py).end()); }
        let e = st.pos.entry((px, py)).or_insert_with(Default::default);
        e.0 += 1;
        e.2.insert(me);
        if st.gated && new && !st.open {
            st.waiting.push(me);
            st.changed = Some(Instant::now());
            self.cv.notify_all();
            let t = Instant::now();
            loop {
                if st.open { break; }
                if let Some(f) = st.go.remove(&me) { ARMED.with(|a| *a.borrow_mut() = f); break; }
                if t.elapsed() > Duration::from_secs(10) { break; }
                st = self.cv.wait_timeout(st, Duration::from_millis(200)).unwrap_or_else(|e| e.into_inner()).0;
            }
            st.waiting.retain(|w| *w != me);
            st.changed = Some(Instant::now());
            self.cv.notify_all();
        }
        drop(st);
        if self.jitter {
            let h = (px * 7919 + py * 104729 + me * 31) as u64;
            match h % 17 { 0 => thread::yield_now(), 1 => thread::sleep(Duration::from_micros(h % 60)), _ => {} }
        }
    }
    fn added(&self, x: f32, y: f32) {
        let (px, py) = (x.floor() as i64, y.floor() as i64);
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        if self.detail { let me = self.name(&mut st); st.log.push(Ev::new("add").i("t", me).i("x", px).i("y", py).end()); }
        st.pos.entry((px, py)).or_insert_with(Default::default).1 += 1;
    }
    fn fault(&self, site: &str) {
        if site != self.site { return; }
        let hit = ARMED.with(|a| { let mut a = a.borrow_mut(); if *a > 0 { *a -= 1; *a == 0 } else { false } });
        if hit {
            let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
            let me = self.name(&mut st);
            st.faults += 1;
            st.log.push(Ev::new("fault").i("t", me).s("site", site).end());
            drop(st);
            // failures come with all sorts of payloads
            static KIND: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            match KIND.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 4 {
                0 => panic!("injected failure at {}", site),
                1 => panic!("injected failure"),
                2 => std::panic::panic_any(Broken),
                _ => { let v: Vec<u8> = Vec::new(); let _ = v[site.len()]; }
            }
        }
    }
    /// Before a render: nothing has happened.
    fn fresh(&self, gated: bool) {
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        let live = st.live;
        *st = St { live, gated, changed: Some(Instant::now()), ..St::default() };
    }
    /// After a render: let everyone go and wait for workers that outlive it. The integrator keeps a camera of its own.
    fn drain(&self, own: i64) {
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        st.open = true;
        self.cv.notify_all();
        let t = Instant::now();
        while st.live > own && t.elapsed() < Duration::from_secs(20) {
            st = self.cv.wait_timeout(st, Duration::from_millis(100)).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
    /// Release waiting workers in the order of the schedule.
    fn drive(&self, plan: &[(i64, i64)], threads: usize) {
        for (w, act) in plan {
            let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
            let t0 = Instant::now();
            loop {
                let quiet = st.changed.map_or(false, |c| c.elapsed() > Duration::from_millis(25));
                if st.open { return; }
                if !st.waiting.is_empty() && (st.waiting.len() + st.exited >= threads || quiet) { break; }
                if st.waiting.is_empty() && (st.exited >= threads || t0.elapsed() > Duration::from_secs(2)) { st.open = true; self.cv.notify_all(); return; }
                st = self.cv.wait_timeout(st, Duration::from_millis(5)).unwrap_or_else(|e| e.into_inner()).0;
            }
            let mut ws = st.waiting.clone();
            ws.sort();
            let pick = if ws.contains(w) { *w } else { ws[(*w as usize) % ws.len()] };
            st.go.insert(pick, *act);
            self.cv.notify_all();
            while st.waiting.contains(&pick) && !st.open {
                st = self.cv.wait_timeout(st, Duration::from_millis(5)).unwrap_or_else(|e| e.into_inner()).0;
            }
        }
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        st.open = true;
        self.cv.notify_all();
    }
}
fn observer(x: f32, y: f32, _: [f32; 3]) {
    let c = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
    if let Some(c) = c { c.added(x, y); }
}

struct GateCamera(Arc<Ctl>, i64);
impl GateCamera { fn new(c: Arc<Ctl>) -> Self { let n = { let mut st = c.st.lock().unwrap_or_else(|e| e.into_inner()); st.live += 1; st.serial += 1; st.serial - 1 }; GateCamera(c, n) } }
impl Clone for GateCamera { fn clone(&self) -> Self { GateCamera::new(self.0.clone()) } }
impl Drop for GateCamera {
    fn drop(&mut self) {
        let mut st = self.0.st.lock().unwrap_or_else(|e| e.into_inner());
        st.live -= 1;
        if thread::current().id() != self.0.main {
            st.exited += 1;
            st.changed = Some(Instant::now());
        }
        self.0.cv.notify_all();
    }
}
impl Camera for GateCamera {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        self.0.ray(s.p_film.x, s.p_film.y);
        self.0.hold(self.1);
        self.0.fault("camera");
        Ray { origin: p3(s.p_film.x, s.p_film.y, 0.), direction: v3(0., 0., 1.), ..Default::default() }
    }
}

struct GateSampler { c: Arc<Ctl>, spp: u32, k: u32, d: u32 }
impl Clone for GateSampler {
    fn clone(&self) -> Self { self.c.fault("sampler-clone"); GateSampler { c: self.c.clone(), ..*self } }
}
impl Sampler for GateSampler {
    fn start_pixel(&mut self, _: Point2i) { self.c.fault("sampler-start"); self.k = 0; self.d = 0; }
    fn start_next_sample(&mut self) -> bool { self.c.fault("sampler-next"); self.k += 1; self.d = 0; self.k < self.spp }
    fn get_1d(&mut self) -> f32 { self.c.fault("sampler-get"); self.d += 1; (self.k as f32 + 0.5) / self.spp as f32 }
    fn get_2d(&mut self) -> Point2f { let a = self.get_1d(); let b = self.get_1d(); Point2f::new(a, b) }
}

struct FaultMaterial(Arc<Ctl>);
impl Material for FaultMaterial { fn compute_scattering(&self, i: &Interaction) -> BSDF { self.0.fault("material"); BSDF::new(i) } }

struct FaultShape { c: Arc<Ctl>, flat: bool }
impl Shape for FaultShape {
    fn bbox(&self) -> BBox3f { BBox3f::new(p3(-1., -1., -1.), p3(1., 1., 1.)) }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, _: &Ray) -> bool { true }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { Arc::new(FaultMaterial(self.c.clone())) }
    fn sample(&self, _: Point2f) -> Interaction { Interaction::default() }
    fn l(&self, i: &Interaction, _: Vector3f) -> Spectrum {
        self.c.fault("emission");
        if self.flat { return Spectrum::from(0.5); }
        Spectrum::from(level(i.p.x.floor() as i64, i.p.y.floor() as i64) as f32 / 256.)
    }
}
/// Radiance of a position, in 1/256; the specification has the same formula.
fn level(x: i64, y: i64) -> i64 { (x * 7 + y * 13).rem_euclid(200) + 20 }

struct FaultContainer { c: Arc<Ctl>, s: Arc<dyn Shape> }
impl Container for FaultContainer {
    fn bbox(&self) -> BBox3f { BBox3f::new(p3(-1., -1., -1.), p3(1., 1., 1.)) }
    fn intersect_p(&self, _: &Ray) -> bool { false }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        self.c.fault("shape");
        Some(Interaction { p: r.origin, n: n3(0., 0., -1.), sn: n3(0., 0., -1.), dpdu: v3(1., 0., 0.), dpdv: v3(0., 1., 0.), wo: -r.direction,
            shape: Some(self.s.clone()), ..Default::default() })
    }
}
struct FaultLight { c: Arc<Ctl>, l: DistantLight }
impl Light for FaultLight {
    fn is_delta(&self) -> bool { true }
    fn sample_li(&self, i: &Interaction, s: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) { self.c.fault("light"); self.l.sample_li(i, s) }
    fn pdf_li(&self, _: &Interaction, _: Vector3f) -> f32 { 0. }
}

pub const SITES: [&str; 9] = ["camera", "sampler-get", "sampler-start", "sampler-next", "sampler-clone", "shape", "emission", "material", "light"];

#[derive(Clone)]
struct Job { w: i64, h: i64, r: i64, spp: u32, threads: u8, plan: Option<Vec<(i64, i64)>>, site: &'static str, detail: bool, jitter: bool, prior: Option<Vec<u8>>, hold: Option<(i64, usize, bool)>, kind: &'static str }
/// A later render of the same integrator: threads, plan, kind.
type Later = (u8, Option<Vec<(i64, i64)>>, &'static str);

fn region(n: i64, r: i64) -> (i64, i64) { ((U / 2 - r).div_euclid(U), -(-(n * U - U / 2 + r)).div_euclid(U)) }

fn run_job(out: &mut Out, j: &Job) { run_jobs(out, j, &[]) }
fn run_jobs(out: &mut Out, j: &Job, later: &[Later]) {
    out.unit();
    let _ = std::fs::remove_file("output.ppm");
    if let Some(p) = &j.prior { std::fs::write("output.ppm", p).unwrap(); }
    let ctl = Arc::new(Ctl { st: Mutex::new(St::default()), cv: Condvar::new(), main: thread::current().id(), detail: j.detail, jitter: j.jitter,
        x0: region(j.w, j.r).0, y0: region(j.h, j.r).0, site: j.site, hold: j.hold });
    *CURRENT.lock().unwrap() = Some(ctl.clone());
    let mut integrator = None;
    let first: Later = (j.threads, j.plan.clone(), j.kind);
    for (n, (threads, plan, kind)) in std::iter::once(&first).chain(later.iter()).enumerate() {
        let prior = std::fs::read("output.ppm").ok();
        out.put(Ev::new("render").s("u", kind).i("w", j.w).i("h", j.h).i("r", j.r).i("spp", j.spp as i64).i("threads", *threads as i64).i("n", n as i64 + 1).end());
        ctl.fresh(plan.is_some());
        let driver = plan.clone().map(|p| { let c = ctl.clone(); let n = *threads as usize; thread::spawn(move || c.drive(&p, n)) });
        let (c2, place) = (ctl.clone(), &mut integrator);
        let res = guard(&|| format!("render {} of {} {}x{} r={}/32 spp={} threads={} plan={:?} site={}", n + 1, kind, j.w, j.h, j.r, j.spp, threads, plan, j.site), move || {
            place.get_or_insert_with(|| {
                let film = Film::new(Point2u::new(j.w as u32, j.h as u32), TableFilter { radius: j.r as f32 / U as f32, table: vec![1; 256], unit: 1. });
                let mut b = Builder::new();
                b.add_light(FaultLight { c: c2.clone(), l: DistantLight::new(Spectrum::from(1.), v3(0., 0., 1.)) });
                let s: Arc<dyn Shape> = Arc::new(FaultShape { c: c2.clone(), flat: j.r >= U / 2 });
                let cc = c2.clone();
                let scene = b.construct(move |_| FaultContainer { c: cc, s });
                let sampler = GateSampler { c: c2.clone(), spp: j.spp, k: 0, d: 0 };
                Integrator::new(scene, sampler, GateCamera::new(c2), film)
            }).render(*threads);
        });
        ctl.drain(1);
        if let Some(d) = driver { let _ = d.join(); }
        finish_job(out, j, kind, &ctl, res.is_ok(), prior);
    }
    *CURRENT.lock().unwrap() = None;
}
fn finish_job(out: &mut Out, j: &Job, kind: &str, ctl: &Ctl, ok: bool, prior: Option<Vec<u8>>) {
    let st = ctl.st.lock().unwrap_or_else(|e| e.into_inner());
    if j.detail {
        for s in st.log.iter() { out.put(s.clone()); }
    } else {
        for s in st.log.iter() { out.put(s.clone()); }
        if kind == "large" {
            // one event for each row of positions
            let (x0, x1) = region(j.w, j.r);
            let (y0, y1) = region(j.h, j.r);
            let inside = |p: &(i64, i64)| p.0 >= x0 && p.0 < x1 && p.1 >= y0 && p.1 < y1;
            for y in y0..y1 {
                let row: Vec<(i64, i64, i64)> = (x0..x1).map(|x| st.pos.get(&(x, y)).map(|v| (v.0, v.1, v.2.len() as i64)).unwrap_or((0, 0, 0))).collect();
                out.put(Ev::new("row").i("y", y).a("n", &row.iter().map(|v| v.0).collect::<Vec<_>>()).a("a", &row.iter().map(|v| v.1).collect::<Vec<_>>()).i("th", row.iter().map(|v| v.2).max().unwrap_or(0)).end());
            }
            for (p, v) in st.pos.iter().filter(|(p, _)| !inside(p)).take(5) { out.put(Ev::new("pos").i("x", p.0).i("y", p.1).i("n", v.0).i("a", v.1).i("th", v.2.len() as i64).end()); }
        } else if j.hold.is_none() { for (p, v) in st.pos.iter() { out.put(Ev::new("pos").i("x", p.0).i("y", p.1).i("n", v.0).i("a", v.1).i("th", v.2.len() as i64).end()); } }
    }
    let after = std::fs::read("output.ppm").ok();
    let mut e = Ev::new("end").b("ok", ok).b("same", after == prior).b("exists", after.is_some());
    let ppm = parse_ppm(after.as_ref().map(|v| &v[..]).unwrap_or(b""));
    e = e.b("size", ok && ppm.w == j.w && ppm.h == j.h && ppm.px.len() as i64 == 3 * j.w * j.h);
    e = e.a("px", if ok { &ppm.px } else { &[] });
    out.put(e.end());
}

/// Schedules come from TLC: {"threads":T,"tiles":N,"steps":[["go",w]|["fail",w],...]}
fn parse_plan(line: &str) -> (u8, i64, Vec<(i64, bool)>) {
    let num = |k: &str| -> i64 { let i = line.find(k).unwrap() + k.len(); line[i..].trim_start_matches(|c: char| !c.is_ascii_digit()).split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap() };
    let t = num("\"threads\":") as u8;
    let n = num("\"tiles\":");
    let i = line.find("\"steps\":").unwrap() + 8;
    let mut steps = Vec::new();
    for part in line[i..].split('[').skip(2) {
        let fail = part.starts_with("\"fail\"");
        let d: String = part.chars().filter(|c| c.is_ascii_digit()).collect();
        if let Ok(v) = d.parse() { steps.push((v, fail)); }
    }
    (t, n, steps)
}

fn size_for_tiles(n: i64, rng: &mut Rng) -> (i64, i64, i64) {
    // n tiles of 16 positions: a row of them, or a column; the radius moves the sample region
    let r = *rng.pick(&[12, 16, 24, 32]);
    let extra = 2 * (r / 32); // positions added by the radius
    let len = (n - 1) * 16 + rng.i(1, 15) - extra;
    let len = len.max(1);
    if rng.b() { (len, 1, r) } else { (1, len, r) }
}

// ---------- storms: many small tiles, nothing in the workers' way ----------
#[derive(Clone)]
struct Swift { n: Arc<Vec<AtomicUsize>>, stray: Arc<AtomicUsize>, x0: i64, y0: i64, nx: i64, ny: i64 }
impl Camera for Swift {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        let (x, y) = (s.p_film.x.floor() as i64 - self.x0, s.p_film.y.floor() as i64 - self.y0);
        if x < 0 || y < 0 || x >= self.nx || y >= self.ny { self.stray.fetch_add(1, Ordering::Relaxed); } else { self.n[(y * self.nx + x) as usize].fetch_add(1, Ordering::Relaxed); }
        Ray { origin: p3(s.p_film.x, s.p_film.y, 0.), direction: v3(0., 0., 1.), ..Default::default() }
    }
}
#[derive(Clone)]
struct Middle { spp: u32, k: u32 }
impl Sampler for Middle {
    fn start_pixel(&mut self, _: Point2i) { self.k = 0; }
    fn start_next_sample(&mut self) -> bool { self.k += 1; self.k < self.spp }
    fn get_1d(&mut self) -> f32 { 0.5 }
    fn get_2d(&mut self) -> Point2f { Point2f::new(0.5, 0.5) }
}
fn unseen(_: f32, _: f32, _: [f32; 3]) {}
fn storm(out: &mut Out, w: i64, h: i64, r: i64, spp: u32, threads: u8, times: usize, again: bool) {
    out.unit();
    let ((x0, x1), (y0, y1)) = (region(w, r), region(h, r));
    let (nx, ny) = (x1 - x0, y1 - y0);
    // least and greatest count of every cell of the region, lowest and highest level, over all the renders
    let side = 16;
    let cells = (((nx + side - 1) / side) * ((ny + side - 1) / side)) as usize;
    let (mut lo, mut hi) = (vec![i64::MAX; cells], vec![0i64; cells]);
    let (mut px, mut top, mut ok, mut size, mut stray) = (Vec::new(), -1, true, true, 0);
    let mut kept: Option<(Swift, Integrator<Screen, Swift, Middle>)> = None;
    for _ in 0..times {
        if !again { kept = None; }
        let cam = if let Some((c, _)) = &kept { for n in c.n.iter() { n.store(0, Ordering::Relaxed); } c.clone() } else { Swift { n: Arc::new((0..nx * ny).map(|_| AtomicUsize::new(0)).collect()), stray: Arc::new(AtomicUsize::new(0)), x0, y0, nx, ny } };
        let film = Film::new(Point2u::new(w as u32, h as u32), TableFilter { radius: r as f32 / U as f32, table: vec![1; 256], unit: 1. });
        let _ = std::fs::remove_file("output.ppm");
        let (c2, place) = (cam.clone(), &mut kept);
        pt::verif::observe_samples(unseen);
        let res = guard(&|| format!("storm {}x{} r={}/32 spp={} threads={}", w, h, r, spp, threads), move || {
            place.get_or_insert_with(|| (c2.clone(), Integrator::new(screen_scene(|_| Spectrum::from(0.5)), Middle { spp, k: 0 }, c2, film))).1.render(threads);
        });
        pt::verif::observe_samples(observer);
        let ppm = parse_ppm(&std::fs::read("output.ppm").unwrap_or_default());
        let mut c = 0;
        for cy in 0..(ny + side - 1) / side { for cx in 0..(nx + side - 1) / side {
            for y in cy * side..ny.min(cy * side + side) { for x in cx * side..nx.min(cx * side + side) { let v = cam.n[(y * nx + x) as usize].load(Ordering::Relaxed) as i64; lo[c] = lo[c].min(v); hi[c] = hi[c].max(v); } }
            c += 1;
        } }
        ok &= res.is_ok();
        size &= ppm.w == w && ppm.h == h && ppm.px.len() as i64 == 3 * w * h;
        stray += cam.stray.swap(0, Ordering::Relaxed) as i64;
        let now: Vec<i64> = ppm.px.chunks(96).map(|c| *c.iter().min().unwrap()).collect();
        px = if px.is_empty() { now } else { px.iter().zip(now.iter()).map(|(a, b)| *a.min(b)).collect() };
        top = top.max(ppm.px.iter().cloned().max().unwrap_or(-1));
    }
    out.put(Ev::new("storm").s("u", "storm").i("w", w).i("h", h).i("r", r).i("spp", spp as i64).i("threads", threads as i64).b("ok", ok).i("stray", stray)
        .b("size", size).a("lo", &lo).a("hi", &hi).a("px", &px).i("top", top).end());
}

fn prior(rng: &mut Rng) -> Option<Vec<u8>> {
    match rng.n(3) { 0 => None, 1 => Some(b"P3\n1 1\n255\n1 2 3\n".to_vec()), _ => Some(vec![b'x'; rng.n(3000)]) }
}

/// Some worker gets a tile and is the last to be done with it, or fails there.
fn held(rng: &mut Rng, n: usize, fails: bool) -> Job {
    let threads = [2u8, 8, 16, 17, 33, 64, 128, 255][n % 8];
    let t = threads as i64;
    let who = [t, t, 1, t / 2, t - 1][n / 2 % 5];
    let (r, tiles) = (*rng.pick(&[12, 16]), 3 * t + 4);
    Job { w: tiles * 16 - 3, h: 1, r, spp: 1, threads, plan: None, site: "camera", detail: false, jitter: false, prior: if fails { prior(rng) } else { None }, hold: Some((who, threads as usize, fails)), kind: if fails { "free-fault" } else { "large" } }
}

struct Broken;

pub fn run(a: &Args) {
    std::env::set_current_dir(&a.dir).unwrap();
    pt::verif::observe_samples(observer);
    let what = a.extra.get(0).cloned().unwrap_or_default();
    let mut rng = Rng::new(a.seed ^ 0x7E4D);
    let mut out = Out::new(&a.dir, a.shards);
    let plans: Vec<String> = a.input.as_ref().map(|p| std::fs::read_to_string(p).unwrap().lines().map(|s| s.to_string()).collect()).unwrap_or_default();
    match what.as_str() {
        "schedules" | "faults" => {
            for line in plans.iter() {
                let (threads, tiles, steps) = parse_plan(line);
                let (w, h, r) = size_for_tiles(tiles, &mut rng);
                let site = *rng.pick(&SITES);
                let spp = rng.i(1, 2) as u32;
                let per = if site == "sampler-clone" { 1 } else { rng.i(1, 12) };
                let plan: Vec<(i64, i64)> = steps.iter().map(|(w, f)| (*w, if *f { per } else { 0 })).collect();
                let fails = steps.iter().any(|s| s.1);
                let p = if fails { prior(&mut rng) } else { None };
                run_job(&mut out, &Job { w, h, r, spp, threads, plan: Some(plan), site, detail: true, jitter: false, prior: p, hold: None, kind: if fails { "faulty" } else { "schedule" } });
            }
            if what == "schedules" {
                // every small size and radius, free schedule
                for w in 0..(if a.thorough { 20 } else { 5 }) {
                    for h in 0..(if a.thorough { 4 } else { 3 }) {
                        for r in &[10, 15, 16, 17, 31, 32, 48, 49, 80] {
                            let threads = rng.i(1, 4) as u8;
                            run_job(&mut out, &Job { w, h, r: *r, spp: rng.i(1, 3) as u32, threads, plan: None, site: "", detail: true, jitter: false, prior: None, hold: None, kind: "small" });
                        }
                    }
                }
                for _ in 0..a.scale(60, 600) {
                    let (w, h) = (rng.i(1, 70), rng.i(1, 40));
                    let threads = *rng.pick(&[1u8, 2, 3, 4, 7, 8, 13, 16, 32, 64, 255]);
                    run_job(&mut out, &Job { w, h, r: *rng.pick(&[12, 15, 16, 32, 48, 64]), spp: rng.i(1, 3) as u32, threads, plan: None, site: "", detail: false, jitter: rng.b(), prior: None, hold: None, kind: "stress" });
                }
                // the same integrator again and again
                for _ in 0..a.scale(40, 400) {
                    let (w, h) = (rng.i(1, 50), rng.i(1, 30));
                    let mut threads = || *rng.pick(&[1u8, 2, 3, 4, 8, 16]);
                    let (first, more): (u8, Vec<u8>) = (threads(), (0..3).map(|_| threads()).collect());
                    let (detail, times) = (w * h < 300 && rng.b(), 1 + rng.n(3));
                    let later: Vec<Later> = more[..times].iter().map(|t| (*t, if rng.chance(1, 3) { Some((0..rng.n(6)).map(|_| (rng.i(1, *t as i64), 0)).collect()) } else { None }, "stress")).collect();
                    run_jobs(&mut out, &Job { w, h, r: *rng.pick(&[12, 15, 16, 32, 48]), spp: rng.i(1, 3) as u32, threads: first, plan: None, site: "", detail, jitter: rng.b(), prior: None, hold: None, kind: "stress" }, &later);
                }
                for n in 0..a.scale(12, 200) {
                    let (w, h) = [(1, 30000), (9000, 3), (260, 250), (2, 16000)][n % 4];
                    storm(&mut out, w, h, 12, 1 + (n % 3 == 2) as u32, *rng.pick(&[8u8, 8, 16, 4, 40]), 6, n % 3 == 1);
                }
                for n in 0..a.scale(8, 60) { let j = held(&mut rng, n, false); run_job(&mut out, &j); }
                // more tiles than two bytes can number
                storm(&mut out, 1050000, 1, 12, 1, 1 + (a.seed % 3) as u8, 1, false);
                // sizes and counts beyond a byte, two bytes, many tiles
                let sizes: [(i64, i64, u32); 7] = [(rng.i(260, 330), rng.i(240, 270), 1), (rng.i(4100, 4500), rng.i(1, 3), 1), (rng.i(1, 3), rng.i(4100, 4500), 1), (rng.i(1, 9), rng.i(1, 9), rng.i(257, 600) as u32), (2, 1, 66000), (rng.i(1, 3), 70000, 1), (66000, 1, 1)];
                for &(w, h, spp) in sizes.iter() {
                    let threads = if w > 65000 { 1 } else { *rng.pick(&[1u8, 2, 3, 8, 200]) };
                    run_job(&mut out, &Job { w, h, r: *rng.pick(&[12, 16, 32]), spp, threads, plan: None, site: "", detail: false, jitter: false, prior: None, hold: None, kind: "large" });
                }
            } else {
                for n in 0..a.scale(12, 60) { let j = held(&mut rng, n, true); run_job(&mut out, &j); }
                // a failure after renders that went well
                for k in 0..a.scale(36, 600) {
                    let (w, h) = (rng.i(1, 50), rng.i(1, 30));
                    let site = SITES[k % SITES.len()];
                    let n = if site == "sampler-clone" || site == "sampler-start" { 1 } else { rng.i(1, 40) };
                    let mut later: Vec<Later> = (0..rng.n(2)).map(|_| (*rng.pick(&[1u8, 2, 4, 8]), None, "stress")).collect();
                    let t = *rng.pick(&[1u8, 2, 3, 4, 8, 16]);
                    let mut plan: Vec<(i64, i64)> = (0..rng.n(4)).map(|_| (rng.i(1, t as i64), 0)).collect();
                    plan.push((rng.i(1, t as i64), n));
                    later.push((t, Some(plan), "free-fault"));
                    run_jobs(&mut out, &Job { w, h, r: *rng.pick(&[12, 16, 32]), spp: rng.i(1, 3) as u32, threads: *rng.pick(&[1u8, 2, 4, 8]), plan: None, site, detail: false, jitter: rng.b(), prior: None, hold: None, kind: "stress" }, &later);
                }
                // free schedules: some worker fails somewhere
                for k in 0..a.scale(150, 3000) {
                    let (w, h) = (rng.i(1, 50), rng.i(1, 30));
                    let threads = *rng.pick(&[1u8, 2, 3, 4, 8, 16]);
                    let site = SITES[k % SITES.len()];
                    // the first released worker fails at its n-th visit of the site, the gates are open for the rest
                    let n = if site == "sampler-clone" || site == "sampler-start" { 1 } else { rng.i(1, 40) };
                    let p = prior(&mut rng);
                    let mut plan = Vec::new();
                    for _ in 0..rng.n(4) { plan.push((rng.i(1, threads as i64), 0)); }
                    plan.push((rng.i(1, threads as i64), n));
                    if rng.b() { plan.push((rng.i(1, threads as i64), n)); }
                    run_job(&mut out, &Job { w, h, r: *rng.pick(&[12, 16, 32]), spp: rng.i(1, 3) as u32, threads, plan: Some(plan), site, detail: false, jitter: rng.b(), prior: p, hold: None, kind: "free-fault" });
                }
            }
        }
        "image" => images(&mut out, &mut rng, a),
        _ => panic!("render: {}", what),
    }
    out.finish();
}

// ---------- C02 ----------
type Draws = Arc<Mutex<Vec<(i64, i64, i64, i64, i64, i64)>>>; // run thread, x, y, k, draws, hash

struct Recorder<S: Sampler> { inner: S, at: (i64, i64), k: i64, n: i64, h: u64, log: Draws, live: bool }
impl<S: Sampler> Recorder<S> {
    fn new(inner: S, log: Draws) -> Self { Recorder { inner, at: (0, 0), k: 0, n: 0, h: 1, log, live: false } }
    fn mix(&mut self, v: f32) { self.n += 1; self.h = (self.h ^ v.to_bits() as u64).wrapping_mul(0x100000001B3).rotate_left(23); }
    fn flush(&mut self) {
        if self.live { self.log.lock().unwrap_or_else(|e| e.into_inner()).push((0, self.at.0, self.at.1, self.k, self.n, (self.h >> 20 & 0x3fff_ffff) as i64)); }
        self.n = 0; self.h = 1;
    }
}
impl<S: Sampler> Clone for Recorder<S> {
    fn clone(&self) -> Self { Recorder { inner: self.inner.clone(), at: self.at, k: self.k, n: self.n, h: self.h, log: self.log.clone(), live: false } }
}
impl<S: Sampler> Sampler for Recorder<S> {
    fn start_pixel(&mut self, p: Point2i) { self.inner.start_pixel(p); self.at = (p.x as i64, p.y as i64); self.k = 0; self.n = 0; self.h = 1; self.live = true; }
    fn start_next_sample(&mut self) -> bool { self.flush(); self.k += 1; self.inner.start_next_sample() }
    fn get_1d(&mut self) -> f32 { let v = self.inner.get_1d(); self.mix(v); v }
    fn get_2d(&mut self) -> Point2f { let v = self.inner.get_2d(); self.mix(v.x); self.mix(v.y); v }
}

/// A lobe that scatters on, so that samples draw different numbers of values.
struct On(f32);
impl BxDF for On {
    fn flag(&self) -> BxDFFlag { REFLECTION | DIFFUSE }
    fn f(&self, _: Vector3f, _: Vector3f) -> Spectrum { Spectrum::from(self.0) }
    fn sample_f(&self, _: Vector3f, s: Point2f) -> (Vector3f, Spectrum, f32) { (v3(0., 0., 1.), Spectrum::from(if s.x < 0.8 { self.0 } else { 0. }), 1.) }
    fn pdf(&self, _: Vector3f, _: Vector3f) -> f32 { 1. }
}
struct OnMat;
impl Material for OnMat { fn compute_scattering(&self, i: &Interaction) -> BSDF { let mut b = BSDF::new(i); b.add(On(0.9)); b } }
struct OnShape;
impl Shape for OnShape {
    fn bbox(&self) -> BBox3f { BBox3f::new(p3(-1., -1., -1.), p3(1., 1., 1.)) }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, _: &Ray) -> bool { true }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { Arc::new(OnMat) }
    fn sample(&self, _: Point2f) -> Interaction { Interaction::default() }
    fn l(&self, i: &Interaction, _: Vector3f) -> Spectrum {
        let f = |a: f32| (a * 37.7).fract().abs();
        Spectrum::new(f(i.p.x), f(i.p.y), f(i.p.x + i.p.y))
    }
}

fn images(out: &mut Out, rng: &mut Rng, a: &Args) {
    for u in 0..a.scale(24, 240) {
        out.unit();
        let (w, h) = if u % 4 == 3 { (rng.i(30, 60), rng.i(17, 30)) } else { (rng.i(1, 24), rng.i(1, 20)) };
        let r = *rng.pick(&[12, 15, 16, 32, 48]);
        let spp = rng.i(1, 3) as u32;
        out.put(Ev::new("config").s("u", "same-image").i("w", w).i("h", h).i("r", r).i("spp", spp as i64).b("exact", r < U / 2).end());
        let mk_film = || Film::new(Point2u::new(w as u32, h as u32), TableFilter { radius: r as f32 / U as f32, table: (0..256).map(|i| 1 + i % 7).collect(), unit: 1. });
        // an older pixel never matters: what a fresh sampler draws at a position
        let fresh = HaltonSampler::new(spp, mk_film().sample_bbox());
        let (x0, x1) = region(w, r);
        let (y0, y1) = region(h, r);
        let mut base: HashMap<(i64, i64, i64), Vec<f32>> = HashMap::new();
        for y in y0..y1 {
            for x in x0..x1 {
                let mut s = fresh.clone();
                s.start_pixel(Point2i::new(x as i32, y as i32));
                for k in 0..spp as i64 {
                    let v: Vec<f32> = (0..200).map(|_| s.get_1d()).collect();
                    base.insert((x, y, k), v);
                    s.start_next_sample();
                }
            }
        }
        // the last integrator renders several times
        let log: Draws = Arc::new(Mutex::new(Vec::new()));
        let ctl = Arc::new(Ctl { st: Mutex::new(St::default()), cv: Condvar::new(), main: thread::current().id(), detail: false, jitter: u % 2 == 0, x0, y0, site: "", hold: None });
        let mut kept = None;
        for run in 0..6 {
            let threads = if run == 0 { 1 } else { *rng.pick(&[1u8, 2, 3, 4, 5, 8, 16]) };
            if run < 4 { kept = None; }
            log.lock().unwrap_or_else(|e| e.into_inner()).clear();
            let gated = run > 0 && rng.b();
            ctl.fresh(gated);
            let driver = if gated {
                let plan: Vec<(i64, i64)> = (0..rng.n(12)).map(|_| (rng.i(1, threads as i64), 0)).collect();
                let c = ctl.clone();
                Some(thread::spawn(move || c.drive(&plan, threads as usize)))
            } else { None };
            let _ = std::fs::remove_file("output.ppm");
            let place = &mut kept;
            let res = guard(&|| format!("image {}x{} r={} threads={} run={}", w, h, r, threads, run), || {
                place.get_or_insert_with(|| {
                    let sampler = Recorder::new(HaltonSampler::new(spp, mk_film().sample_bbox()), log.clone());
                    Integrator::new(Builder::new().construct(|_| Screen(Arc::new(OnShape))), sampler, GateCamera::new(ctl.clone()), mk_film())
                }).render(threads)
            });
            ctl.drain(1);
            if let Some(d) = driver { let _ = d.join(); }
            if let Err(m) = res { out.put(Ev::new("panic").s("what", &m).end()); continue; }
            let log = log.lock().unwrap();
            for (_, x, y, k, n, hsh) in log.iter() {
                // what the reference stream gives for the same number of draws
                let e = base.get(&(*x, *y, *k)).map(|v| {
                    let mut h: u64 = 1;
                    for t in v.iter().take(*n as usize) { h = (h ^ t.to_bits() as u64).wrapping_mul(0x100000001B3).rotate_left(23); }
                    (h >> 20 & 0x3fff_ffff) as i64
                }).unwrap_or(-1);
                out.put(Ev::new("draw").i("x", *x).i("y", *y).i("k", *k).i("n", *n).i("h", *hsh).i("f", e).end());
            }
            let p = parse_ppm(&std::fs::read("output.ppm").unwrap_or_default());
            out.put(Ev::new("image").i("run", run).i("threads", threads as i64).a("px", &p.px).end());
            let _ = img_event;
        }
    }
}
