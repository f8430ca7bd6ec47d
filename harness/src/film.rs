//! C04 C05 C06: samples into tiles, tiles into the film, the film into a PPM.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use crate::mock::*;
use crate::util::*;
use pt::verif::bbox::*;
use pt::verif::filter::Filter;
use pt::verif::vector::*;
use pt::api::{Film, GaussianFilter, Integrator, Spectrum};

pub const U: i64 = 32; // units per pixel
const CS: i64 = 256; // colour units

fn film_event(kind: &str, w: i64, h: i64, r: i64, table: &[i64]) -> String {
    Ev::new("film").s("u", kind).i("w", w).i("h", h).i("r", r).a("tab", table).end()
}
pub fn img_event(data: &[u8]) -> String {
    let p = parse_ppm(data);
    Ev::new("img").s("magic", &p.magic).i("w", p.w).i("h", p.h).i("max", p.max).i("bad", p.bad).a("px", &p.px).end()
}
/// The same for a large image: runs of equal pixels.
fn runs_event(data: &[u8]) -> String {
    let p = parse_ppm(data);
    let mut runs: Vec<Vec<i64>> = Vec::new();
    for c in p.px.chunks(3) {
        let c = if c.len() == 3 { [c[0], c[1], c[2]] } else { [-1; 3] };
        match runs.last_mut() { Some(r) if r[1..] == c => { r[0] += 1; continue; } _ => () }
        if runs.len() > 4000 { break; }
        runs.push(vec![1, c[0], c[1], c[2]]);
    }
    Ev::new("img").s("magic", &p.magic).i("w", p.w).i("h", p.h).i("max", p.max).i("bad", p.bad).i("n", p.px.len() as i64).aa("runs", &runs).end()
}
fn table(rng: &mut Rng, kind: usize) -> Vec<i64> {
    (0..256).map(|i| match kind {
        0 => 1,
        1 => 1 + (i % 16 < 8) as i64 * 2 + (i / 16 < 4) as i64 * 5,
        2 => rng.i(0, 15),
        // lobes below zero, as sharpening filters have
        4 => rng.i(-4, 12),
        5 => if i % 16 < 8 && i / 16 < 8 { rng.i(4, 15) } else { rng.i(-3, 0) },
        _ => if rng.chance(1, 3) { 0 } else { rng.i(1, 12) },
    }).collect()
}
fn colour(rng: &mut Rng) -> [i64; 3] {
    let m = *rng.pick(&[16, 64, 256, 400]);
    if rng.chance(1, 10) { return [0; 3]; }
    [rng.i(0, m), rng.i(0, m), rng.i(0, m)]
}
fn spec(c: [i64; 3]) -> Spectrum { Spectrum::new(c[0] as f32 / CS as f32, c[1] as f32 / CS as f32, c[2] as f32 / CS as f32) }

fn region(n: i64, r: i64) -> (i64, i64) {
    ((U / 2 - r).div_euclid(U), -(-(n * U - U / 2 + r)).div_euclid(U))
}
/// The filter's values only matter relative to each other.
fn unit(rng: &mut Rng) -> f32 { *rng.pick(&[0.25f32, 0.25, 1., 1.5e-5, 1e-7, 700.]) }
fn radius(rng: &mut Rng) -> i64 { *rng.pick(&[8, 12, 15, 16, 17, 20, 24, 30, 32, 33, 40, 48, 49, 60, 64, 80]) }

/// Arbitrary tiles, arbitrary order of samples and merges, several tiles open at once.
fn direct(out: &mut Out, rng: &mut Rng) {
    out.unit();
    let wide = rng.chance(1, 6);
    // one sample reaches scores of pixels of a row or of a column
    let broad = wide && rng.chance(1, 2);
    let (w, h) = (rng.i(1, if wide { 30 } else { 9 }), rng.i(1, 7));
    let (w, h) = if broad { let (a, b) = (rng.i(33, 90), rng.i(1, 2)); if rng.b() { (a, b) } else { (b, a) } } else { (w, h) };
    let r = if broad { *rng.pick(&[520, 560, 660, 1000, 1300]) } else if wide { *rng.pick(&[100, 128, 160, 250, 256, 270, 336, 400, 560]) } else { radius(rng) };
    let k = rng.n(6);
    let tab = if wide { (0..256).map(|_| rng.i(0, 2)).collect() } else { table(rng, k) };
    out.put(film_event("direct", w, h, r, &tab));
    let (x0, x1) = region(w, r);
    let (y0, y1) = region(h, r);
    // cut the sample region into a grid of tiles
    let cut = |rng: &mut Rng, a: i64, b: i64| { let mut v = vec![a]; let mut c = a; loop { c += if broad { rng.i(40, 120) } else if wide { rng.i(3, 24) } else { rng.i(1, 5) }; if c >= b { v.push(b); break; } v.push(c); } v };
    let (cx, cy) = (cut(rng, x0, x1), cut(rng, y0, y1));
    let mut todo: Vec<(i64, i64, i64, i64)> = Vec::new();
    for i in 1..cx.len() { for j in 1..cy.len() { todo.push((cx[i - 1], cy[j - 1], cx[i], cy[j])); } }
    rng.shuffle(&mut todo);
    let per = if broad { 1 } else { 1 + rng.n(3) };
    let dark = rng.chance(1, 4);
    let mut log: Vec<String> = Vec::new();
    let res = guard(&|| format!("film {}x{} r={}/32", w, h, r), || {
        // weights that cancel have to cancel exactly
        let unit = if k > 3 { *rng.pick(&[0.25f32, 1., 1. / 1048576., 64.]) } else { unit(rng) };
        let film = Film::new(Point2u::new(w as u32, h as u32), TableFilter { radius: r as f32 / U as f32, table: tab.clone(), unit });
        let mut open = Vec::new();
        let mut id = 0;
        while !todo.is_empty() || !open.is_empty() {
            if !todo.is_empty() && (open.is_empty() || rng.chance(1, 2)) {
                let b = todo.pop().unwrap();
                let tile = film.get_film_tile(BBox2i::new(Point2i::new(b.0 as i32, b.1 as i32), Point2i::new(b.2 as i32, b.3 as i32)));
                id += 1;
                let n = ((b.2 - b.0) * (b.3 - b.1)) as usize;
                open.push((id, b, tile, 1 + rng.n(per * n.min(6))));
            } else {
                let i = rng.n(open.len());
                if open[i].3 == 0 {
                    let (id, _, tile, _) = open.swap_remove(i);
                    film.merge_film_tile(tile);
                    log.push(Ev::new("merge").i("t", id).end());
                } else {
                    let (id, b, ref mut tile, ref mut left) = open[i];
                    *left -= 1;
                    let pos = |rng: &mut Rng, a: i64, b: i64| {
                        let p = rng.i(a, b - 1) * U;
                        p + match rng.n(4) { 0 => 0, 1 => U - 1, 2 => U / 2, _ => rng.i(0, U - 1) }
                    };
                    let (x, y) = (pos(rng, b.0, b.2), pos(rng, b.1, b.3));
                    // whole tiles may be dark
                    let c = if dark && (b.0 * 7 + b.1 * 3) % 4 != 0 { [0; 3] } else { colour(rng) };
                    tile.add_sample(Point2f::new(x as f32 / U as f32, y as f32 / U as f32), spec(c));
                    log.push(Ev::new("add").i("t", id).i("x", x).i("y", y).a("c", &c).b("ok", true).end());
                }
            }
        }
        let mut buf = Vec::new();
        film.write_image_ppm(&mut buf);
        buf
    });
    for s in log { out.put(s); }
    match res {
        Ok(buf) => out.put(img_event(&buf)),
        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
    }
}

fn bad_spec(rng: &mut Rng, c: [i64; 3]) -> Spectrum {
    let mut s = spec(c);
    let n = 1 + rng.n(3);
    for _ in 0..n {
        let i = rng.n(3);
        s[i] = *rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1., -1e-30, -f32::MAX, -0.001, -f32::NAN, -1e-45]);
    }
    s
}

/// Valid radiance of any size: far beyond white, or nothing to speak of.
fn huge_spec(rng: &mut Rng, mut c: [i64; 3]) -> (Spectrum, [i64; 3]) {
    let mut s = spec(c);
    let n = rng.n(3);
    for i in 0..3 { if i == n || rng.b() { if rng.chance(1, 4) { s[i] = *rng.pick(&[0., -0., 1e-45, 1e-38, 1e-20]); c[i] = 0; } else { s[i] = *rng.pick(&[f32::MAX, 3e38, 1e38, 1e30, 1e20, 1e12]); c[i] = 400000; } } }
    (s, c)
}

/// A whole render with scripted samples; some carry invalid radiance.
fn rendered(out: &mut Out, rng: &mut Rng, invalid: bool, big: bool) {
    out.unit();
    let (w, h) = if big { (rng.i(17, 34), rng.i(1, 19)) } else { (rng.i(1, 6), rng.i(1, 5)) };
    let far = !big && !invalid && rng.chance(1, 8);      // everything reaches everything
    let many = !big && invalid && rng.chance(1, 20);     // most samples of one pixel are invalid
    let (w, h) = if many { (rng.i(1, 2), 1) } else { (w, h) };
    let r = if big { *rng.pick(&[12, 16, 24, 32]) } else if far { *rng.pick(&[120, 170, 260, 300, 560, 660]) } else if many { *rng.pick(&[10, 15]) } else { radius(rng) };
    let spp = if big || far { 1 } else if many { *rng.pick(&[80, 150, 300]) } else { rng.i(1, 4) } as u32;
    let (w, h) = if r > 500 { (rng.i(1, 2), 1) } else { (w, h) };
    let threads = rng.i(1, 5) as u8;
    let k = rng.n(4);
    let tab = if far { (0..256).map(|_| rng.i(0, 1)).collect() } else { table(rng, if many { k % 2 } else { k }) };
    out.put(film_event(if invalid { "render-invalid" } else { "render" }, w, h, r, &tab));
    let (x0, x1) = region(w, r);
    let (y0, y1) = region(h, r);
    // script
    let share = if many { 18 } else if invalid { *rng.pick(&[1, 3, 10, 20]) } else { 0 }; // of 20
    let mut script: HashMap<(i32, i32, u32), (i64, i64, Spectrum, [i64; 3], bool)> = HashMap::new();
    for y in y0..y1 {
        for x in x0..x1 {
            let all_bad = invalid && !many && rng.chance(1, 12);
            for k in 0..spp {
                let ox = rng.i(0, U - 1);
                let oy = rng.i(0, U - 1);
                let c = colour(rng);
                let ok = !(all_bad || rng.n(20) < share);
                let (s, c) = if !ok { (bad_spec(rng, c), c) } else if invalid && rng.chance(1, 25) { huge_spec(rng, c) } else { (spec(c), c) };
                script.insert((x as i32, y as i32, k), (ox, oy, s, c, ok));
            }
        }
    }
    // sample k is encoded by the film position; make positions of one pixel distinct
    let mut used: HashMap<(i64, i64), Spectrum> = HashMap::new();
    let mut keys: Vec<_> = script.keys().cloned().collect();
    keys.sort();
    for key in keys.iter() {
        let e = script.get_mut(key).unwrap();
        loop {
            let at = (key.0 as i64 * U + e.0, key.1 as i64 * U + e.1);
            if !used.contains_key(&at) { used.insert(at, e.2); break; }
            e.0 = (e.0 + 1) % U;
            if e.0 == 0 { e.1 = (e.1 + 1) % U; }
        }
    }
    for key in keys.iter() {
        let e = &script[key];
        out.put(Ev::new("add").i("t", 0).i("x", key.0 as i64 * U + e.0).i("y", key.1 as i64 * U + e.1).a("c", &e.3).b("ok", e.4).end());
    }
    out.put(Ev::new("merge").i("t", 0).end());
    let film = Film::new(Point2u::new(w as u32, h as u32), TableFilter { radius: r as f32 / U as f32, table: tab, unit: unit(rng) });
    let sc = Arc::new(script);
    let sampler = FnSampler::new(spp, Arc::new(move |p: Point2i, k, d| match sc.get(&(p.x, p.y, k)) {
        Some(e) if d == 0 => e.0 as f32 / U as f32,
        Some(e) if d == 1 => e.1 as f32 / U as f32,
        _ => 0.25,
    }));
    let stray = Arc::new(Mutex::new(0));
    let st = stray.clone();
    let scene = screen_scene(move |i| {
        let at = ((i.p.x * U as f32).round() as i64, (i.p.y * U as f32).round() as i64);
        match used.get(&at) { Some(s) => *s, None => { *st.lock().unwrap() += 1; Spectrum::from(1.) } }
    });
    let _ = std::fs::remove_file("output.ppm");
    let res = guard(&|| format!("render {}x{} r={}/32 spp={} threads={}", w, h, r, spp, threads), move || {
        Integrator::new(scene, sampler, FlatCamera, film).render(threads);
    });
    match res {
        Ok(()) => out.put(img_event(&std::fs::read("output.ppm").unwrap_or_default())),
        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
    }
}

/// More invalid samples than 16 bits count, a few valid ones among them.
fn multitude(out: &mut Out, rng: &mut Rng) {
    out.unit();
    let (spp, r) = (70000u32, 12);
    out.put(film_event("render-multitude", 1, 1, r, &vec![1; 256]));
    let mut good: HashMap<u32, [i64; 3]> = HashMap::new();
    for _ in 0..5 { good.insert(rng.n(spp as usize) as u32, colour(rng)); }
    good.insert(spp - 1, colour(rng));
    for c in good.values() { out.put(Ev::new("add").i("t", 0).i("x", U / 2).i("y", U / 2).a("c", c).b("ok", true).end()); }
    out.put(Ev::new("merge").i("t", 0).end());
    let film = Film::new(Point2u::new(1, 1), TableFilter { radius: r as f32 / U as f32, table: vec![1; 256], unit: 0.25 });
    let index = Arc::new(Mutex::new(0u32));
    let i2 = index.clone();
    let sampler = FnSampler::new(spp, Arc::new(move |_, k, _| { *i2.lock().unwrap() = k; 0.5 }));
    let scene = screen_scene(move |_| match good.get(&*index.lock().unwrap()) { Some(c) => spec(*c), None => Spectrum::new(0.5, f32::NAN, -1.) });
    let _ = std::fs::remove_file("output.ppm");
    let res = guard(&|| "70000 samples, nearly all invalid".to_string(), move || Integrator::new(scene, sampler, FlatCamera, film).render(1));
    match res {
        Ok(()) => out.put(img_event(&std::fs::read("output.ppm").unwrap_or_default())),
        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
    }
}

/// A large image with a few lit places.
fn vast(out: &mut Out, rng: &mut Rng, w: i64, h: i64) {
    out.unit();
    let r = *rng.pick(&[12, 20, 33, 40]);
    let tab = table(rng, 3);
    out.put(Ev::new("film").s("u", "sparse").i("w", w).i("h", h).i("r", r).a("tab", &tab).end());
    let mut at = vec![(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (w / 2, h - 1), (w - 1, h / 2)];
    for _ in 0..30 { at.push((rng.i(0, w - 1), rng.i(0, h - 1))); }
    let marks: Vec<(i64, i64, [i64; 3])> = at.iter().map(|p| (p.0 * U + rng.i(0, U - 1), p.1 * U + rng.i(0, U - 1), [rng.i(1, 400), rng.i(1, 256), rng.i(1, 100)])).collect();
    let mut t = 0;
    for m in marks.iter() {
        out.put(Ev::new("add").i("t", t).i("x", m.0).i("y", m.1).a("c", &m.2).b("ok", true).end());
        out.put(Ev::new("merge").i("t", t).end());
        t += 1;
    }
    let u = unit(rng);
    let res = guard(&|| format!("large image {}x{} r={}/32", w, h, r), || {
        let film = Film::new(Point2u::new(w as u32, h as u32), TableFilter { radius: r as f32 / U as f32, table: tab.clone(), unit: u });
        for m in marks.iter() {
            let (x, y) = (m.0.div_euclid(U) as i32, m.1.div_euclid(U) as i32);
            let mut tile = film.get_film_tile(BBox2i::new(Point2i::new(x, y), Point2i::new(x + 1, y + 1)));
            tile.add_sample(Point2f::new(m.0 as f32 / U as f32, m.1 as f32 / U as f32), spec(m.2));
            film.merge_film_tile(tile);
        }
        let mut buf = Vec::new();
        film.write_image_ppm(&mut buf);
        buf
    });
    match res {
        Ok(buf) => out.put(runs_event(&buf)),
        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
    }
}

/// One sample per pixel at its centre: the encoding of single values.
/// Values are given in 2^-20 units, or as multiples `big` beyond.
fn codes(out: &mut Out, vals: &[i64]) {
    out.unit();
    let w = vals.len() as i64;
    out.put(Ev::new("codes").s("u", "codes").i("w", w).a("v", vals).end());
    let res = guard(&|| format!("codes {:?}", vals), || {
        let film = Film::new(Point2u::new(w as u32, 1), GaussianFilter::new(0.25, 1.));
        let mut tile = film.get_film_tile(BBox2i::new(Point2i::new(0, 0), Point2i::new(w as i32, 1)));
        for (i, v) in vals.iter().enumerate() {
            // a channel each, the others fixed
            let x = *v as f32 / (1 << 20) as f32;
            let mut s = Spectrum::new(0., 0., 0.);
            s[i % 3] = x;
            tile.add_sample(Point2f::new(i as f32 + 0.5, 0.5), s);
        }
        film.merge_film_tile(tile);
        let mut buf = Vec::new();
        film.write_image_ppm(&mut buf);
        buf
    });
    match res {
        Ok(buf) => out.put(img_event(&buf)),
        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
    }
}

/// Two samples in each pixel: one with weight 1, the other beyond all measure with next to no weight.
/// What they come to is the sum of both parts.
struct Peaked { low: f32 }
impl Filter for Peaked {
    fn radius(&self) -> f32 { 0.375 }
    fn evaluate(&self, p: Point2f) -> f32 { if p.x > 0.19 || p.y > 0.19 { self.low } else { 1. } }
}
fn range(out: &mut Out, rng: &mut Rng) {
    out.unit();
    let w = rng.i(2, 60);
    let a = *rng.pick(&[30, 45, 60, 90]);
    let mut parts: Vec<(i64, i64)> = (0..w).map(|_| { let m = 1 << rng.i(4, 19); (rng.i(0, m), rng.i(0, m)) }).collect();
    parts.sort_by_key(|p| p.0 + p.1);
    out.put(Ev::new("codes").s("u", "range").i("w", w).a("v", &parts.iter().map(|p| p.0 + p.1).collect::<Vec<_>>()).end());
    let threads = rng.i(1, 3) as u8;
    let up = (2f32).powi(a);
    let res = guard(&|| format!("samples 2^{} apart: {:?}", a, parts), || {
        let film = Film::new(Point2u::new(w as u32, 1), Peaked { low: 1. / up });
        let sampler = FnSampler::new(2, Arc::new(|_, k, d| match d { 0 => if k == 0 { 0.5 } else { 0.8125 }, 1 => 0.5, _ => 0.25 }));
        let parts = parts.clone();
        let scene = screen_scene(move |i| {
            let (x, far) = (i.p.x.floor(), i.p.x - i.p.x.floor() > 0.6);
            let mut s = Spectrum::new(0., 0., 0.);
            if let Some(p) = parts.get(x as usize) { s[x as usize % 3] = if far { p.1 as f32 / 1048576. * up } else { p.0 as f32 / 1048576. }; }
            s
        });
        let _ = std::fs::remove_file("output.ppm");
        Integrator::new(scene, sampler, FlatCamera, film).render(threads);
        std::fs::read("output.ppm").unwrap_or_default()
    });
    match res {
        Ok(buf) => out.put(img_event(&buf)),
        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
    }
}

/// Huge and tiny values, still one sample per pixel: expected level given by the specification as 255 or 0.
fn extremes(out: &mut Out) {
    let xs: Vec<(f32, i64)> = vec![(0., 0), (-0., 0), (1e-30, 0), (1e-45, 0), (1., 1 << 20), (1.0001, 1 << 20), (2., 1 << 20), (255., 1 << 20), (1e9, 1 << 20), (4.3e9, 1 << 20), (1e20, 1 << 20), (1e38, 1 << 20), (f32::MAX, 1 << 20)];
    out.unit();
    out.put(Ev::new("codes").s("u", "extremes").i("w", xs.len() as i64).a("v", &xs.iter().map(|x| x.1).collect::<Vec<_>>()).end());
    let res = guard(&|| "extreme values".to_string(), || {
        let film = Film::new(Point2u::new(xs.len() as u32, 1), GaussianFilter::new(0.25, 1.));
        let mut tile = film.get_film_tile(BBox2i::new(Point2i::new(0, 0), Point2i::new(xs.len() as i32, 1)));
        for (i, v) in xs.iter().enumerate() {
            let mut s = Spectrum::new(0., 0., 0.);
            s[i % 3] = v.0;
            tile.add_sample(Point2f::new(i as f32 + 0.5, 0.5), s);
        }
        film.merge_film_tile(tile);
        let mut buf = Vec::new();
        film.write_image_ppm(&mut buf);
        buf
    });
    match res {
        Ok(buf) => out.put(img_event(&buf)),
        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
    }
}

/// No pixels at all: the header still tells the size.
fn empty(out: &mut Out, w: i64, h: i64) {
    out.unit();
    out.put(Ev::new("hull").s("u", "empty").i("w", w).i("h", h).a("lo", &[0, 0, 0]).a("hi", &[0, 0, 0]).end());
    let res = guard(&|| format!("empty {}x{}", w, h), || {
        let film = Film::new(Point2u::new(w as u32, h as u32), GaussianFilter::new(0.25, 1.));
        let mut buf = Vec::new();
        film.write_image_ppm(&mut buf);
        buf
    });
    match res {
        Ok(buf) => out.put(img_event(&buf)),
        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
    }
}

/// The real Gaussian filter: constant in, constant out; and every level between the extremes.
fn gauss(out: &mut Out, rng: &mut Rng) {
    out.unit();
    let (w, h) = (rng.i(1, 12), rng.i(1, 10));
    let r = *rng.pick(&[0.75f32, 1., 1.5, 2., 2.5, 3.]);
    let alpha = *rng.pick(&[0.5f32, 1., 2.]);
    let flat = rng.b();
    let c = colour(rng);
    let mut lo = [i64::MAX; 3];
    let mut hi = [0; 3];
    let seed = rng.u64();
    let res = guard(&|| format!("gauss {}x{} r={} alpha={}", w, h, r, alpha), || {
        let mut rng = Rng::new(seed);
        let film = Film::new(Point2u::new(w as u32, h as u32), GaussianFilter::new(r, alpha));
        for t in film.iter() {
            let mut tile = film.get_film_tile(t);
            for p in t.iter() {
                for _ in 0..3 {
                    let c = if flat { c } else { colour(&mut rng) };
                    for i in 0..3 { lo[i] = lo[i].min(c[i]); hi[i] = hi[i].max(c[i]); }
                    tile.add_sample(Point2f::new(p.x as f32 + rng.f() as f32, p.y as f32 + rng.f() as f32), spec(c));
                }
            }
            film.merge_film_tile(tile);
        }
        let mut buf = Vec::new();
        film.write_image_ppm(&mut buf);
        buf
    });
    out.put(Ev::new("hull").s("u", "gauss").i("w", w).i("h", h).a("lo", &lo).a("hi", &hi).end());
    match res {
        Ok(buf) => out.put(img_event(&buf)),
        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
    }
}

/// Values of the Gaussian itself at offsets of 1/8 pixel.
fn gauss_values(out: &mut Out, rng: &mut Rng) {
    out.unit();
    let r8 = rng.i(4, 16);
    let alpha = *rng.pick(&[2i64, 4]);
    let f = GaussianFilter::new(r8 as f32 / 8., alpha as f32);
    out.put(Ev::new("gauss").s("u", "gaussian").i("r", r8).i("alpha", alpha).i("radius", q(f.radius(), 8.)).end());
    for _ in 0..40 {
        let (x, y) = (rng.i(-r8, r8), rng.i(-r8, r8));
        let v = f.evaluate(Point2f::new(x as f32 / 8., y as f32 / 8.));
        out.put(Ev::new("gval").i("x", x).i("y", y).i("v", q(v, (1 << 30) as f64)).end());
    }
}

pub fn run(a: &Args) {
    std::env::set_current_dir(&a.dir).unwrap();
    let what = a.extra.get(0).cloned().unwrap_or_default();
    let mut rng = Rng::new(a.seed ^ 0xF11);
    let mut out = Out::new(&a.dir, a.shards);
    match what.as_str() {
        "mean" => {
            for _ in 0..a.scale(320, 4000) { direct(&mut out, &mut rng); }
            for _ in 0..a.scale(48, 600) { rendered(&mut out, &mut rng, false, false); }
            for _ in 0..a.scale(8, 64) { rendered(&mut out, &mut rng, false, true); }
            for _ in 0..a.scale(80, 1000) { gauss(&mut out, &mut rng); }
            for _ in 0..a.scale(40, 400) { gauss_values(&mut out, &mut rng); }
            for _ in 0..a.scale(6, 60) { range(&mut out, &mut rng); }
        }
        "invalid" => {
            for _ in 0..a.scale(240, 3000) { rendered(&mut out, &mut rng, true, false); }
            for _ in 0..a.scale(8, 80) { rendered(&mut out, &mut rng, true, true); }
            multitude(&mut out, &mut rng);
            for _ in 0..a.scale(12, 120) { range(&mut out, &mut rng); }
        }
        "codes" => {
            extremes(&mut out);
            for n in &[0, 1, 2, 255, 256, 257, 1000, 65535, 65536, 100000] { empty(&mut out, *n, 0); empty(&mut out, 0, *n); }
            // around every level boundary, and everywhere
            let inv = |v: f64| if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) };
            let mut vals: Vec<i64> = vec![0, 1, 2, 3, 1 << 20, (1 << 20) + 4096, 3 << 19, 3 << 20];
            for k in 1..256 {
                let t = (inv((k as f64 - 0.5) / 255.) * (1u64 << 20) as f64).round() as i64;
                for d in &[-40, -12, -4, 4, 12, 40] { vals.push((t + d).max(0)); }
                vals.push((inv(k as f64 / 255.) * (1u64 << 20) as f64).round() as i64);
            }
            for _ in 0..a.scale(4000, 200000) { let m = *rng.pick(&[1 << 8, 1 << 12, 1 << 16, 1 << 20]); vals.push(rng.i(0, m)); }
            for _ in 0..a.scale(200, 4000) { vals.push(rng.i(1 << 20, 1 << 26)); }
            // larger values never map to smaller levels: whole sorted runs in one image
            vals.sort();
            for c in vals.chunks(60) { codes(&mut out, c); }
            for _ in 0..a.scale(60, 600) { direct(&mut out, &mut rng); }
            for _ in 0..a.scale(1, 4) {
                let (n, m) = (rng.i(17, 23), rng.i(65540, 70000));
                let (w, h) = (rng.i(1200, 2000), rng.i(900, 1100));
                for (w, h) in [(n, m), (m, n), (w, h)].iter() { vast(&mut out, &mut rng, *w, *h); }
            }
        }
        _ => panic!("film: {}", what),
    }
    out.finish();
}
