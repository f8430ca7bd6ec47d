//! C08 C09: the real samplers under call histories; values of the low-discrepancy sampler.
use crate::util::*;
use pt::api::{HaltonSampler, RandomSampler};
use pt::verif::bbox::*;
use pt::verif::sampler::*;
use pt::verif::vector::*;

/// {"spp":N,"ops":[["start",i,p],["get",i,n],["next",i,0],["clone",i,0]]}
fn parse(line: &str) -> (u32, Vec<(String, usize, i64)>) {
    let i = line.find("\"spp\":").unwrap() + 6;
    let spp = line[i..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap();
    let i = line.find("\"ops\":").unwrap() + 6;
    let mut ops = Vec::new();
    for part in line[i..].split('[').skip(2) {
        let t: Vec<&str> = part.trim_end_matches(|c: char| !c.is_ascii_digit()).split(',').collect();
        ops.push((t[0].trim_matches('"').to_string(), t[1].parse().unwrap(), t[2].parse().unwrap()));
    }
    (spp, ops)
}

fn history<S: Sampler>(out: &mut Out, rng: &mut Rng, kind: &str, spp: u32, first: S, ops: &[(String, usize, i64)], pixels: &[(i32, i32)]) {
    out.unit();
    out.put(Ev::new("new").s("u", "hist").s("kind", kind).i("spp", spp as i64).end());
    let mut v = vec![first];
    let mut at = vec![(0i32, 0i32)];
    let desc = format!("sampler {} spp={} ops={:?}", kind, spp, ops.iter().take(40).collect::<Vec<_>>());
    let mut log: Vec<String> = Vec::new();
    let r = guard(&|| desc.clone(), || {
        for (op, i, a) in ops {
            let s = *i - 1;
            match op.as_str() {
                "start" => {
                    let p = pixels[(*a as usize - 1) % pixels.len()];
                    v[s].start_pixel(Point2i::new(p.0, p.1));
                    at[s] = p;
                    log.push(Ev::new("start").i("s", *i as i64).i("x", p.0 as i64).i("y", p.1 as i64).end());
                }
                "next" => { let m = v[s].start_next_sample(); log.push(Ev::new("next").i("s", *i as i64).b("more", m).end()); }
                "clone" => { let c = v[s].clone(); v.push(c); let p = at[s]; at.push(p); log.push(Ev::new("clone").s("c", "").i("s", *i as i64).end()); }
                "get" if *a == 1 => { let x = v[s].get_1d(); log.push(Ev::new("get").i("s", *i as i64).a("v", &[ord(x)]).end()); }
                "get" => { let x = v[s].get_2d(); log.push(Ev::new("get").i("s", *i as i64).a("v", &[ord(x.x), ord(x.y)]).end()); }
                _ => {
                    let mut c = v[s].clone();
                    let p = at[s];
                    let f = v[s].get_camera_sample(Point2i::new(p.0, p.1)).p_film;
                    let w = c.get_2d();
                    log.push(Ev::new("cam").i("s", *i as i64).i("fx", q(f.x - p.0 as f32, 4096.)).i("fy", q(f.y - p.1 as f32, 4096.)).i("vx", q(w.x, 4096.)).i("vy", q(w.y, 4096.)).end());
                }
            }
        }
        // let every sampler say more, so that related streams can be compared
        for (i, s) in v.iter_mut().enumerate() {
            s.start_pixel(Point2i::new(3, 4));
            log.push(Ev::new("start").i("s", i as i64 + 1).i("x", 3).i("y", 4).end());
            for _ in 0..6 { let x = s.get_1d(); log.push(Ev::new("get").i("s", i as i64 + 1).a("v", &[ord(x)]).end()); }
        }
    });
    for e in log { out.put(e); }
    if let Err(m) = r { out.put(Ev::new("panic").s("what", &format!("{} in {}", m, desc)).end()); return; }
    let _ = rng;
    out.put(Ev::new("end").s("k", kind).end());
}

fn random_ops(rng: &mut Rng, spp: u32, n: usize) -> Vec<(String, usize, i64)> {
    let mut ops = vec![("start".to_string(), 1, 1)];
    let mut k = vec![(true, 0u32)]; // started, sample
    for _ in 0..n {
        let i = rng.n(k.len());
        let s = i + 1;
        match rng.n(12) {
            0 => { ops.push(("start".into(), s, rng.i(1, 8))); k[i] = (true, 0); }
            1 | 2 => if k[i].0 { ops.push(("next".into(), s, 0)); k[i].1 += 1; },
            3 if k.len() < 5 && rng.b() => { ops.push(("clone".into(), s, 0)); let c = k[i]; k.push(c); }
            4 if k[i].0 && k[i].1 < spp => ops.push(("cam".into(), s, 0)),
            _ => if k[i].0 && k[i].1 < spp { ops.push(("get".into(), s, rng.i(1, 2))); },
        }
    }
    ops
}

/// Samples offered for a pixel, for the same pixel again, and for another one.
fn count<S: Sampler>(mut s: S, spp: u32, draw: bool) -> Vec<i64> {
    [(3, 4), (3, 4), (0, 0)].iter().map(|p| {
        s.start_pixel(Point2i::new(p.0, p.1));
        let mut n = 1i64;
        loop {
            if draw { s.get_2d(); if n % 7 == 0 { s.get_1d(); } }
            if !s.start_next_sample() { return n; }
            n += 1;
            if n > spp as i64 + 3 { return n; }
        }
    }).collect()
}

fn region(rng: &mut Rng) -> BBox2i {
    let (x, y) = (rng.i(-9, 3) as i32, rng.i(-9, 3) as i32);
    let (w, h) = match rng.n(4) { 0 => (rng.i(1, 10), rng.i(1, 10)), 1 => (rng.i(1, 300), rng.i(1, 300)), 2 => (*rng.pick(&[1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 27, 28, 64, 81, 82, 127, 128, 129, 200, 1920]), *rng.pick(&[1, 2, 3, 4, 8, 9, 10, 27, 28, 81, 82, 127, 128, 129, 243, 244, 1080])), _ => (rng.i(60, 140), rng.i(60, 140)) };
    BBox2i::new(Point2i::new(x, y), Point2i::new(x + w as i32, y + h as i32))
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut rng = Rng::new(a.seed ^ 0x5A3);
    match a.extra.get(0).map(|s| s.as_str()) {
        Some("protocol") => {
            let plans: Vec<String> = std::fs::read_to_string(a.input.as_ref().unwrap()).unwrap().lines().map(|s| s.to_string()).collect();
            for (n, line) in plans.iter().enumerate() {
                let (spp, ops) = parse(line);
                let pixels = [(rng.i(-3, 5) as i32, rng.i(-3, 5) as i32), (rng.i(-200, 200) as i32, rng.i(-200, 200) as i32)];
                if n % 2 == 0 { let b = region(&mut rng); history(&mut out, &mut rng, "halton", spp, HaltonSampler::new(spp, b), &ops, &pixels); }
                else { history(&mut out, &mut rng, "random", spp, RandomSampler::new(spp), &ops, &pixels); }
            }
            for n in 0..a.scale(160, 3000) {
                let spp = *rng.pick(&[1u32, 1, 2, 3, 4, 7, 16]);
                let x = rng.i(-130, 130) as i32;
                let y = rng.i(-130, 130) as i32;
                // neighbours, the same cell a block away, the same row, the origin
                let pixels = [(x, y), (x + 1, y), (x, y + 1), (x + 128, y), (x, y - 128), (0, 0), if n % 2 == 0 { (-1, -1) } else { (x, y + 64) }, (y, x)];
                let ops = random_ops(&mut rng, spp, 60);
                if n % 3 < 2 { let b = region(&mut rng); history(&mut out, &mut rng, "halton", spp, HaltonSampler::new(spp, b), &ops, &pixels); }
                else { history(&mut out, &mut rng, "random", spp, RandomSampler::new(spp), &ops, &pixels); }
            }
            // large counts
            for spp in [64u32, 1000, 4097] {
                let mut ops = vec![("start".to_string(), 1, 1)];
                for k in 0..spp + 2 { if k < spp && k % 50 == 0 { ops.push(("get".into(), 1, 1 + k as i64 % 2)); } ops.push(("next".into(), 1, 0)); }
                let b = region(&mut rng);
                history(&mut out, &mut rng, "halton", spp, HaltonSampler::new(spp, b), &ops, &[(5, 7)]);
                history(&mut out, &mut rng, "random", spp, RandomSampler::new(spp), &ops, &[(5, 7)]);
            }
        }
        Some("streams") => {
            // a sampler says after how many samples a pixel is finished
            for spp in [1u32, 2, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 100000] {
                for kind in ["halton", "random"] {
                    out.unit();
                    let b = BBox2i::new(Point2i::new(0, 0), Point2i::new(rng.i(1, 40) as i32, rng.i(1, 30) as i32));
                    let draw = rng.b();
                    let r = guard(&|| format!("{} spp {}", kind, spp), || if kind == "halton" { count(HaltonSampler::new(spp, b), spp, draw) } else { count(RandomSampler::new(spp), spp, draw) });
                    match r {
                        Ok(n) => out.put(Ev::new("count").s("kind", kind).i("spp", spp as i64).a("n", &n).end()),
                        Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
                    }
                }
            }
            // a crowd of samplers, cloned from one another in turn: no two streams begin the same way
            for u in 0..a.scale(2, 6) {
                out.unit();
                let n = if u % 2 == 0 { 9000 } else { 12000 };
                let r = guard(&|| format!("{} clones", n), || {
                    let first = RandomSampler::new(1 + u as u32);
                    let mut heads: Vec<Vec<i64>> = vec![];
                    let mut last = first.clone();
                    for k in 0..n {
                        let mut s = match k % 3 { 0 => first.clone(), 1 => last.clone(), _ => RandomSampler::new(3) };
                        s.start_pixel(Point2i::new(0, 0));
                        let w = s.get_2d();
                        heads.push(vec![q(w.x, 1073741824.), q(w.y, 1073741824.), q(s.get_1d(), 1073741824.)]);
                        if u % 2 == 0 || k % 7 == 0 { last = s; }
                    }
                    heads
                });
                match r {
                    Ok(h) => out.put(Ev::new("crowd").i("n", n).aa("h", &h).end()),
                    Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
                }
            }
            // the largest and the smallest of very many values
            {
                out.unit();
                let n = 1u64 << a.scale(26, 29);
                let hs: Vec<_> = (0..8).map(|t| std::thread::spawn(move || {
                    let mut s = RandomSampler::new(1);
                    s.start_pixel(Point2i::new(0, 0));
                    let mut m = [[1f32, 0f32]; 3];
                    for _ in 0..n {
                        let v = if t % 2 == 0 { let w = s.get_2d(); [0.5, w.x, w.y] } else { [s.get_1d(), s.get_1d(), 0.5] };
                        for j in 0..3 { if v[j] < m[j][0] { m[j][0] = v[j]; } if v[j] > m[j][1] { m[j][1] = v[j]; } if v[j] != v[j] { m[j][1] = 2.; } }
                    }
                    m
                })).collect();
                for h in hs {
                    match h.join() {
                        Ok(m) => for w in m.iter() { out.put(Ev::new("extent").i("lo", w[0].to_bits() as i32 as i64).i("hi", w[1].to_bits() as i32 as i64).end()); },
                        Err(_) => out.put(Ev::new("panic").s("what", "very many values").end()),
                    }
                }
            }
            // values of the random sampler and of its clones are uniform, and successive ones independent
            for u in 0..a.scale(4, 60) {
                out.unit();
                let spp = 1 + rng.n(50) as u32;
                let n = 1i64 << 21;
                let r = guard(&|| format!("random sampler, spp {}", spp), || {
                    let mut s = RandomSampler::new(spp);
                    if u % 2 == 1 { s.start_pixel(Point2i::new(1, 1)); s = s.clone(); }
                    let (mut one, mut two, mut next, mut ends) = (vec![0i64; 4096], vec![0i64; 4096], vec![0i64; 4096], 0);
                    let (mut fine, mut finer) = (vec![0i64; 4096], vec![0i64; 4096]);
                    s.start_pixel(Point2i::new(0, 0));
                    let mut before = 0.5f32;
                    for k in 0..n {
                        let (x, y) = if u % 4 < 2 { let w = s.get_2d(); (w.x, w.y) } else { (s.get_1d(), s.get_1d()) };
                        one[(x * 4096.) as usize & 4095] += 1;
                        two[(y * 4096.) as usize & 4095] += 1;
                        next[((x * 64.) as usize & 63) * 64 + ((y * 64.) as usize & 63)] += 1;
                        // the later digits: the ninth to the twentieth
                        fine[(x as f64 * 1048576.) as usize & 4095] += 1;
                        finer[(y as f64 * 1048576.) as usize & 4095] += 1;
                        if x == before || x == y { ends += 1; }
                        before = y;
                        if k % 3 == 2 && !s.start_next_sample() { s.start_pixel(Point2i::new(k as i32 & 15, 0)); }
                    }
                    (one, two, next, fine, finer, ends)
                });
                match r {
                    Ok((one, two, next, fine, finer, ends)) => for (what, c) in [("first", one), ("second", two), ("pairs", next), ("later digits of the first", fine), ("later digits of the second", finer)] { out.put(Ev::new("uniform").s("what", what).i("n", n).i("same", ends).a("c", &c).end()); },
                    Err(m) => out.put(Ev::new("panic").s("what", &m).end()),
                }
            }
        }
        Some("values") => {
            for u in 0..a.scale(120, 2500) {
                out.unit();
                let b = region(&mut rng);
                let (w, h) = (b.max.x - b.min.x, b.max.y - b.min.y);
                let big = u % 8 == 0;
                let spp = if big { *rng.pick(&[3000u32, 20_000, 60_000]) } else { rng.i(1, 40) as u32 };
                out.put(Ev::new("region").s("u", "values").i("w", w as i64).i("h", h as i64).i("x0", b.min.x as i64).i("y0", b.min.y as i64).i("spp", spp as i64).end());
                let mut s = HaltonSampler::new(spp, b);
                let mut last = None;
                for _ in 0..(if big { 2 } else { 10 }) {
                    let p = match rng.n(7) {
                        0 => (b.min.x, b.min.y),
                        1 => (b.max.x - 1, b.max.y - 1),
                        2 => (rng.i(-3, 3) as i32, rng.i(-3, 3) as i32),
                        // from the previous one, a power of two away in one direction
                        3 if last.is_some() => { let (x, y): (i32, i32) = last.unwrap(); let d = *rng.pick(&[1, 2, 8, 16, 27, 32, 64, 81, 128, 243, 256, 512]) * if rng.b() { 1 } else { -1 }; if rng.b() { (x + d, y) } else { (x, y + d) } }
                        4 => (128 * rng.i(-3, 3) as i32, 128 * rng.i(-3, 3) as i32),
                        _ => (rng.i(b.min.x as i64, b.max.x as i64 - 1) as i32, rng.i(b.min.y as i64, b.max.y as i64 - 1) as i32),
                    };
                    last = Some(p);
                    out.put(Ev::new("pixel").i("x", p.0 as i64).i("y", p.1 as i64).end());
                    let ks: Vec<u32> = (0..4).map(|_| rng.n(spp as usize) as u32).chain(vec![0, spp - 1]).collect();
                    let ndim = if rng.chance(1, 4) { 1024 } else { *rng.pick(&[2usize, 5, 12, 40]) };
                    let mut log = Vec::new();
                    let r = guard(&|| format!("halton {}x{} pixel {:?}", w, h, p), || {
                        s.start_pixel(Point2i::new(p.0, p.1));
                        for k in 0..spp {
                            if ks.contains(&k) {
                                let mut d = 0;
                                let (mut dims, mut vals) = (vec![], vec![]);
                                let keep = |d: usize| ndim <= 40 || d < 2 || d >= 1020 || (d * 31 + k as usize * 7 + (p.0 & 15) as usize) % 16 == 0;
                                while d < ndim {
                                    if (d + k as usize) % 3 == 0 || d + 1 >= ndim {
                                        let x = s.get_1d();
                                        if keep(d) { dims.push(d as i64); vals.push(q(x, 1073741824.)); }
                                        d += 1;
                                    } else {
                                        let x = s.get_2d();
                                        if keep(d) { dims.push(d as i64); vals.push(q(x.x, 1073741824.)); }
                                        if keep(d + 1) { dims.push(d as i64 + 1); vals.push(q(x.y, 1073741824.)); }
                                        d += 2;
                                    }
                                }
                                log.push(Ev::new("vals").i("k", k as i64).a("d", &dims).a("v", &vals).end());
                            }
                            s.start_next_sample();
                        }
                    });
                    for e in log { out.put(e); }
                    if let Err(m) = r { out.put(Ev::new("panic").s("what", &m).end()); }
                }
            }
        }
        _ => panic!("sampler"),
    }
    out.finish();
}
