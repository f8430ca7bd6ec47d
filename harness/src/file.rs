//! C07: what is left on disk after a render, with older contents and failing writes.
use std::io::{self, Write};
use std::sync::Arc;

use crate::mock::*;
use crate::util::*;
use pt::api::{Film, Integrator, Spectrum};
use pt::verif::vector::*;

fn film(w: u32, h: u32) -> Film { Film::new(Point2u::new(w, h), TableFilter { radius: 0.375, table: vec![1; 256], unit: 1. }) }
fn colour(x: f32, y: f32, salt: i64) -> Spectrum {
    let k = |a: i64| ((x.floor() as i64 * 31 + y.floor() as i64 * 17 + a * salt).rem_euclid(300)) as f32 / 256.;
    Spectrum::new(k(1), k(5), k(9))
}
fn render(w: u32, h: u32, salt: i64, threads: u8) {
    let scene = screen_scene(move |i| colour(i.p.x, i.p.y, salt));
    let sampler = FnSampler::new(1, Arc::new(|_, _, _| 0.5));
    Integrator::new(scene, sampler, FlatCamera, film(w, h)).render(threads)
}
fn reference(w: u32, h: u32, salt: i64) -> (Vec<u8>, bool) {
    let _ = std::fs::remove_file("output.ppm");
    render(w, h, salt, 1);
    let b = std::fs::read("output.ppm").unwrap_or_default();
    let p = parse_ppm(&b);
    let ok = p.magic == "P3" && p.w == w as i64 && p.h == h as i64 && p.px.len() as u32 == 3 * w * h && p.bad == 0;
    (b, ok)
}
fn put(out: &mut Out, what: &str, ok: bool, limit: i64, got: &[u8], r: &(Vec<u8>, bool)) {
    let diff = (0..got.len().max(r.0.len())).find(|i| got.get(*i) != r.0.get(*i)).map_or(-1, |i| i as i64);
    out.put(Ev::new("write").s("u", what).b("ok", ok).i("limit", limit).i("len", got.len() as i64).i("ref", r.0.len() as i64).i("diff", diff).b("refok", r.1).end());
}
fn set_limit(n: Option<u64>) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = n.unwrap_or(l.rlim_max as u64) as libc::rlim_t;
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}

/// A destination that takes at most `max` bytes at a time, is interrupted now and then, and refuses from byte `limit`.
struct Slow { got: Vec<u8>, max: usize, limit: i64, n: usize, zero: bool, errno: i32 }
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n % 3 == 0 { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        if b.is_empty() { return Ok(0); }
        let mut k = b.len().min(self.max);
        if self.limit >= 0 {
            let room = (self.limit - self.got.len() as i64).max(0) as usize;
            if room == 0 { return if self.zero { Ok(0) } else { Err(io::Error::from_raw_os_error(self.errno)) }; }
            k = k.min(room);
        }
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let work = format!("{}/w", a.dir);
    std::fs::create_dir_all(&work).unwrap();
    std::env::set_current_dir(&work).unwrap();
    unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); }
    let mut rng = Rng::new(a.seed ^ 0xF11E);
    let go = |w: u32, h: u32, salt: i64, threads: u8| guard(&|| format!("render {}x{} onto an existing file", w, h), move || render(w, h, salt, threads)).is_ok();

    // 1. older contents
    for _ in 0..a.scale(12, 120) {
        let (w, h, salt) = (rng.i(0, 40) as u32, rng.i(1, 20) as u32, rng.i(1, 99));
        let r = reference(w, h, salt);
        let n = r.0.len() as i64;
        let mut lens = vec![-1, 0, 1, n / 2, n - 1, n, n + 1, n + 7, n + 4096, 2 * n, n + 8191, n + 8192, n + 100_000];
        for _ in 0..4 { lens.push(rng.i(0, 2 * n)); }
        for len in lens {
            if len < -1 { continue; }
            out.unit();
            let _ = std::fs::remove_file("output.ppm");
            if len >= 0 {
                let fill = match rng.n(3) { 0 => vec![b'x'; len as usize], 1 => r.0.iter().cycle().take(len as usize).cloned().collect(), _ => (0..len).map(|i| (i * 7) as u8).collect() };
                std::fs::write("output.ppm", fill).unwrap();
            }
            let ok = go(w, h, salt, rng.i(1, 4) as u8);
            let got = std::fs::read("output.ppm").unwrap_or_default();
            put(&mut out, "prior", ok, -1, &got, &r);
        }
    }
    // one that is large
    for (w, h) in [(1300u32, 900u32)].iter() {
        let r = reference(*w, *h, 7);
        out.unit();
        std::fs::write("output.ppm", vec![b'z'; r.0.len() + 5_000_000]).unwrap();
        let ok = go(*w, *h, 7, 6);
        put(&mut out, "large", ok, -1, &std::fs::read("output.ppm").unwrap_or_default(), &r);
    }
    // 2. a history of renders into one file, sizes going up and down
    for _ in 0..a.scale(6, 60) {
        out.unit();
        let refs: Vec<_> = (0..6).map(|_| { let (w, h, s) = (rng.i(0, 30) as u32, rng.i(0, 20) as u32, rng.i(1, 99)); (w, h, s, reference(w, h, s)) }).collect();
        let _ = std::fs::remove_file("output.ppm");
        for _ in 0..12 {
            let k = rng.n(refs.len());
            let (w, h, s, ref r) = refs[k];
            let ok = go(w, h, s, rng.i(1, 3) as u8);
            let got = std::fs::read("output.ppm").unwrap_or_default();
            put(&mut out, "history", ok, -1, &got, r);
        }
    }
    // 2b. one integrator renders again and again; each time it adds the same samples, so the image stays what it is
    for u in 0..a.scale(24, 240) {
        out.unit();
        let (w, h, salt) = (rng.i(0, 40) as u32, rng.i(0, 12) as u32, rng.i(1, 99));
        let r = reference(w, h, salt);
        let n = r.0.len() as i64;
        let _ = std::fs::remove_file("output.ppm");
        let mut integrator = None;
        let mut failed = false;
        for pass in 1..5 {
            let len = match rng.n(8) { 0 => -1, 1 => 0, 2 => n / 2, 3 => n, 4 => n + 9000, 5 => rng.i(0, 2 * n), _ => -2 };
            if len == -1 || pass == 1 { let _ = std::fs::remove_file("output.ppm"); }
            else if len >= 0 { std::fs::write("output.ppm", (0..len).map(|i| (i * 5) as u8).collect::<Vec<_>>()).unwrap(); }
            let lim = if u % 3 == 2 && rng.chance(1, 2) && n > 0 { rng.i(0, n - 1) } else { -1 };
            let threads = rng.i(1, 4) as u8;
            set_limit(if lim < 0 { None } else { Some(lim as u64) });
            let place = &mut integrator;
            let ok = guard(&|| format!("render {} of one integrator, {}x{}", pass, w, h), move || {
                place.get_or_insert_with(|| {
                    let scene = screen_scene(move |i| colour(i.p.x, i.p.y, salt));
                    Integrator::new(scene, FnSampler::new(1, Arc::new(|_, _, _| 0.5)), FlatCamera, film(w, h))
                }).render(threads)
            }).is_ok();
            set_limit(None);
            // sums of one, two and four equal samples are free of rounding; what an integrator does after a failure is its own affair,
            // but if it says that all is well, it is
            if pass != 3 && (ok || !failed) { put(&mut out, "again", ok, lim, &std::fs::read("output.ppm").unwrap_or_default(), &r); }
            failed = failed || !ok;
        }
    }
    // 3. the device refuses every byte from `limit` on
    for u in 0..a.scale(8, 60) {
        let (w, h, salt) = match u % 4 { 0 => (rng.i(1, 3) as u32, 1, 3), 1 => (rng.i(1, 3) as u32, rng.i(1, 4) as u32, rng.i(1, 99)), 2 => (rng.i(35, 50) as u32, rng.i(20, 24) as u32, rng.i(1, 99)), _ => (rng.i(1, 90) as u32, rng.i(1, 20) as u32, rng.i(1, 99)) };
        let r = reference(w, h, salt);
        let n = r.0.len() as i64;
        let mut limits: Vec<i64> = if n < 150 || a.thorough && n < 600 { (0..n + 2).collect() } else { vec![0, 1, 10, 8190, 8191, 8192, 8193, 16383, 16384, 16385, n / 2, n - 8193, n - 8192, n - 100, n - 13, n - 3, n - 2, n - 1, n, n + 1] };
        if n >= 150 { for _ in 0..10 { limits.push(rng.i(0, n)); } }
        for lim in limits {
            if lim < 0 || lim > n + 1 { continue; }
            out.unit();
            let _ = std::fs::remove_file("output.ppm");
            let prior = rng.n(3);
            if prior == 1 { std::fs::write("output.ppm", &r.0[..r.0.len() / 2]).unwrap(); }
            if prior == 2 { std::fs::write("output.ppm", vec![b'y'; r.0.len() * 2]).unwrap(); }
            set_limit(Some(lim as u64));
            let ok = go(w, h, salt, rng.i(1, 3) as u8);
            set_limit(None);
            let got = std::fs::read("output.ppm").unwrap_or_default();
            put(&mut out, "limit", ok, lim, &got, &r);
        }
    }
    // 4. no place to write to
    for (k, (w, h)) in [(1u32, 1u32), (2, 2), (40, 30), (0, 0)].iter().enumerate() {
        let r = reference(*w, *h, 5);
        out.unit();
        let _ = std::fs::remove_file("output.ppm");
        std::fs::create_dir("output.ppm").unwrap();
        let ok = go(*w, *h, 5, 2);
        let _ = std::fs::remove_dir("output.ppm");
        put(&mut out, "directory", ok, 0, &std::fs::read("output.ppm").unwrap_or_default(), &r);
        let _ = std::fs::remove_file("output.ppm");
        // a symbolic link to nowhere
        out.unit();
        std::os::unix::fs::symlink("no-such-dir/x", "output.ppm").unwrap();
        let ok = go(*w, *h, 5, 2);
        put(&mut out, "dangling", ok, 0, &std::fs::read("output.ppm").unwrap_or_default(), &r);
        let _ = std::fs::remove_file("output.ppm");
        out.unit();
        std::os::unix::fs::symlink("/dev/full", "output.ppm").unwrap();
        let ok = go(*w, *h, 5, 1 + k as u8);
        let link = std::fs::symlink_metadata("output.ppm").map(|m| m.file_type().is_symlink()).unwrap_or(false);
        let got = if link { vec![] } else { std::fs::read("output.ppm").unwrap_or_default() };
        put(&mut out, "full", ok, 0, &got, &r);
        let _ = std::fs::remove_file("output.ppm");
    }
    // 5. the film writes to any destination
    for _ in 0..a.scale(20, 200) {
        let (w, h) = (rng.i(0, 6) as u32, rng.i(0, 5) as u32);
        let mk = || {
            let f = film(w, h);
            let mut t = f.get_film_tile(f.sample_bbox());
            for y in 0..h { for x in 0..w { let (x, y) = (x as f32 + 0.5, y as f32 + 0.5); t.add_sample(Point2f::new(x, y), colour(x, y, 3)); } }
            f.merge_film_tile(t);
            f
        };
        let mut whole = Vec::new();
        mk().write_image_ppm(&mut whole);
        let p = parse_ppm(&whole);
        let r = (whole, p.magic == "P3" && p.w == w as i64 && p.h == h as i64 && p.px.len() as u32 == 3 * w * h);
        let n = r.0.len() as i64;
        for lim in [-1, 0, 1, n - 1, n, rng.i(0, n), rng.i(0, n), rng.i(0, n), rng.i(0, n), rng.i(0, n)] {
            out.unit();
            // refused in one way or another
            let errno = *rng.pick(&[libc::ENOSPC, libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EAGAIN, libc::EDQUOT, libc::ETIMEDOUT, libc::EBADF, libc::EINVAL, libc::EACCES, libc::ECONNRESET, libc::EFBIG, libc::ENXIO, libc::EROFS]);
            let mut s = Slow { got: Vec::new(), max: rng.i(1, 9) as usize, limit: lim, n: 0, zero: rng.chance(1, 4), errno };
            let f = mk();
            let ok = guard(&|| format!("write {}x{} to a slow destination", w, h), || f.write_image_ppm(&mut s)).is_ok();
            put(&mut out, "slow", ok, lim, &s.got, &r);
        }
    }
    out.finish();
}
