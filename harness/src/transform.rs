//! C19: products of transforms on a lattice (exact) and in general position.
use pt::api::Transform;
use pt::verif::bbox::*;
use pt::verif::interaction::*;
use pt::verif::ray::*;
use pt::verif::vector::*;

use crate::mock::*;
use crate::shape::*;
use crate::util::*;

type I3 = [i64; 3];
#[derive(Clone, Debug)]
enum Op { T(I3), S(I3), R(i64, i64), M([i64; 12]) }
impl Op {
    /// On a lattice of the given unit; a matrix scaled by `thin` is stretched back by a scaling. Both are powers of two,
    /// so that nothing is rounded otherwise.
    fn make(&self, unit: f32, thin: f32) -> Transform {
        let f = |x: i64| x as f32;
        let t = |x: i64| x as f32 * unit;
        match self {
            Op::T(v) => Transform::translate(t(v[0]), t(v[1]), t(v[2])),
            Op::S(v) => Transform::scale(f(v[0]) / 2., f(v[1]) / 2., f(v[2]) / 2.),
            Op::R(a, t) => turn(*a as usize, 90. * f(*t)),
            Op::M(m) => {
                let g = |i: usize| m[i] as f32 * thin;
                let m = Transform::from([[g(0), g(1), g(2), t(m[3])], [g(4), g(5), g(6), t(m[7])], [g(8), g(9), g(10), t(m[11])], [0., 0., 0., 1.]]);
                if thin == 1. { m } else { m * Transform::scale(1. / thin, 1. / thin, 1. / thin) }
            }
        }
    }
    fn ev(&self) -> String {
        let (k, v) = match self { Op::T(v) => ("t", v.to_vec()), Op::S(v) => ("s", v.to_vec()), Op::R(a, t) => ("r", vec![*a, *t]), Op::M(m) => ("m", m.to_vec()) };
        Ev::new("step").raw("op", &format!("[\"{}\",{}]", k, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).end()
    }
}
fn turn(axis: usize, deg: f32) -> Transform { match axis { 1 => Transform::rotate_x(deg), 2 => Transform::rotate_y(deg), _ => Transform::rotate_z(deg) } }
fn ip(v: I3) -> Point3f { p3(v[0] as f32, v[1] as f32, v[2] as f32) }
fn iv(v: I3) -> Vector3f { v3(v[0] as f32, v[1] as f32, v[2] as f32) }
fn inn(v: I3) -> Normal3f { n3(v[0] as f32, v[1] as f32, v[2] as f32) }
fn small(r: &mut Rng, m: i64) -> I3 { [r.i(-m, m), r.i(-m, m), r.i(-m, m)] }
fn cross_i(a: I3, b: I3) -> I3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn f8(v: D3) -> Vec<i64> { qv(v, 256.) }

/// The product, multiplied up in one of several orders.
fn product(r: &mut Rng, ts: &[Transform]) -> Transform {
    match ts.len() {
        0 => Transform::translate(0., 0., 0.),
        1 => ts[0],
        n => match r.n(3) {
            0 => { let mut t = ts[0]; for u in &ts[1..] { t = t * *u; } t }
            1 => { let mut t = ts[n - 1]; for u in ts[..n - 1].iter().rev() { t = *u * t; } t }
            _ => { let k = 1 + r.n(n - 1); let (a, b) = (product(r, &ts[..k]), product(r, &ts[k..])); a * b }
        },
    }
}

fn exact(out: &mut Out, r: &mut Rng, ops: &[Op]) {
    out.put(Ev::new("new").end());
    for o in ops { out.put(o.ev()); }
    let unit = *r.pick(&[1f32, 1., 1., 0.0009765625, 0.00000095367431640625, 1024., 1048576.]);
    let thin = *r.pick(&[1f32, 1., 0.125, 0.0009765625, 0.000244140625, 64., 4096.]);
    let desc = || format!("{:?} unit {} matrix scale {}", ops, unit, thin);
    let ip = |v: I3| ip(v) * unit;
    let f8p = |v: D3| f8(mul(v, 1. / unit as f64));
    let mut lines: Vec<String> = Vec::new();
    let res = guard(&desc, || {
        let ts: Vec<Transform> = ops.iter().map(|o| o.make(unit, thin)).collect();
        let t = product(r, &ts);
        let inv = t.inverse();
        for _ in 0..3 {
            let (p, v) = (small(r, 4), small(r, 4));
            let img = t.apply(&ip(p));
            let chain = ts.iter().rev().fold(ip(p), |x, u| u.apply(&x));
            lines.push(Ev::new("point").a("p", &p).a("img", &f8p(dp(img))).a("chain", &f8p(dp(chain))).a("back", &f8p(dp(t.inverse_apply(&img)))).a("away", &f8p(dp(inv.apply(&img)))).end());
            let img = t.apply(&iv(v));
            let chain = ts.iter().rev().fold(iv(v), |x, u| u.apply(&x));
            lines.push(Ev::new("vector").a("v", &v).a("img", &f8(dv(img))).a("chain", &f8(dv(chain))).a("back", &f8(dv(if r.b() { t.inverse_apply(&img) } else { inv.apply(&img) }))).end());
            // half the time the vector lies in the surface
            let (a, b) = (small(r, 3), small(r, 3));
            let n = cross_i(a, b);
            let w = if r.b() { a } else { small(r, 3) };
            let n2 = t.apply(&inn(n));
            let dot2 = dot(dn(n2), dv(t.apply(&iv(w))));
            lines.push(Ev::new("normal").a("n", &n).a("w", &w).i("dot", qd(dot2, 256.)).a("back", &f8(dn(t.inverse_apply(&n2)))).end());
            let (lo, hi) = (small(r, 3), small(r, 3));
            let b = t.apply(&BBox3f::new(ip(lo), ip(hi)));
            let k = 256. / unit as f64;
            let fl = |p: Point3f| dp(p).iter().map(|x| qd((x * k).floor(), 1.)).collect::<Vec<_>>();
            let ce = |p: Point3f| dp(p).iter().map(|x| qd((x * k).ceil(), 1.)).collect::<Vec<_>>();
            lines.push(Ev::new("box").a("b", &[lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]]).a("lo", &fl(b.min)).a("hi", &ce(b.max)).end());
            let t_max = *r.pick(&[f32::INFINITY, 1., 0.5, 7.]);
            let ray = t.apply(&Ray { origin: ip(p), direction: iv(v), t_max });
            lines.push(Ev::new("ray").a("p", &p).a("v", &v).a("o", &f8p(dp(ray.origin))).a("d", &f8(dv(ray.direction))).b("keep", ray.t_max == t_max).end());
            let (du, dvv, wo) = (small(r, 3), small(r, 3), small(r, 3));
            let n = cross_i(du, dvv);
            let sn = cross_i(du, wo);
            let e = [r.i(0, 3), r.i(0, 3), r.i(0, 3)];
            let uv = Point2f::new(0.25, 0.75);
            let i = t.apply(&Interaction { p: ip(p), p_err: iv(e) * unit, uv, n: inn(n), sn: inn(sn), dpdu: iv(du), dpdv: iv(dvv), wo: iv(wo), ..Default::default() });
            let nd = dot(dn(i.n), dv(i.dpdu)).abs() + dot(dn(i.n), dv(i.dpdv)).abs();
            let snd = dot(dn(i.sn), dv(i.dpdu)).abs() + dot(dn(i.sn), dv(i.wo)).abs();
            lines.push(Ev::new("inter").a("p", &p).a("p2", &f8p(dp(i.p))).a("err", &e).a("err2", &f8p(dv(i.p_err))).a("wo", &wo).a("wo2", &f8(dv(i.wo))).a("du", &du).a("du2", &f8(dv(i.dpdu))).a("dv", &dvv).a("dv2", &f8(dv(i.dpdv)))
                .i("ndot", qd(nd, 256.)).i("sndot", qd(snd, 256.)).b("uv", i.uv.x == uv.x && i.uv.y == uv.y).end());
        }
    });
    for s in lines { out.put(s); }
    if let Err(e) = res { out.put(Ev::new("panic").s("what", &format!("{}: {}", e, desc())).end()); }
}

fn some(r: &mut Rng, matrix: bool) -> Op {
    match r.n(if matrix { 7 } else { 6 }) {
        0 | 1 => Op::T(small(r, 5)),
        2 | 3 => { let mut h = || *r.pick(&[1i64, 2, 4, -1, -2, -4, 2, 6]); Op::S([h(), h(), h()]) }
        4 | 5 => Op::R(r.i(1, 3), r.i(-4, 7)),
        _ => loop {
            let mut m = [0; 12];
            for x in m.iter_mut() { *x = r.i(-2, 2); }
            let d = m[0] * (m[5] * m[10] - m[6] * m[9]) - m[1] * (m[4] * m[10] - m[6] * m[8]) + m[2] * (m[4] * m[9] - m[5] * m[8]);
            if d != 0 { return Op::M(m); }
        },
    }
}

fn general(out: &mut Out, r: &mut Rng) {
    let n = 1 + r.n(4);
    let spec: Vec<(usize, [f64; 3])> = (0..n).map(|_| match r.n(3) {
        0 => (0, [r.fr(-4., 4.), r.fr(-4., 4.), r.fr(-4., 4.)]),
        1 => { let mut s = || r.fr(0.5, 2.) * if r.b() { 1. } else { -1. }; (4, [s(), s(), s()]) }
        _ => (1 + r.n(3), [if r.chance(1, 4) { r.i(-8, 8) as f64 * 45. } else { r.fr(-400., 400.) }, 0., 0.]),
    }).collect();
    let desc = || format!("{:?}", spec);
    let mut lines: Vec<String> = Vec::new();
    let res = guard(&desc, || {
        let ts: Vec<Transform> = spec.iter().map(|(k, v)| { let f = |i: usize| v[i] as f32; match k { 0 => Transform::translate(f(0), f(1), f(2)), 4 => Transform::scale(f(0), f(1), f(2)), _ => turn(*k, f(0)) } }).collect();
        for (k, v) in &spec {
            if *k == 0 || *k == 4 { continue; }
            let a = (v[0] as f32 as f64).to_radians();
            let t = turn(*k, v[0] as f32);
            let img: Vec<Vec<i64>> = (0..3).map(|j| { let mut e = [0.; 3]; e[j] = 1.; qv(dv(t.apply(&v3(e[0], e[1], e[2]))), 4096.) }).collect();
            lines.push(Ev::new("turn").i("axis", *k as i64).i("c", qd(a.cos(), 4096.)).i("s", qd(a.sin(), 4096.)).aa("img", &img).end());
        }
        let t = product(r, &ts);
        for _ in 0..3 {
            let mut c = || r.fr(-4., 4.) as f32;
            let (p, v, w) = (p3(c(), c(), c()), v3(c(), c(), c()), v3(c(), c(), c()));
            let mut close = |what: &str, x: D3, y: D3, m: f64| lines.push(Ev::new("close").s("what", what).a("x", &qv(x, 4096. / m)).a("y", &qv(y, 4096. / m)).end());
            let img = t.apply(&p);
            let chain = ts.iter().rev().fold(p, |x, u| u.apply(&x));
            let m = maxabs(dp(img)).max(4.);
            close("a point is not mapped by the factors one after another", dp(img), dp(chain), m);
            close("the inverse does not take a point back", dp(t.inverse_apply(&img)), dp(p), 4.);
            close("the inverse of the inverse is another", dp(t.inverse().inverse().apply(&p)), dp(img), m);
            let vi = t.apply(&v);
            let chain = ts.iter().rev().fold(v, |x, u| u.apply(&x));
            close("a vector is not mapped by the factors one after another", dv(vi), dv(chain), maxabs(dv(vi)).max(4.));
            close("a vector is not mapped as the difference of points", add(dp(img), dv(vi)), dp(t.apply(&(p + v))), m.max(maxabs(dv(vi))));
            close("the inverse does not take a vector back", dv(t.inverse_apply(&vi)), dv(v), 4.);
            let n = v.cross(w);
            let ni = dn(t.apply(&n3(n.x, n.y, n.z)));
            let wi = dv(t.apply(&w));
            let u = |x: D3| if len(x) > 0. { unit(x) } else { x };
            close("a normal does not stay perpendicular to its surface", [dot(u(ni), u(dv(vi))), dot(u(ni), u(wi)), 0.], [0.; 3], 1.);
            let q = p + v;
            let b = t.apply(&BBox3f::new(p, q));
            for _ in 0..4 {
                let mut s = |a: f32, b: f32| match r.n(3) { 0 => a, 1 => b, _ => a + (b - a) * r.fr(0., 1.) as f32 };
                let at = t.apply(&p3(s(p.x, q.x), s(p.y, q.y), s(p.z, q.z)));
                let f = |x: f32, lo: f32, hi: f32| { let w = (hi - lo) as f64; if w < 1e-2 { qd(0.5, 4096.) } else { qd((x - lo) as f64 / w, 4096.) } };
                lines.push(Ev::new("within").a("at", &[f(at.x, b.min.x, b.max.x), f(at.y, b.min.y, b.max.y), f(at.z, b.min.z, b.max.z)]).end());
            }
        }
    });
    out.put(Ev::new("new").end());
    for s in lines { out.put(s); }
    if let Err(e) = res { out.put(Ev::new("panic").s("what", &format!("{}: {}", e, desc())).end()); }
}

/// What single factors do, however little or much: shares of what they should do, in 2^-12.
fn single(out: &mut Out, r: &mut Rng) {
    let mut lines: Vec<String> = Vec::new();
    let share = |x: f64, y: f64| qd(if y == 0. { if x == 0. { 1. } else { 1e4 } } else { x / y }, 4096.);
    let any = |r: &mut Rng| { let m = 2f64.powf(r.fr(-24., 24.)) as f32; if r.b() { m } else { -m } };
    let kind = r.n(3);
    let (a, b, c) = (any(r), any(r), any(r));
    let deg = (2f64.powf(r.fr(-20., 0.)) * if r.b() { 1. } else { -1. }) as f32;
    let p = [any(r), any(r), any(r)];
    let axis = 1 + r.n(3);
    let desc = || format!("single factor {} of {:?} by {:?} degrees {} about {}", kind, p, (a, b, c), deg, axis);
    let res = guard(&desc, || {
        let f = [a, b, c];
        let at = p3(p[0], p[1], p[2]);
        match kind {
            0 => {
                // stretching, axis by axis; a normal times a vector keeps its value
                let t = Transform::scale(a, b, c);
                let (q, v, n) = (dp(t.apply(&at)), dv(t.apply(&v3(p[0], p[1], p[2]))), dn(t.apply(&n3(1., 1., 1.))));
                let (back, undo) = (dp(t.inverse_apply(&at)), dp(t.inverse().apply(&at)));
                let bx = t.apply(&BBox3f::new(p3(0., 0., 0.), at));
                for k in 0..3 {
                    let (x, y) = (p[k] as f64, f[k] as f64);
                    let far = if x * y > 0. { dp(bx.max)[k] } else { dp(bx.min)[k] };
                    lines.push(Ev::new("share").s("what", "stretched").a("x", &[share(q[k], x * y), share(v[k], x * y), share(n[k], 1. / y), share(back[k], x / y), share(undo[k], x / y), share(far, x * y)]).end());
                }
            }
            1 => {
                let t = Transform::translate(a, b, c);
                let (q, v, n) = (dp(t.apply(&at)), dv(t.apply(&v3(p[0], p[1], p[2]))), dn(t.apply(&n3(p[0], p[1], p[2]))));
                let (back, undo) = (dp(t.inverse_apply(&at)), dp(t.inverse().apply(&at)));
                for k in 0..3 {
                    let (x, y) = (p[k] as f64, f[k] as f64);
                    let m = x.abs().max(y.abs());
                    let off = |got: f64, want: f64| qd(1. + (got - want) / m, 4096.);
                    lines.push(Ev::new("share").s("what", "moved").a("x", &[off(q[k], x + y), share(v[k], x), share(n[k], x), off(back[k], x - y), off(undo[k], x - y)]).end());
                }
            }
            _ => {
                // a slight turn: the sine, by itself
                let t = turn(axis, deg);
                let (u, w) = (axis % 3, (axis + 1) % 3);
                let s = (deg as f64).to_radians().sin();
                let e = |k: usize| { let mut e = [0.; 3]; e[k] = 1.; v3(e[0], e[1], e[2]) };
                let (x, y) = (dv(t.apply(&e(u))), dv(t.apply(&e(w))));
                let (xi, yi) = (dv(t.inverse_apply(&e(u))), dv(t.inverse().apply(&e(w))));
                lines.push(Ev::new("share").s("what", "turned slightly").a("x", &[share(x[w], s), share(y[u], -s), share(xi[w], -s), share(yi[u], s), share(x[u], 1.), share(y[w], 1.)]).end());
            }
        }
    });
    out.put(Ev::new("new").end());
    for s in lines { out.put(s); }
    if let Err(e) = res { out.put(Ev::new("panic").s("what", &format!("{}: {}", e, desc())).end()); }
}

/// Matrices with a last row of their own: points by their homogeneous coordinates.
fn project(out: &mut Out, r: &mut Rng) {
    let (m, p) = loop {
        let mut m = [0i64; 16];
        for x in m.iter_mut() { *x = r.i(-2, 2); }
        let p = small(r, 4);
        let minor = |c: [usize; 3], q: [usize; 3]| { let g = |i: usize, j: usize| m[4 * q[i] + c[j]]; g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0)) + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)) };
        let det: i64 = (0..4).map(|j| { let c: Vec<usize> = (0..4).filter(|x| *x != j).collect(); m[j] * if j % 2 == 0 { 1 } else { -1 } * minor([c[0], c[1], c[2]], [1, 2, 3]) }).sum();
        let w: i64 = m[12] * p[0] + m[13] * p[1] + m[14] * p[2] + m[15];
        if det != 0 && w != 0 && (w.abs() == 1 || r.b()) { break (m, p); }
    };
    let desc = || format!("matrix {:?} at {:?}", m, p);
    out.put(Ev::new("new").end());
    let res = guard(&desc, || {
        let mut a = [[0f32; 4]; 4];
        for i in 0..16 { a[i / 4][i % 4] = m[i] as f32; }
        let t = Transform::from(a);
        let img = t.apply(&ip(p));
        (f8(dp(img)), f8(dp(t.inverse_apply(&img))))
    });
    match res {
        Ok((img, back)) => out.put(Ev::new("project").a("m", &m).a("p", &p).a("img", &img).a("back", &back).end()),
        Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", e, desc())).end()),
    }
}

/// The same with coordinates that end in something next to one: last row (x, y, z, 4096) / 4096.
fn nearly(out: &mut Out, r: &mut Rng) {
    let m = loop {
        let mut m: Vec<i64> = (0..16).map(|_| r.i(-2, 2)).collect();
        m[15] = 4096;
        let g = |i: usize, j: usize| m[4 * i + j];
        if g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0)) + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)) != 0 { break m; }
    };
    let p = [r.i(-60, 60), r.i(-60, 60), r.i(-60, 60)];
    let desc = || format!("matrix {:?} (last row in 4096ths) at {:?}", m, p);
    out.put(Ev::new("new").end());
    let res = guard(&desc, || {
        let mut a = [[0f32; 4]; 4];
        for i in 0..16 { a[i / 4][i % 4] = m[i] as f32 / if i < 12 { 1. } else { 4096. }; }
        qv(dp(Transform::from(a).apply(&ip(p))), 64.)
    });
    match res {
        Ok(img) => out.put(Ev::new("nearly").a("m", &m).a("p", &p).a("img", &img).end()),
        Err(e) => out.put(Ev::new("panic").s("what", &format!("{}: {}", e, desc())).end()),
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.dir, a.shards);
    let mut r = Rng::new(a.seed ^ 0xC19);
    let text = a.input.as_ref().map(|p| std::fs::read_to_string(p).unwrap()).unwrap_or_default();
    for line in text.lines() {
        let mut ops = Vec::new();
        for part in line.split("<<").filter(|s| s.contains('"')) {
            let kind = part.split('"').nth(1).unwrap();
            let v: Vec<i64> = part.split('"').nth(2).unwrap().split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect();
            ops.push(match kind { "t" => Op::T([v[0], v[1], v[2]]), "s" => Op::S([v[0], v[1], v[2]]), "r" => Op::R(v[0], v[1]), _ => { let mut m = [0; 12]; m.copy_from_slice(&v[..12]); Op::M(m) } });
        }
        out.unit();
        exact(&mut out, &mut r, &ops);
    }
    for _ in 0..a.scale(800, 20000) {
        let n = r.n(6);
        let at = if r.chance(1, 3) && n > 0 { r.n(n) } else { 99 };
        // at most three factors scale, so that everything stays on the lattice
        let mut left = 3;
        let ops: Vec<Op> = (0..n).map(|k| loop { let o = if k == at { some(&mut r, true) } else { some(&mut r, false) }; if let Op::S(_) = o { if left == 0 { continue; } left -= 1; } break o; }).collect();
        out.unit();
        exact(&mut out, &mut r, &ops);
    }
    for _ in 0..a.scale(1500, 40000) { out.unit(); general(&mut out, &mut r); }
    for _ in 0..a.scale(1500, 40000) { out.unit(); single(&mut out, &mut r); }
    for _ in 0..a.scale(1000, 30000) { out.unit(); project(&mut out, &mut r); }
    for _ in 0..a.scale(400, 8000) { out.unit(); nearly(&mut out, &mut r); }
    out.finish();
}
