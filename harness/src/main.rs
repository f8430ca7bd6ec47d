//! Conformance harness: drives the real crate and records what it does as ndjson traces.
mod util;
mod walk;
mod lamp;
mod assembly;
mod transform;
mod camera;
mod texture;
mod material;
mod lobes;
mod path;
mod shape;
mod container;
mod mock;
mod file;
mod film;
mod render;
mod sampler;

use util::*;

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let mode = argv.get(1).cloned().unwrap_or_default();
    let mut a = Args { seed: 1, thorough: false, dir: ".".into(), input: None, shards: 8, n: None, extra: Vec::new() };
    let mut i = 2;
    while i < argv.len() {
        let v = argv.get(i + 1).cloned().unwrap_or_default();
        match argv[i].as_str() {
            "--dir" => a.dir = v,
            "--seed" => a.seed = v.parse().unwrap(),
            "--tier" => a.thorough = v == "thorough",
            "--shards" => a.shards = v.parse().unwrap(),
            "--input" => a.input = Some(v),
            "--n" => a.n = Some(v.parse().unwrap()),
            _ => { a.extra.push(argv[i].clone()); i += 1; continue; }
        }
        i += 2;
    }
    if std::env::var("PTH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    watchdog(&a.dir, 60);
    match mode.as_str() {
        "film" => film::run(&a),
        "sampler" => sampler::run(&a),
        "file" => file::run(&a),
        "walk" => walk::run(&a),
        "path" => path::run(&a),
        "lamp" => lamp::run(&a),
        "camera" => camera::run(&a),
        "texture" => texture::run(&a),
        "material" => material::run(&a),
        "transform" => transform::run(&a),
        "assembly" => assembly::run(&a),
        "lobes" => lobes::run(&a),
        "shape" => shape::run(&a),
        "container" => container::run(&a),
        "render" => render::run(&a),
        _ => { eprintln!("unknown mode {}", mode); std::process::exit(97); }
    }
}
