"""Writes MANIFEST.json from the table below."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': ('TLC on Render.tla (all interleavings of take/sample/merge/join/write) and schedules generated by TLC from RenderSched.tla replayed into the real Integrator::render, traces validated against TraceRender.tla',
            'Exhaustive for the worker/merge/join protocol with up to 4 workers and 6 tiles; the code is driven through generated tile schedules and seeded free-running renders and every recorded event is judged by the specification.'),
    'C02': ('TLC on Render.tla and validation of recorded renders under several thread counts and perturbed schedules against TraceImage.tla',
            'Every draw of every render is compared with the stream of a fresh sampler at that position; images of seeded configurations are compared over thread counts.'),
    'C03': ('TLC on Render.tla with failing workers and fault schedules generated by TLC from RenderSched.tla replayed into the real Integrator::render, traces validated against TraceRender.tla',
            'Exhaustive for the protocol with up to 3 failures; nine kinds of failing callback at generated and seeded points of real renders.'),
    'C04': ('TLC on Film.tla (tile regions, radii, merge orders) and validation of recorded film histories against TraceFilm.tla',
            'Exhaustive for the tile/merge design within small films; the code is bound by recorded histories on a 1/32-pixel lattice whose pixels are recomputed exactly by the specification.'),
    'C05': ('validation of recorded renders with scripted invalid radiance against TraceFilm.tla',
            'Every recorded render is recomputed from the valid samples alone; which samples are invalid, and how, is seeded.'),
    'C06': ('validation of written images against the sRGB level table of FilmCore.tla',
            'All level boundaries and seeded values between them; decided up to 2^-19 of the linear value.'),
    'C07': ('TLC on OutputFile.tla (open/buffer/device/flush with a fault at any byte) and validation of recorded writes against TraceFile.tla',
            'Exhaustive for the write protocol within small images; real renders over older contents of many lengths and with the device refusing from chosen or all byte offsets.'),
    'C08': ('call histories generated by TLC from Sampler.tla (and seeded ones) replayed into the real samplers, traces validated against TraceSampler.tla',
            'All call histories up to a small length (sampled in the quick tier) and longer seeded ones, for both samplers.'),
    'C09': ('TLC on Halton.tla (index arithmetic for all small blocks and pixels) and validation of recorded sampler values against exact digit arithmetic in TraceHalton.tla',
            'Exhaustive for small blocks; seeded regions, pixels, sample numbers and all 1024 dimensions for the code, each value recomputed by the specification.'),
    'C10': ('TLC on KdTree.tla (all admissible trees over small scenes, IEEE-like traversal) and validation of recorded container queries against the shapes\' own answers in TraceContainer.tla',
            'Exhaustive for trees over 2 and 3 boxes on a small grid with infinities, NaN and signed zeros; seeded exact-lattice and floating-point scenes of up to 300 shapes for the code.'),
    'C11': ('TLC on Shapes.tla (decision procedures of triangles and spheres against their geometric meaning on integer points) and validation of recorded queries with the exact predicates of Geometry.tla in TraceShape.tla',
            'Exhaustive over small integer scenes for the procedures; the code is judged exactly on seeded integer scenes and, outside a margin of a few roundings, on seeded floating point scenes and closed meshes.'),
    'C12': ('TLC on Walk.tla (inside/outside paths with bounded position error) and validation of recorded walks and shadow rays against TraceWalk.tla',
            'Exhaustive over small integer normals and deviations for the offset rule; seeded walks through spheres and convex meshes at many scales and positions, and seeded shadow rays, for the code.'),
    'C13': ('TLC on Path.tla (every path world of the model) and its worlds plus seeded ones scripted into the real PathIntegrator; every recorded radiance and random draw is judged by TracePath.tla',
            'Exhaustive over small path histories for the estimator; generated and seeded scripted worlds drive the code, whose radiance, draws, visited places and survival decisions are recomputed exactly from the script.'),
    'C14': ('TLC on Path.tla (weights of the two strategies) and validation of recorded direct light estimates in scripted worlds (TracePath.tla) and of real lights, exactly on integer scenes (TraceLamp.tla)',
            'Exhaustive over the small weights of the model; the code is judged by scripted worlds, integer triangle lights (density, side, radiance), the evenness of light samples over 64 cells and seeded scenes with blockers.'),
    'C15': ('TLC on Lobes.tla (all lists of lobes over a small sphere of direction cells, ledgers of produced directions and estimates) and scripted lobes in the real BSDF judged by TraceLobes.tla',
            'Exhaustive for lists of two (thorough: three) lobes over three cells; the code is judged on seeded lists of up to six scripted lobes, rational frames and integer directions, with the expected values recomputed exactly.'),
    'C16': ('TLC on Microfacet.tla (sampling through microfacet normals on a circle of directions, ledger against the density computed backwards) and sampling ledgers, densities, energies and values of the real materials judged by TraceMaterial.tla',
            'Exhaustive over all weightings of the normals in the model; the code is judged on stratified samples of seeded materials against the integral of the reported density over 96 cells of the sphere, within tolerances.'),
    'C17': ('TLC on Optics.tla (the laws of optics in fixed point: balance, reciprocity, bounds) and everything sampled from smooth and nearly smooth materials judged by TraceOptics.tla with the same laws',
            'The fixed point laws are checked against each other on Pythagorean angles; the code is judged against them on seeded materials, indices, frames and directions to about 0.5 % (conductors 2 %).'),
    'C18': ('TLC on Assembly.tla (every sequence of add calls, then construction) and its call sequences plus seeded ones made on the real Builder, with lists, told boxes and shadow rays judged by TraceAssembly.tla',
            'Exhaustive for up to three calls over small spans (thorough: four); the code gets all sequences of the smaller model and seeded ones of up to 40 calls, with exact shadow rays on integer points.'),
    'C19': ('TLC on Transforms.tla (products of integer factors from either side, carried with their inverses) and its products plus seeded ones made with the real Transform, judged exactly by TraceTransform.tla',
            'Exhaustive for products of up to three factors out of ten (thorough: four); the code gets all of them in several orders of multiplication, plus seeded lattice and arbitrary products.'),
    'C20': ('TLC on Camera.tla (raster, window, image plane and world as explicit steps, over all small windows, films and frames) and rays of real cameras, alone and sent by the integrator, judged by TraceCamera.tla',
            'Exhaustive over the small model; the code is judged on seeded rational frames, windows, films and fields of view at corners, centre, arbitrary positions and positions outside the film.'),
    'C21': ('TLC on Texture.tla (a walk over the board that counts faces against the texture, which only gets the mapped point) and recorded walks over real textures, alone and inside materials, judged by TraceTexture.tla by counting faces',
            'Exhaustive for coordinates up to three (thorough: six) cells from the origin and a set of mappings; the code is judged on seeded mappings, steps and jumps, negative and far cells included.'),
}
TODO = 'not built yet'


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in NOTES:
            checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + i,
                           'technique': NOTES[i][0], 'level': 'model_checking', 'level_note': NOTES[i][1]})
        else:
            na.append({'property': i, 'reason': TODO})
    m = {'version': 1, 'setup_cmd': 'bin/setup',
         'hooks': {'guard': 'pt_verif', 'enable': "RUSTFLAGS='--cfg pt_verif' (set by lib/driver.py when it builds harness/ against /repo)",
                   'source_commits': ['85eaaa6']},
         'checks': checks, 'not_applicable': na,
         'notes': 'TLA+/TLC. Every check builds harness/ against /repo, records traces of the real code and validates them with TLC; see DESIGN.md.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
