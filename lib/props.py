"""What each property's check runs."""


def film_design(th):
    base = dict(module='Film', invariants=['Inside', 'Complete', 'NeverTwice', 'RegionTight'], workers=4 if th else 2)
    c = dict(U=2, MaxW=3 if not th else 4, MaxH=1 if not th else 2, Radii={1, 2, 3, 4} if th else {1, 3}, Tiles={1, 2, 3} if th else {1, 2}, NSamples=2, Variant='"code"')
    out = [dict(base, name='film_tiles', constants=c),
           dict(base, name='film_tiles_fine', constants=dict(c, U=4, MaxW=3, MaxH=1, Radii={1, 2, 3, 4, 5, 6, 7, 8, 9}, Tiles={1, 2}, NSamples=1))]
    for v in ('floor-min', 'ceil-max', 'no-border'):
        out.append(dict(base, name='film_broken_' + v, constants=dict(c, MaxW=2, MaxH=1, NSamples=1, Variant='"%s"' % v), expect='violated', workers=1))
    return out


def plan(prop, th, seed):
    return globals()['plan_' + prop](th, seed)


def render_design(th, keep):
    """Render.tla: every interleaving of take / sample / merge / join / write / fail."""
    inv = ['OneWorkerEach', 'Complete', 'NeverTwice', 'FailureShows', 'FailureLeavesFile']
    c = dict(NW=2, NT=3, NS=1, Variant='"code"', MaxFail=0)
    base = dict(module='Render', invariants=inv, properties=['Terminates'])
    out = []
    if 'clean' in keep:
        out.append(dict(base, name='render_clean', workers=4, constants=dict(c, NW=3 if not th else 4, NT=3 if not th else 3)))
        out.append(dict(base, name='render_clean_tiles', workers=2, constants=dict(c, NT=6, NS=2)))
        for v in ('nolock-iter', 'nolock-merge', 'nojoin', 'join-first'):
            out.append(dict(base, name='render_broken_' + v, constants=dict(c, Variant='"%s"' % v), expect='violated'))
    if 'fail' in keep:
        out.append(dict(base, name='render_fail', workers=4, constants=dict(c, NW=3, NT=3 if not th else 4, MaxFail=3 if th else 2)))
        for v in ('swallow', 'skip-failed', 'open-early', 'join-first'):
            out.append(dict(base, name='render_fail_broken_' + v, constants=dict(c, Variant='"%s"' % v, MaxFail=1), expect='violated'))
    return out


def sched(name, fail, th, keep):
    return dict(name='gen_' + name, module='RenderSched', constants=dict(MaxW=3 if not th else 4, MaxT=4 if not th else 5, MaxFail=fail), invariants=['Emit'], out=name + '.txt', keep=keep, workers=4)


def plan_C01(th, seed):
    return dict(design=render_design(th, ['clean']), generate=[sched('schedules', 0, th, 60 if not th else 1500)],
                jobs=[dict(name='render', mode='render', args=['schedules'], trace='TraceRender', input='schedules.txt', timeout=850)],
                assumptions=['schedules are controlled at tile granularity (a worker is held at the first ray of a tile); finer interleavings are covered by the design model and by free-running renders'])


def plan_C02(th, seed):
    return dict(design=render_design(th, ['clean'])[:2],
                jobs=[dict(name='image', mode='render', args=['image'], trace='TraceImage', timeout=850)],
                assumptions=['thread counts 1 to 16, schedules perturbed at tile granularity and by yields and sleeps'])


def plan_C03(th, seed):
    return dict(design=render_design(th, ['fail']), generate=[sched('faults', 2, th, 90 if not th else 2500)],
                jobs=[dict(name='faults', mode='render', args=['faults'], trace='TraceRender', input='faults.txt', timeout=850)],
                assumptions=['a worker fails by a panic in one of nine kinds of callback'])


def plan_C07(th, seed):
    base = dict(module='OutputFile', invariants=['ExactlyTheImage', 'FaultShows', 'NoFaultReturns'], properties=['Terminates'])
    c = dict(N=6 if not th else 9, MaxOld=8 if not th else 12, Cap=3 if not th else 4, Variant='"code"')
    out = [dict(base, name='file', constants=c, workers=4)]
    for v in ('notrunc', 'short', 'ignore', 'noflush'):
        out.append(dict(base, name='file_broken_' + v, constants=dict(c, N=4, MaxOld=5, Variant='"%s"' % v), expect='violated'))
    return dict(design=out, jobs=[dict(name='file', mode='file', args=[], trace='TraceFile')],
                assumptions=['write failures are produced by a file size limit, /dev/full, a directory or a dangling link in place of the file, and by a scripted destination'])


def plan_C08(th, seed):
    base = dict(module='Sampler', invariants=['Count'], workers=4)
    return dict(design=[dict(base, name='sampler', constants=dict(MaxLen=6 if not th else 7, NPix=2, MaxSpp=2, MaxS=2, Emitting=False))],
                generate=[dict(name='gen_hist', module='Sampler', constants=dict(MaxLen=5 if not th else 6, NPix=2, MaxSpp=2, MaxS=2, Emitting=True), invariants=['Emit'], out='hist.txt', keep=400 if not th else 12000, workers=4)],
                jobs=[dict(name='protocol', mode='sampler', args=['protocol'], trace='TraceSampler', input='hist.txt'),
                      dict(name='streams', mode='sampler', args=['streams'], trace='TraceSampler')],
                assumptions=['at least one sample per pixel is requested; no value is drawn after a pixel is exhausted'])


def plan_C09(th, seed):
    inv = ['InCell', 'First', 'Consecutive', 'Stratified']
    base = dict(module='Halton', invariants=inv)
    c = dict(MaxE2=3, MaxE3=2, Block=8, Rounds=2, Variant='"code"')
    out = [dict(base, name='halton', constants=c if not th else dict(c, MaxE2=4, MaxE3=3, Block=16), workers=4)]
    for v in ('abs', 'noreverse', 'swapped'):
        out.append(dict(base, name='halton_broken_' + v, constants=dict(c, Variant='"%s"' % v), expect='violated'))
    return dict(design=out, jobs=[dict(name='values', mode='sampler', args=['values'], trace='TraceHalton')],
                assumptions=['indices below 2^31; values are compared up to 2^-22'])


def plan_C10(th, seed):
    base = dict(module='KdTree', invariants=['SameAnswer', 'NothingLost'], workers=3, heap='4g' if not th else '12g', timeout=870)
    c = dict(Family='"flat"', NShapes=2, MaxDepth=2, Variant='"code"', TMaxes={1000}, Part={0, 1, 2, 3})
    tall = dict(c, Family='"tall"', NShapes=3, Part={seed % 4})
    out = [dict(base, name='kdtree', constants=c), dict(base, name='kdtree_tall', constants=tall),
           dict(base, name='kdtree_limits', constants=dict(c, TMaxes={3, 6}, Part={seed % 4}), properties=['Ends']),
           dict(base, name='kdtree_boxes', constants=dict(c, Family='"boxes"', Part={seed % 4}))]
    if th:
        out[1:] = [dict(base, name='kdtree_tall', constants=dict(tall, Part={0, 1, 2, 3}, MaxDepth=3), workers=8),
                   dict(base, name='kdtree_three', constants=dict(c, NShapes=3, Part={seed % 4}), workers=8),
                   dict(base, name='kdtree_limits', constants=dict(c, TMaxes={2, 3, 4, 6}), properties=['Ends']),
                   dict(base, name='kdtree_boxes', constants=dict(c, Family='"boxes"', MaxDepth=3), workers=8)]
    for v in ('negzero', 'losestart', 'loseend', 'tie', 'lastwins', 'firstleaf'):
        out.append(dict(base, name='kdtree_broken_' + v, constants=dict(c, Variant='"%s"' % v), expect='violated', workers=1))
    out.append(dict(base, name='kdtree_broken_break', constants=dict(tall, Variant='"break"', Part={0}), expect='violated'))
    return dict(design=out, jobs=[dict(name='queries', mode='container', args=[], trace='TraceContainer')],
                assumptions=['distances within 16 units in the last place count as equal', 'scenes of up to 300 shapes (triangles, spheres, exact boxes)'])


def plan_C11(th, seed):
    base = dict(module='Shapes', invariants=['TriangleRight', 'Sealed', 'SphereRight'], workers=2, timeout=870)
    part = set(range(8)) if th else {seed % 8}
    out = [dict(base, name='shapes_' + k, constants=dict(Kind='"%s"' % k, Variant='"code"', Part=part), workers=8 if th else 2) for k in ('tri', 'seal', 'sphere')]
    for k, v in (('tri', 'strict'), ('tri', 'twoedges'), ('tri', 'unsigned'), ('sphere', 'nearonly'), ('sphere', 'farfirst')):
        out.append(dict(base, name='shapes_broken_' + v, constants=dict(Kind='"%s"' % k, Variant='"%s"' % v, Part={0}), expect='violated', workers=1))
    return dict(design=out, jobs=[dict(name='shapes', mode='shape', args=[], trace='TraceShape')],
                assumptions=['exact scenes have coordinates of at most 31 units; floating point scenes are decided outside a margin of a few roundings around edges, tangents and limits',
                             'rays in the plane of a triangle count as misses'])


def plan_C12(th, seed):
    base = dict(module='Walk', invariants=['Right'], workers=2)
    c = dict(L=20, E=1 if not th else 2, Variant='"code"')
    out = [dict(base, name='walk', constants=c, workers=2 if not th else 8)]
    for v in ('nopush', 'outward', 'oneaxis'):
        out.append(dict(base, name='walk_broken_' + v, constants=dict(c, Variant='"%s"' % v), expect='violated', workers=1))
    return dict(design=out, jobs=[dict(name='walks', mode='walk', args=[], trace='TraceWalk')],
                assumptions=['directions at least 1.7 degrees off the surface; solids up to 1000 times their size away from the origin; inner paths of at least 1/512 of the solid'])


def path_design(th, keep):
    c = dict(MaxV=8, MinRR=4, Pdfs={0, 1, 2, 3}, NLights=2, Variant='"code"', Emitting=False)
    base = dict(module='Path', invariants=['Once', 'Compensated'], properties=['Ends'])
    out = [dict(base, name='path', constants=c if not th else dict(c, MaxV=11, Pdfs={0, 1, 2, 3, 5}, NLights=3), workers=3 if not th else 6)]
    for v in keep:
        out.append(dict(base, name='path_broken_' + v, constants=dict(c, Variant='"%s"' % v, MaxV=7), properties=[], expect='violated', workers=1))
    return out


def plan_C13(th, seed):
    gen = dict(name='gen_paths', module='Path', constants=dict(MaxV=3, MinRR=4, Pdfs={1}, NLights=1, Variant='"code"', Emitting=True), invariants=['Emit'], out='paths.txt', workers=1)
    return dict(design=path_design(th, ['always', 'doublespec', 'noflag', 'stuck', 'nocomp', 'late']), generate=[gen],
                jobs=[dict(name='path', mode='path', args=['path'], trace='TracePath', input='paths.txt', timeout=850, vtimeout=800)],
                assumptions=['worlds of scripted places, lights, lobes and visibility (up to 12 places and 10 directions); random termination is located to 2^-15'])


def plan_C14(th, seed):
    return dict(design=path_design(th, ['noscale', 'nomis', 'doublespec']),
                jobs=[dict(name='direct', mode='path', args=['direct'], trace='TracePath', timeout=850, vtimeout=800),
                      dict(name='lamps', mode='lamp', args=[], trace='TraceLamp', timeout=850, vtimeout=800)],
                assumptions=['triangle area lights (spheres cannot be sampled in this crate)', 'scripted worlds as in C13'])


def plan_C15(th, seed):
    c = dict(K=3, G=2, MaxN=2, Variant='"code"', Part={0, 1})
    base = dict(module='Lobes', invariants=['Ledger', 'Unbiased'], workers=4, timeout=870, heap='4g' if not th else '12g')
    out = [dict(base, name='lobes', constants=c)]
    if th:
        out.append(dict(base, name='lobes_deep', constants=dict(c, K=2, MaxN=3, Part={0, 1}), workers=8))
    for v in ('noremap', 'nodivide', 'oneside', 'ownvalue', 'owndensity'):
        out.append(dict(base, name='lobes_broken_' + v, constants=dict(c, Variant='"%s"' % v), expect='violated', workers=1))
    return dict(design=out, jobs=[dict(name='lobes', mode='lobes', args=[], trace='TraceLobes')],
                assumptions=['scripted lobes: value and density do not depend on the directions, which are recorded and compared instead', 'directions whose side is decided by rounding are left out'])


def plan_C16(th, seed):
    c = dict(Q=4 if not th else 6, MaxW=1, Variant='"code"')
    base = dict(module='Microfacet', invariants=['Ledger', 'Symmetric'], workers=4, timeout=870, heap='4g' if not th else '12g')
    out = [dict(base, name='microfacet', constants=c)]
    for v in ('noflip', 'noside', 'anyside', 'nofacing', 'inverse'):
        out.append(dict(base, name='microfacet_broken_' + v, constants=dict(c, Q=4, Variant='"%s"' % v), expect='violated', workers=1))
    return dict(design=out, jobs=[dict(name='material', mode='material', args=[], trace='TraceMaterial'),
                      dict(name='facets', mode='material', args=['facets'], trace='TraceMaterial')],
                assumptions=['ledger of sampled directions by solid angle: roughness at least 0.15, outgoing direction at least 0.05 above the plane (diffuse and smooth: 1e-6); facets by their slopes: any roughness from 0.001, outgoing direction near the normal',
                             'plastic: base and coat reflectance add up to at most one', 'rough glass: index other than one'])


def plan_C17(th, seed):
    base = dict(module='Optics', invariants=['Bounded', 'Snell', 'Balance', 'BothWays', 'NoAbsorption'], workers=2, timeout=600)
    out = [dict(base, name='optics', constants=dict(Variant='"code"'))]
    for v in ('swapped', 'unpolarised'):
        out.append(dict(base, name='optics_broken_' + v, constants=dict(Variant='"%s"' % v), expect='violated', workers=1))
    return dict(design=out, jobs=[dict(name='optics', mode='material', args=['optics'], trace='TraceOptics')],
                assumptions=['fractions are not judged next to the critical angle, nor for conductors that are nearly dielectrics of a lower index'])


def plan_C18(th, seed):
    c = dict(MaxN=3 if not th else 4, Top=2, Variant='"code"', Emitting=False)
    base = dict(module='Assembly', invariants=['EachOnce', 'AllTold', 'ReachesOut'], properties=['Assembled'], workers=4, timeout=870, heap='4g' if not th else '12g')
    out = [dict(base, name='assembly', constants=c)]
    for v in ('shapesonly', 'early', 'twice', 'notlast', 'shapeonly', 'lightonly', 'short'):
        out.append(dict(base, name='assembly_broken_' + v, constants=dict(c, MaxN=3, Variant='"%s"' % v), properties=[], expect='violated', workers=1))
    gen = dict(name='gen_assembly', module='Assembly', constants=dict(c, MaxN=3, Top=2 if th else 1, Emitting=True), invariants=['Emit'], out='assembly.txt', workers=1)
    return dict(design=out, generate=[gen], jobs=[dict(name='assembly', mode='assembly', args=[], trace='TraceAssembly', input='assembly.txt')],
                assumptions=['scripted shapes (plates on integer points); lights that listen and then behave as distant lights'])


def plan_C19(th, seed):
    c = dict(MaxN=3 if not th else 4, Variant='"code"', Emitting=False)
    base = dict(module='Transforms', invariants=['Chained', 'Undone', 'Directions', 'Perpendicular', 'InBox'], workers=4, timeout=870, heap='4g' if not th else '12g')
    out = [dict(base, name='transforms', constants=c)]
    for v in ('order', 'invorder', 'transposed', 'moved', 'normal', 'corners'):
        out.append(dict(base, name='transforms_broken_' + v, constants=dict(c, MaxN=3, Variant='"%s"' % v), expect='violated', workers=1))
    gen = dict(name='gen_transforms', module='Transforms', constants=dict(c, MaxN=3, Emitting=True), invariants=['Emit'], out='transforms.txt', workers=1)
    return dict(design=out, generate=[gen], jobs=[dict(name='transform', mode='transform', args=[], trace='TraceTransform', input='transforms.txt')],
                assumptions=['lattice factors are judged exactly (to 1/128); arbitrary factors by comparison with their application one after another'])


def plan_C20(th, seed):
    c = dict(Size=1 if not th else 2, Variant='"code"')
    base = dict(module='Camera', invariants=['Through', 'Corners', 'Centred', 'Rows'], workers=4, timeout=870, heap='4g')
    out = [dict(base, name='camera', constants=c)]
    for v in ('upsidedown', 'swapped', 'half', 'mirrored', 'inverse'):
        out.append(dict(base, name='camera_broken_' + v, constants=dict(Size=1, Variant='"%s"' % v), expect='violated', workers=1))
    return dict(design=out, jobs=[dict(name='camera', mode='camera', args=[], trace='TraceCamera')],
                assumptions=['camera frames are rational rotations, tangents of half the field of view rational, so that the expected direction is exact up to 2^-12; directions are judged to about 1/800'])


def plan_C21(th, seed):
    base = dict(module='Texture', invariants=['Right', 'Origin', 'Walked'], workers=4, timeout=870, heap='4g')
    c = lambda dim, v: dict(Dim=dim, Reach=12 if not th else 24, Variant='"%s"' % v)
    out = [dict(base, name='texture_%dd' % d, constants=c(d, 'code')) for d in (2, 3)]
    for v, d in (('offsetfirst', 2), ('truncate', 2), ('rem', 2), ('stripes', 2), ('flat', 3)):
        out.append(dict(base, name='texture_broken_' + v, constants=c(d, v), expect='violated', workers=1))
    return dict(design=out, jobs=[dict(name='texture', mode='texture', args=[], trace='TraceTexture')],
                assumptions=['a face belongs to the cell above it; mappings with rational rotations are judged 1/32 away from faces, all others on faces too'])


def plan_C04(th, seed):
    return dict(design=film_design(th), jobs=[dict(name='film', mode='film', args=['mean'], trace='TraceFilm')],
                assumptions=['sample positions and radii are multiples of 1/32 pixel, colours and weights dyadic, so that f32 sums are exact and the expected mean is exact'])


def plan_C05(th, seed):
    return dict(design=film_design(th)[:1], jobs=[dict(name='film', mode='film', args=['invalid'], trace='TraceFilm')],
                assumptions=['radiance is scripted through a shape\'s emission; any path to an invalid value is the same value at the film'])


def plan_C06(th, seed):
    return dict(design=film_design(th)[:1], jobs=[dict(name='film', mode='film', args=['codes'], trace='TraceFilm')],
                assumptions=['levels are decided up to 2^-19 of the linear value around a boundary (single precision)'])
