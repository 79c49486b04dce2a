"""Per-property check specifications: which harness entries run, with which parameters and bounds."""
SPECS = {}
def case(name, entry, tier="quick", **kw):
    d = dict(name=name, entry=entry, tier=tier); 
    for k in ("time", "weight", "bounds", "exit_ok", "steps"):
        if k in kw: d[k] = kw.pop(k)
    d["params"] = kw; return d
def esz(dt): return 1 if dt == 1 else 2 if dt in (2, 12) else 4 if dt in (3, 4, 13) else 8
ILN = ["bsq", "bil", "bip"]; PAIRS = [(a, b) for a in range(3) for b in range(3) if a != b]; ALLDT = [1, 2, 3, 4, 5, 12, 13, 14, 15]

BIGQ = {(0, 1): (17, 20), (0, 2): (18, 22), (1, 0): (19, 21), (1, 2): (17, 22), (2, 0): (18, 20), (2, 1): (19, 21)}
def interleave():
    cs = []
    for f, t in PAIRS:
        n = "%s2%s" % (ILN[f], ILN[t])
        for dt in ALLDT:
            cs.append(case("conv.%s.dt%d" % (n, dt), "h_conv", box=3 if dt == 1 else 2, **{"from": f, "to": t, "dt": dt}))
        cs.append(case("conv.%s.box5" % n, "h_conv", "thorough", box=5, **{"from": f, "to": t, "dt": 1}))
        for m in range(1, 24): cs.append(case("conv.%s.shape%d" % (n, m), "h_conv", "quick" if m in (4, 5, 6, 7, 13, 15) + BIGQ[(f, t)] else "thorough", big=m, steps=10**9, **{"from": f, "to": t, "dt": 1}))
        cs.append(case("same.%s" % n, "h_same", **{"from": f, "to": t, "dt": 2, "box": 2}))
        cs.append(case("inplace.%s" % n, "h_inplace", **{"from": f, "to": t, "dt": 2, "box": 3}))
        for m in (1, 2, 3, 4, 5, 6): cs.append(case("inplace.%s.shape%d" % (n, m), "h_inplace", "thorough", big=m, **{"from": f, "to": t, "dt": 4}))
    return dict(harness=["interleave.c"], level="model_checking", bounds="quick: every shape up to 3x3x3 (8-bit) and 2x2x2 (16/32/64-bit, float, double), plus elongated shapes up to 260; all pixel and wavelength bytes symbolic; thorough: 5x5x5, all nine element types and 16 further shapes", outside="larger cubes; dimensions whose product overflows int", cases=cs)
SPECS["P01"] = interleave()

def c01():
    cs = [case("elemsize", "h_elemsize")]
    for dt in ALLDT:
        for mode in range(4): cs.append(case("create.dt%d.mode%d" % (dt, mode), "h_create", dt=dt, mode=mode, il=(dt + mode) % 3, box=2, bounds="shapes 1..2^3, four heap address residues mod 64, all pixel and wavelength bytes symbolic"))
        cs.append(case("create.dt%d.box4" % dt, "h_create", "thorough", dt=dt, mode=3, il=dt % 3, box=4))
    for m in range(1, 24):
        for mode in (0, 3): cs.append(case("create.shape%d.mode%d" % (m, mode), "h_create", "quick" if m in (1, 3, 7, 14, 17, 20, 22) else "thorough", dt=5 if m % 2 and m < 17 else 1, mode=mode, il=m % 3, big=m, res=0, steps=10**9))
    for w in range(3):
        for i in range(9): cs.append(case("reject.dim%d.t%d" % (w, i), "h_reject", "quick" if i % 4 == w % 4 else "thorough", which=w, dti=i, data=i & 1, exit_ok=1))
    for d in range(2): cs.append(case("reject.type.%d" % d, "h_reject", which=3, data=d, exit_ok=1))
    return dict(harness=["core_cube.c"], level="model_checking", bounds="all nine element types, all three interleaves, every shape up to 2x2x2 (thorough 4x4x4) at four heap address residues, elongated and large shapes up to 90 000 elements; every caller byte symbolic; rejected dimensions: every int from -40000 to 0 in any position", outside="cubes over 256 MiB, allocation failure", cases=cs)
SPECS["C01"] = c01()
def c02():
    cs = []
    for dt in ALLDT:
        cs.append(case("copy.dt%d" % dt, "h_copy", dt=dt, il=dt % 3, box=2 if esz(dt) > 1 else 3)); cs.append(case("copyto.dt%d" % dt, "h_copy_to", dt=dt, il=dt % 3, il2=(dt + 1) % 3, box=2 if esz(dt) > 1 else 3))
        cs.append(case("copy.dt%d.box4" % dt, "h_copy", "thorough", dt=dt, il=(dt + 1) % 3, box=4)); cs.append(case("copyto.dt%d.box4" % dt, "h_copy_to", "thorough", dt=dt, il=(dt + 1) % 3, il2=dt % 3, box=4))
    for il in range(3):
        for il2 in range(3): cs.append(case("copyto.%d.%d" % (il, il2), "h_copy_to", dt=2, il=il, il2=il2, box=2))
    for m in range(1, 24):
        cs.append(case("copy.shape%d" % m, "h_copy", "quick" if m in (1, 3, 7, 14, 17, 20, 22) else "thorough", dt=1 if m > 16 else 4, il=m % 3, big=m, steps=10**9)); cs.append(case("copyto.shape%d" % m, "h_copy_to", "quick" if m in (2, 5, 9, 13, 18, 21, 22) else "thorough", dt=1 if m > 16 else 12, il=m % 3, il2=(m + 1) % 3, big=m, steps=10**9))
    cs.append(case("wave", "h_copy_wave", box=2)); cs.append(case("wave.long", "h_copy_wave", big=1)); cs.append(case("wave.box4", "h_copy_wave", "thorough", box=4, time=900))
    for w in range(5): cs.append(case("mismatch%d" % w, "h_copy_to_bad", which=w, exit_ok=1))
    return dict(harness=["core_cube.c"], level="model_checking", bounds="all nine element types and interleave pairs, every shape up to 2x2x2 or 3x3x3 (thorough 4x4x4), elongated and large shapes up to 90 000 elements, every byte symbolic", outside="larger cubes", cases=cs)
SPECS["C02"] = c02()
def c03():
    cs = []
    for dt in ALLDT:
        for ch in (1, 3):
            b = 2 if esz(dt) > 2 else 3
            cs += [case("create.dt%d.ch%d" % (dt, ch), "h_create", dt=dt, ch=ch, box=b), case("adopt.dt%d.ch%d" % (dt, ch), "h_adopt", dt=dt, ch=ch, box=b)]
            for own in (0, 1): cs.append(case("copy.dt%d.ch%d.%d" % (dt, ch, own), "h_copy", dt=dt, ch=ch, own=own, box=2)); cs.append(case("copy.dt%d.ch%d.%d.box5" % (dt, ch, own), "h_copy", "thorough", dt=dt, ch=ch, own=own, box=5))
    for m in range(1, 24):
        q = "quick" if m in (1, 2, 14, 17, 20, 21) else "thorough"
        cs += [case("create.shape%d" % m, "h_create", q, dt=1 if m > 16 else 5, ch=1 + m % 4, big=m, res=0, steps=10**9), case("copy.shape%d" % m, "h_copy", q, dt=1 if m > 16 else 3, ch=1 + m % 2, own=m % 2, big=m, res=0, steps=10**9)]
    for w in range(3):
        for i in range(9): cs.append(case("reject.%d.t%d" % (w, i), "h_reject", "quick" if i % 4 == w % 4 else "thorough", which=w, dti=i, data=i & 1, exit_ok=1))
    for d in range(2): cs.append(case("reject.type.%d" % d, "h_reject", which=3, data=d, exit_ok=1))
    return dict(harness=["core_img.c"], level="model_checking", bounds="all nine element types, 1 and 3 channels, images up to 3x3 (thorough 5x5) at four heap address residues, elongated and large images up to 180 000 bytes, every byte symbolic; rejected dimensions: every int from -40000 to 0", outside="images over 256 MiB, allocation failure", cases=cs)
SPECS["C03"] = c03()
def c08():
    cs = []
    for dt in (1, 2, 12, 3, 13, 4, 5):
        cs += [case("mean.dt%d" % dt, "h_mean", dt=dt, box=4), case("var.dt%d" % dt, "h_var", dt=dt, box=3), case("var.dt%d.flat" % dt, "h_var", dt=dt, box=3, flat=1)]
        for m in (1, 2, 4, 13): cs.append(case("mean.dt%d.shape%d" % (dt, m), "h_mean", dt=dt, big=m))
        cs += [case("var.dt%d.box5.%d" % (dt, s), "h_var", "thorough", dt=dt, box=5, seed=s) for s in (2, 3)]
    for i, dt in enumerate((1, 2, 12, 3, 13, 4, 5)): cs += [case("var.dt%d.shape%d" % (dt, m), "h_var", dt=dt, big=m, spots=3, seed=m, steps=10**9) for m in ((13 + i % 2, 17) if dt in (1, 12) else (13 + i % 2,))]
    for ch in (1, 3): cs += [case("hist.ch%d.shape%d" % (ch, m), "h_hist", ch=ch, big=m, keep=5, skew=m % 5 * 60 + 15, steps=10**9) for m in (13, 14, 17)] + [case("contrast.ch%d.shape%d" % (ch, m), "h_contrast", ch=ch, big=m, keep=1, steps=10**9) for m in (13, 14, 26)]
    cs += [case("entropy.large%d" % i, "h_entropy", r=r, c=c, ch=1 + 2 * (i == 2), kinds=2, fixed=3, l0=9, l1=10 + i, l2=255) for i, (r, c) in enumerate([(20, 17), (2, 260), (260, 1), (18, 19)])]
    for dt in (4, 5): cs.append(case("meanf.dt%d" % dt, "h_meanf", dt=dt, box=4))
    for ch in (1, 3): cs += [case("hist.ch%d" % ch, "h_hist", ch=ch, box=3 if ch == 1 else 2), case("contrast.ch%d" % ch, "h_contrast", ch=ch, box=3 if ch == 1 else 2), case("hist.ch%d.wide" % ch, "h_hist", "quick", ch=ch, big=25), case("contrast.ch%d.wide" % ch, "h_contrast", ch=ch, big=25)]
    cs += [case("hist.box5", "h_hist", "thorough", ch=1, box=5), case("contrast.box6", "h_contrast", "thorough", ch=1, box=6)]
    for i, (r, c, k, l) in enumerate([(1, 1, 3, (0, 128, 255)), (1, 4, 3, (0, 1, 255)), (4, 1, 3, (254, 3, 255)), (2, 2, 3, (0, 128, 255)), (2, 3, 2, (9, 10, 0)), (3, 2, 3, (255, 0, 7))]):
        for ch in (1, 3): cs.append(case("entropy.%d.ch%d" % (i, ch), "h_entropy", "quick" if ch == 1 or i < 4 else "thorough", r=r, c=c, ch=ch, kinds=k, l0=l[0], l1=l[1], l2=l[2]))
    return dict(harness=["core_img.c"], level="model_checking", bounds="mean: images up to 4x4 and 4 elongated shapes, every integer-valued pixel whose sum is exact in single precision, plus fractional float images with one free pixel; variance: images up to 3x3 (thorough 5x5), one free pixel at any position; histogram and contrast: every 8-bit image up to 3x3 grey / 2x2 colour and one 3x17x5-pixel strip; entropy: every assignment of three grey levels to up to 6 pixels", outside="sums beyond 2^24 in single precision; contrast of a single pixel (no neighbours)", cases=cs)
SPECS["C08"] = c08()
def c09():
    cs = []
    for t in "cidr": cs += [dict(name="vec.%s" % t, entry="h_vec_%s" % t, tier="quick", params=dict(steps=4)), case("long.%s" % t, "h_long_%s" % t, n=40), dict(name="vec.%s.6" % t, entry="h_vec_%s" % t, tier="thorough", params=dict(steps=6), time=1500), case("drain.%s" % t, "h_drain_%s" % t, n=12), case("drain.%s.48" % t, "h_drain_%s" % t, "thorough", n=48), case("long.%s.200" % t, "h_long_%s" % t, "thorough", n=200)]
    cs += [case("se", "h_se", box=4), case("se.box9", "h_se", "thorough", box=9), case("se.bad0", "h_se_bad", data=0, exit_ok=1), case("se.bad1", "h_se_bad", data=1, exit_ok=1)]
    for w, h in ((300, 1), (1, 300), (33, 9), (300, 300)): cs.append(case("se.%dx%d" % (w, h), "h_se_big", w=w, h=h, steps=10**9))
    return dict(harness=["vector.c"], level="model_checking", bounds="every history of up to 4 operations (thorough 6: push, pop, erase at any index, fill with 0-3 values, free) over four element types with arbitrary values; fill-drain-refill-drain histories of up to 12 (48) elements with every combination of two removal kinds and lengths kept; 40 (200) consecutive pushes followed by an erase at any index; elements up to 4x4 with arbitrary patterns and four large ones", outside="longer histories, allocation failure", cases=cs)
SPECS["C09"] = c09()
def p02():
    cs = []
    for dt in ALLDT:
        for il in range(3): cs.append(case("range.dt%d.%s" % (dt, ILN[il]), "h_range", dt=dt, il=il, box=2))
    for il in range(3):
        cs.append(case("range.%s.box3" % ILN[il], "h_range", dt=2, il=il, box=3)); cs.append(case("range.%s.box4" % ILN[il], "h_range", "thorough", dt=1, il=il, box=4, time=2500))
        for m in (4, 5, 6, 7, 8, 9, 1, 2, 3, 14, 13): cs.append(case("range.%s.shape%d" % (ILN[il], m), "h_range", dt=2 if m % 2 else 1, il=il, big=m))
        for m in (17, 18, 19, 20, 21, 22): cs.append(case("range.%s.shape%d" % (ILN[il], m), "h_range", "quick" if m % 3 == il else "thorough", dt=1, il=il, big=m, steps=10**9))
        for w in range(3): cs += [case("bad.%s.%d" % (ILN[il], w), "h_range_bad", il=il, which=w, exit_ok=1), case("bad.%s.%d.wide" % (ILN[il], w), "h_range_bad", il=il, which=w, wide=1, exit_ok=1)]
    return dict(harness=["geom.c"], level="model_checking", bounds="every range of every cube up to 2x2x2 in all element types and layouts, up to 3x3x3 for 16-bit cubes (thorough 4x4x4), five ranges each of elongated and large cubes; refused ranges: one dimension's bounds any pair of ints outside the cube", outside="larger cubes", cases=cs)
SPECS["P02"] = p02()
def p03():
    cs = []
    for dt in ALLDT:
        cs += [case("get.dt%d" % dt, "h_band_get", dt=dt, box=2), case("put.dt%d" % dt, "h_band_put", dt=dt, box=2), case("reshape.dt%d" % dt, "h_reshape", dt=dt, box=2), case("splice.dt%d" % dt, "h_splice", dt=dt, box=2)]
    for m in (4, 5, 6, 7, 8, 9, 14): cs += [case("get.shape%d" % m, "h_band_get", dt=12, big=m), case("put.shape%d" % m, "h_band_put", dt=4, big=m), case("reshape.shape%d" % m, "h_reshape", "quick" if m == 4 else "thorough", dt=2, big=m)]
    cs += [case("get.box4", "h_band_get", "thorough", dt=2, box=4), case("put.box4", "h_band_put", "thorough", dt=2, box=4), case("splice.box3", "h_splice", "thorough", dt=2, box=3, pbox=3), case("splice.big", "h_splice", dt=4, big=4)]
    for w in range(3): cs += [case("get.bad%d" % w, "h_band_get_bad", which=w, exit_ok=1), case("splice.bad%d" % w, "h_splice_bad", which=w, exit_ok=1)]
    for w in range(6): cs.append(case("put.bad%d" % w, "h_band_put_bad", which=w, exit_ok=1))
    cs.append(case("reshape.bad", "h_reshape_bad", exit_ok=1))
    for f in (0, 1):
        for ch in (1, 3): cs.append(case("add.%d.ch%d" % (f, ch), "h_add", f=f, ch=ch, box=2)); cs.append(case("add.%d.ch%d.box3" % (f, ch), "h_add", "quick" if ch == 1 else "thorough", f=f, ch=ch, box=3))
        for w in range(4): cs.append(case("add.%d.bad%d" % (f, w), "h_add_bad", f=f, which=w, exit_ok=1))
    return dict(harness=["geom.c"], level="model_checking", bounds="cubes up to 2x2x2 in all element types (thorough 4x4x4) and elongated ones, every band, every reshape, every splice position, destinations larger than needed; additions of images of every pair of sizes up to 3x3 (8-bit and float, 1 and 3 channels)", outside="larger images; in-place use", cases=cs)
SPECS["P03"] = p03()
def p04():
    cs = []
    for dt in ALLDT:
        for ch in (1, 3): cs += [case("transport.dt%d.ch%d" % (dt, ch), "h_transport_img", dt=dt, ch=ch, box=3), case("flip.dt%d.ch%d" % (dt, ch), "h_flip", dt=dt, ch=ch, box=3)]
        cs.append(case("tcube.dt%d" % dt, "h_transport_cube", dt=dt, box=2))
    for m in (2, 3, 4, 5, 6, 14): cs += [case("transport.shape%d" % m, "h_transport_img", dt=2, ch=1 + m % 3, big=m), case("flip.shape%d" % m, "h_flip", dt=12, ch=1 + m % 2, big=m), case("tcube.shape%d" % m, "h_transport_cube", dt=2, big=m)]
    cs += [case("transport.box6", "h_transport_img", "thorough", dt=2, ch=2, box=6), case("flip.box6", "h_flip", "thorough", dt=2, ch=2, box=6), case("tcube.box4", "h_transport_cube", "thorough", dt=2, box=4)]
    for f in range(4):
        for w in range(4): cs.append(case("bad.%d.%d" % (f, w), "h_geom_bad", f=f, which=w, exit_ok=1))
    for w in range(5): cs.append(case("tcube.bad%d" % w, "h_cube_bad", which=w, exit_ok=1))
    for a in (0, 900, 1800, 2700, -900, 3600, 4500):
        for il in range(3): cs.append(case("rotate.%d.%s" % (a, ILN[il]), "h_rotate", "quick" if a <= 2700 else "thorough", deg10=a, il=il, dt=2 if il else 1, box=3 if il != 1 else 2)); 
        cs.append(case("rotate.%d.shape" % a, "h_rotate", deg10=a, il=2, dt=1, big=26)); cs.append(case("rotate.%d.shape27" % a, "h_rotate", deg10=a, il=0, dt=4, big=27))
    for a in (300, 450, 600, 100, 1350, -200, 3333, 450000, 895, 1): 
        cs.append(case("rotate.%d" % a, "h_rotate", deg10=a, il=a % 3, dt=2, box=3)); cs.append(case("rotate.%d.shape26" % a, "h_rotate", deg10=a, il=2, dt=1, big=26)); cs.append(case("rotate.%d.shape27" % a, "h_rotate", "thorough", deg10=a, il=2, dt=4, big=27))
    return dict(harness=["geom.c"], level="model_checking", bounds="transposition and flips: images up to 3x3 (thorough 6x6) and elongated ones in all element types with 1-3 channels, cubes up to 2x2x2 (thorough 4x4x4) and elongated ones; rotation: cubes up to 3x3x3, 6x4x2 and 4x7x2 at 7 right angles and 10 other angles, all contents", outside="other rotation angles; larger images", cases=cs)
SPECS["P04"] = p04()
def p05():
    cs = []
    for f in range(5): cs += [case("widen%d" % f, "h_widen", f=f, box=2), case("widen%d.big" % f, "h_widen", f=f, big=4), case("widen%d.box4" % f, "h_widen", "thorough", f=f, box=4)] + [case("widen%d.shape%d" % (f, m), "h_widen", f=f, big=m) for m in (1, 2, 3)]
    for f in range(5): cs += [case("widen%d.shape%d" % (f, m), "h_widen", "quick" if m in (13 + f % 3, 17 + f) else "thorough", f=f, big=m, steps=10**9) for m in range(13, 24)]
    for f in range(6): cs += [case("narrow%d.shape%d" % (f, m), "h_narrow", "quick" if m in (12 + f % 5, 17 + f) else "thorough", f=f, il=f % 3, big=m, spots=2, steps=10**9) for m in range(12, 23)]
    cs += [case("narrowimg.shape%d" % m, "h_narrow_img", ch=1 + 2 * (m & 1), big=m, spots=2, steps=10**9) for m in (13, 14, 17)]
    for f in range(6): cs += [case("narrow%d" % f, "h_narrow", f=f, il=f % 3, box=2, spots=2), case("narrow%d.every" % f, "h_narrow", "thorough", f=f, il=f % 3, box=2), case("narrow%d.shape" % f, "h_narrow", f=f, il=(f + 1) % 3, big=24, spots=3), case("narrow%d.shape4" % f, "h_narrow", "thorough", f=f, il=(f + 1) % 3, big=4)]
    cs += [case("narrowimg.ch1", "h_narrow_img", ch=1, box=3), case("narrowimg.ch3", "h_narrow_img", ch=3, box=2), case("narrowimg.ch3.wide", "h_narrow_img", ch=3, big=24, spots=4)]
    for f in range(12): cs.append(case("bad%d" % f, "h_type_bad", f=f, exit_ok=1))
    for i, (ni, dot, nf, ex) in enumerate([(1, 0, 0, 0), (3, 0, 0, 0), (6, 0, 0, 0), (1, 1, 1, 0), (3, 1, 2, 0), (4, 1, 5, 0), (2, 1, 0, 0), (1, 1, 3, 2), (2, 0, 0, 3), (3, 1, 2, 5), (1, 1, 6, 10), (2, 1, 1, 1), (4, 0, 0, 12), (0, 1, 3, 0), (0, 1, 2, 4)]): cs.append(case("atof%d" % i, "h_atof", pat=i, ni=ni, dot=dot, nf=nf, exp=ex))
    return dict(harness=["pix.c"], level="model_checking", bounds="widening: every cube up to 2x2x2 (thorough 4x4x4) and elongated ones, all contents; float narrowing: every single-precision value except NaN in cubes up to 2x2x2 (thorough: at every position) and 3x19x1, other pixels from a list of 16 values; text: 15 formats (0-6 integer digits, 0-6 fraction digits, exponents up to 12 with either sign, signs, leading spaces, trailing text) with an arbitrary digit at any position", outside="NaN; numbers beyond the float range; cubes of 2^31 elements and more", cases=cs)
SPECS["P05"] = p05()
def p12():
    cs = []
    for f in (0, 1):
        cs += [case("radio%d" % f, "h_radio", f=f, box=2), case("radio%d.box3" % f, "h_radio", "thorough", f=f, box=3), case("radio%d.bad0" % f, "h_radio_bad", f=f, which=0, exit_ok=1), case("radio%d.bad1" % f, "h_radio_bad", f=f, which=1, exit_ok=1)]
        for m in (13, 14, 15, 16, 12, 18): cs.append(case("radio%d.shape%d" % (f, m), "h_radio", f=f, big=m, keep=6 if m == 18 else 0, steps=10**9))
        for m in (1, 2, 3, 4, 5, 6, 26): cs.append(case("radio%d.shape%d" % (f, m), "h_radio", f=f, big=m))
    return dict(harness=["pix.c"], level="model_checking", bounds="cubes up to 2x2x2 (thorough 3x3x3) and seven elongated shapes; every pixel and every coefficient arbitrary", outside="larger cubes", cases=cs)
SPECS["P12"] = p12()
def p11():
    cs = []
    for f in (0, 1): cs += [case("expand%d" % f, "h_expand", f=f, box=3), case("expand%d.wide" % f, "h_expand", f=f, big=4), case("expand%d.tall" % f, "h_expand", f=f, big=6), case("bad%d" % f, "h_color_bad", f=f, exit_ok=1)]
    cs += [case("bgr", "h_bgr", box=3), case("bgr.wide", "h_bgr", big=4), case("bad2", "h_color_bad", f=2, exit_ok=1)] + [case("bad3.%d" % w, "h_color_bad", f=3, which=w, exit_ok=1) for w in range(5)]
    for m in (0, 1, 2): cs += [case("gray%d" % m, "h_gray", method=m, box=3 if m else 2), case("gray%d.box3" % m, "h_gray", "thorough", method=m, box=3), case("gray%d.wide" % m, "h_gray", method=m, big=24, spots=3), case("gray%d.tall" % m, "h_gray", method=m, big=25, spots=3)]
    for m in (13, 14, 17):
        cs += [case("expand%d.shape%d" % (f, m), "h_expand", f=f, big=m, steps=10**9) for f in (0, 1)] + [case("bgr.shape%d" % m, "h_bgr", big=m, steps=10**9)]
        if m < 17: cs += [case("gray%d.shape%d" % (k, m), "h_gray", method=k, big=m, spots=2, steps=10**9) for k in (0, 1)]
    cs.append(case("gray2.full", "h_gray", method=2, box=1, full=1))
    return dict(harness=["pix.c"], level="model_checking", bounds="8-bit images up to 3x3 and elongated ones with every content (averaged grey: up to 2x2, and three fully arbitrary pixels in elongated images); weighted grey conversion: one channel arbitrary and the others from seven levels in all combinations", outside="larger images", cases=cs)
SPECS["P11"] = p11()
def p10():
    cs = []
    for t in range(5): cs += [case("type%d" % t, "h_thresh", type=t, box=3), case("type%d.wide" % t, "h_thresh", type=t, big=24), case("type%d.tall" % t, "h_thresh", type=t, big=4)]
    for t in range(5): cs += [case("type%d.shape%d" % (t, m), "h_thresh", type=t, big=m, keep=8 if m == 17 else 0, steps=10**9) for m in (13, 14, 17)]
    cs += [case("otsu.large%d" % i, "h_otsu", r=r, c=c, scan=1, seed=i + 5, levels=3, skew=i, steps=10**9) for i, (r, c) in enumerate([(20, 17), (18, 19), (260, 2), (270, 260)])]
    for w in range(5): cs.append(case("bad%d" % w, "h_thresh_bad", which=w, exit_ok=1))
    for i, (r, c, k, l) in enumerate([(2, 2, 3, (10, 128, 250)), (1, 3, 4, (0, 255, 1, 254)), (4, 1, 3, (0, 127, 128)), (2, 2, 3, (254, 255, 0)), (1, 1, 3, (0, 9, 255)), (2, 3, 2, (100, 101, 0))]): cs.append(case("otsu%d" % i, "h_otsu", r=r, c=c, kinds=k, steps=10**9, **{"l%d" % j: v for j, v in enumerate(l)}))
    for sd in (1, 2): cs += [case("otsu.scan%d" % sd, "h_otsu", r=3, c=5, scan=1, seed=sd, levels=15, steps=10**9, weight=5), case("otsu.all%d" % sd, "h_otsu", "thorough", r=3, c=5, scan=1, seed=sd, steps=10**9, weight=5)]
    return dict(harness=["pix.c"], level="model_checking", bounds="every 8-bit image up to 3x3 and elongated ones, every threshold (every int; 0-255 for truncation) and every maximum value; Otsu: every assignment of up to four levels to up to six pixels and a 3x5 image with one pixel over 16 levels (thorough: all)", outside="Otsu on images whose pixels are all equal", cases=cs)
SPECS["P10"] = p10()
def p09():
    cs = []
    for op in range(4):
        cs += [case("op%d.3x3" % op, "h_morph", op=op), case("op%d.3x4" % op, "h_morph", op=op, r=3, c=4, free=8), case("op%d.4x3.k" % op, "h_morph", op=op, r=4, c=3, free=3, symk=1, kw=3, kh=3 if op < 2 else 1), case("op%d.k12" % op, "h_morph", op=op, r=3, c=3, kw=2, kh=1, free=9, symk=1), case("op%d.k31" % op, "h_morph", op=op, r=4, c=3, kw=1, kh=3, free=8), case("op%d.k22" % op, "h_morph", op=op, r=4, c=4, kw=2, kh=2, free=8), case("op%d.k53" % op, "h_morph", op=op, r=5, c=7, kw=5, kh=3, free=7, ones=0), case("op%d.k11" % op, "h_morph", op=op, r=2, c=3, kw=1, kh=1, free=6, symk=1), case("op%d.7x5" % op, "h_morph", op=op, r=7, c=5, free=8, ones=0, seed=3), case("op%d.2x9" % op, "h_morph", op=op, r=2, c=9, kw=3, kh=1, free=9), case("op%d.small" % op, "h_morph_small", op=op), case("op%d.smallw" % op, "h_morph_small", op=op, kh=1), case("op%d.smallh" % op, "h_morph_small", op=op, kw=1), case("op%d.9x9" % op, "h_morph", op=op, r=9, c=9, free=5, kw=3, kh=5, ones=0, seed=5), case("op%d.4x4" % op, "h_morph", "thorough", op=op, r=4, c=4, free=16, time=2500)]
        cs += [case("op%d.20x17" % op, "h_morph", op=op, r=20, c=17, free=5, kw=3, kh=3, seed=6, ones=0), case("op%d.260x3" % op, "h_morph", op=op, r=260, c=3, free=3, kw=1, kh=3), case("op%d.3x260" % op, "h_morph", op=op, r=3, c=260, free=3, kw=3, kh=1), case("op%d.k17" % op, "h_morph", op=op, r=19, c=18, free=4, kw=17, kh=17, seed=8)]
        if op > 1: cs += [case("op%d.it%d" % (op, it), "h_morph", op=op, r=5, c=6, free=6, it=it) for it in (0, 2, 3)]
    return dict(harness=["pix.c"], level="model_checking", bounds="8-bit images up to 9x9 with up to 9 (thorough 16) freely valued pixels spread over a fixed pattern, elements up to 5x5 (symbolic cells up to 9), 0-3 iterations of opening and closing", outside="multi-channel images", cases=cs)
SPECS["P09"] = p09()
def c04():
    cs = []
    for dt in ALLDT: cs += [case("save.dt%d" % dt, "h_save", dt=dt, il=dt % 3, box=2, w0=dt % 13), case("save.dt%d.il%d" % (dt, (dt + 1) % 3), "h_save", "thorough", dt=dt, il=(dt + 1) % 3, box=2, w0=(dt + 5) % 13)]
    for m in (1, 2, 3, 4, 5, 6, 12, 13, 14, 15, 16): cs.append(case("save.shape%d" % m, "h_save", dt=2 if m % 2 else 4, il=m % 3, big=m, w0=m % 13, steps=10**9))
    cs += [case("save.nowave", "h_save", dt=12, il=1, box=2, nowave=1), case("hdr", "h_writehdr", steps=10**9, weight=3), case("save.box4", "h_save", "thorough", dt=2, il=2, box=4, steps=10**9)]
    return dict(harness=["files.c"], level="model_checking", bounds="every cube up to 2x2x2 (thorough 4x4x4) of every type and eleven elongated ones, every pixel byte arbitrary; wavelengths from a list of 13 values; file names of three lengths; fresh and existing files; header sizes from nine values up to 2^31-1", outside="failing disks; wavelengths outside the list; larger files than 128 KiB", cases=cs)
SPECS["C04"] = c04()
def c05():
    cs = []
    for eq in range(5): cs.append(case("eq%d" % eq, "h_header", eq=eq, rot=eq, il=eq % 3, wl=1 + eq % 4, pad=eq & 1, b=2, s=2, l=3))
    for rot in range(6): cs.append(case("rot%d" % rot, "h_header", rot=rot, wl=1 + rot % 4, il=rot % 3, s=1, l=2, b=3, dt=ALLDT[rot]))
    for ex in range(18):
        for at in ((ex % 6, 6) if ex % 3 else (0, ex % 5 + 1)): cs.append(case("extra%d.%d" % (ex, at), "h_header", extra=ex, exat=at, rot=(ex + at) % 6, wl=0 if ex == 15 else 1 + (ex + at) % 4, s=2, l=1, b=2, il=ex % 3))
    for wl in (0, 1, 2, 3, 4, 5):
        for wv in (0, 1, 2, 3): cs.append(case("wave%d.%d" % (wl, wv), "h_header", wl=wl, wvar=wv, rot=wl, s=2, l=2, b=3, dt=12))
        cs.append(case("wave%d.crlf" % wl, "h_header", wl=wl, crlf=1, rot=(wl + 3) % 6, s=2, l=1, b=4, il=2))
    cs += [case("sizes", "h_header", wl=1, dt=2, il=2), case("many", "h_header", wl=3, rot=4, s=1, l=1, b=260, steps=10**9), case("many1", "h_header", wl=1, s=2, l=1, b=120, steps=10**9), case("long", "h_header", wl=1, s=1, l=1, b=3000, steps=10**9), case("dims", "h_header", wl=0, s=117, l=36, b=3, steps=10**9), case("dims2", "h_header", wl=0, s=1, l=1024, b=1, rot=3, steps=10**9), case("missing", "h_missing")]
    for k in range(4):
        for how in range(4): cs.append(case("bad%d.%d" % (k, how), "h_header_bad", miss=k, how=how, exit_ok=1))
    cs.append(case("badtype", "h_header_bad", miss=3, how=4, exit_ok=1))
    return dict(harness=["files.c"], level="model_checking", bounds="headers of the usual ENVI shape: six key orders, five spacings, CR-LF, 18 other keys at several places, six layouts of the wavelength list with arbitrary digits, lists shorter and longer than the bands and up to 260 entries; sizes up to 1024; missing, zero, negative and non-numeric sizes", outside="headers with other spacing of the wavelength key, upper-case values, header offsets and byte orders other than 0", cases=cs)
SPECS["C05"] = c05()
def c06():
    cs = []
    for ch in (1, 3): cs += [case("write.ch%d" % ch, "h_bmp_write", ch=ch)] + [case("write.ch%d.%dx%d" % (ch, r, c), "h_bmp_write", ch=ch, r=r, c=c, steps=10**9) for r, c in ((1, 70), (33, 2), (9, 19), (2, 257), (300, 1))]
    for bits in (8, 24): cs += [case("read%d" % bits, "h_bmp_read", bits=bits, weight=3), case("read%d.v4" % bits, "h_bmp_read", bits=bits, hs=108, r=2, c=3), case("read%d.gap" % bits, "h_bmp_read", bits=bits, gap=6, r=2, c=3)] + [case("read%d.%dx%d" % (bits, r, c), "h_bmp_read", bits=bits, r=r, c=c, steps=10**9) for r, c in ((1, 70), (33, 2), (9, 19), (2, 257), (300, 1))]
    cs += [case("read8.used%d" % u, "h_bmp_read", bits=8, used=u, r=2, c=3) for u in (1, 2, 16, 255, 256)]
    for w in range(4): cs.append(case("bad%d" % w, "h_bmp_bad", which=w, exit_ok=1))
    return dict(harness=["files.c"], level="model_checking", bounds="all images up to 3x5 and elongated ones up to 300 rows and 257 columns, all pixel, padding and palette bytes (one arbitrary palette index per image); palettes of 1 to 256 entries; two header sizes", outside="truncated files, compressed and top-down bitmaps", cases=cs)
SPECS["C06"] = c06()
def c07():
    cs = []
    for dt in ALLDT: cs += [case("cube.dt%d" % dt, "h_raw", dt=dt, il=dt % 3, box=2), case("image.dt%d" % dt, "h_rawimg", dt=dt, box=2)]
    for m in (4, 5, 6, 7, 8, 9, 13, 14, 15, 16): cs += [case("cube.shape%d" % m, "h_raw", dt=2, il=m % 3, big=m), case("image.shape%d" % m, "h_rawimg", dt=4, big=m)]
    cs += [case("cube.box4", "h_raw", "thorough", dt=2, box=4), case("image.box4", "h_rawimg", "thorough", dt=2, box=4), case("missing", "h_missing")]
    for w in range(4): cs += [case("bad.cube.%d" % w, "h_raw_bad", f=0, which=w, exit_ok=1), case("bad.image.%d" % w, "h_raw_bad", f=1, which=w, exit_ok=1)]
    cs.append(case("bad.image.4", "h_raw_bad", f=1, which=4, exit_ok=1))
    return dict(harness=["files.c"], level="model_checking", bounds="every cube and image up to 2x2x2 (thorough 4x4x4) of every type and elongated ones, every file byte arbitrary, files longer than needed; every refused size from -40000 to 0", outside="files shorter than the requested size, files over 16 KiB", cases=cs)
SPECS["C07"] = c07()
def c10():
    cs = []
    for dt in ALLDT: cs += [case("create.dt%d" % dt, "x_create", dt=dt, il=dt % 3, how=dt % 5, box=2), case("copy.dt%d" % dt, "x_copy", dt=dt, il=(dt + 1) % 3, box=2), case("save.dt%d" % dt, "x_save", dt=dt, il=dt % 3, box=2), case("raw.dt%d" % dt, "x_raw", dt=dt, il=(dt + 2) % 3, box=2)]
    for h in range(5):
        for il in range(3): cs.append(case("create.how%d.il%d" % (h, il), "x_create", dt=2, il=il, how=h, box=2))
    for f in range(4):
        for w in range(5): cs.append(case("create.bad%d.%d" % (f, w), "x_create_bad", f=f, which=w, exit_ok=1))
    for f, t in PAIRS:
        n = "%s2%s" % (ILN[f], ILN[t])
        for dt in ALLDT: cs.append(case("conv.%s.dt%d" % (n, dt), "x_convert", box=3 if dt == 1 else 2, **{"from": f, "to": t, "dt": dt}))
        for m in (4, 5, 6, 7, 13, 15): cs.append(case("conv.%s.shape%d" % (n, m), "x_convert", "quick" if m % 3 == f else "thorough", big=m, steps=10**9, **{"from": f, "to": t, "dt": 2}))
        cs.append(case("conv.%s.box4" % n, "x_convert", "thorough", box=4, **{"from": f, "to": t, "dt": 1}))
    for f in range(4): cs.append(case("same%d" % f, "x_convert_same", f=f, box=2))
    for f in range(7): cs.append(case("conv.bad%d" % f, "x_convert_bad", f=f, exit_ok=1))
    for il in range(3):
        cs += [case("range.%s" % ILN[il], "x_range", dt=(1, 12, 5)[il], il=il, box=2), case("range.%s.box3" % ILN[il], "x_range", "thorough", dt=2, il=il, box=3)] + [case("range.%s.shape%d" % (ILN[il], m), "x_range", dt=2, il=il, big=m) for m in (4, 5, 6, 8)] + [case("range.%s.bad%d" % (ILN[il], w), "x_range_bad", il=il, which=w, exit_ok=1) for w in range(3)]
    for m in (1, 3, 4, 6, 14): cs.append(case("save.shape%d" % m, "x_save", dt=2, il=m % 3, big=m, steps=10**9))
    for rot in range(5): cs.append(case("hdr.rot%d" % rot, "x_header", rot=rot, il=rot % 3, eq=rot % 3, wl=rot, wvar=rot % 3, dt=ALLDT[rot]))
    for ex in range(11): cs.append(case("hdr.extra%d" % ex, "x_header", extra=ex, rot=ex % 5, il=ex % 3, wl=1 + ex % 4))
    for wl in (1, 2, 3, 4): cs += [case("hdr.wl%d" % wl, "x_header", wl=wl, b=5, il=wl % 3), case("hdr.wl%d.crlf" % wl, "x_header", wl=wl, crlf=1, il=(wl + 1) % 3)]
    cs.append(case("hdr.many", "x_header", wl=3, b=140, steps=10**9))
    return dict(harness=["hymat.cpp"], cxx=1, ldlibs=["-lgdal"], level="model_checking", bounds="all element types and layouts, every shape up to 2x2x2 (conversions of 8-bit cubes 3x3x3, thorough 4x4x4) and elongated ones; every pixel and wavelength byte; every range; headers in five key orders, three spacings, eleven other keys, four list layouts with arbitrary digits; every invalid size, type and layout", outside="the GDAL library itself (a stand-in that creates the file; counterexamples are replayed against the real one) and C++ streams (a stand-in on the modelled files)", cases=cs)
SPECS["C10"] = c10()
BTN = 5
def p06():
    cs = []
    for t in range(5): cs += [case("index%d" % t, "h_border", t=t, hi=7, turns=2), case("index%d.len40" % t, "h_border", t=t, lo=40, hi=40, turns=2), case("index%d.any" % t, "h_border_any", t=t, max=4000 if t == 2 else 10**9), case("index%d.deep" % t, "h_border", "thorough", t=t, hi=16, turns=6)]
    cs.append(case("index.bad", "h_border_bad", exit_ok=1))
    for bt in range(5): cs += [case("make%d" % bt, "h_make_border", bt=bt, r=2, c=3), case("make%d.1x1" % bt, "h_make_border", bt=bt, r=1, c=1, max=3, t=3, l=2), case("make%d.shapes" % bt, "h_make_border", bt=bt, t=1, b=2, l=2, rt=1), case("make%d.far" % bt, "h_make_border", bt=bt, r=2, c=2, t=7, b=5, l=9, rt=6), case("make%d.ch3" % bt, "h_make_border", bt=bt, r=3, c=2, ch=3, t=2, b=0, l=1), case("make%d.large" % bt, "h_make_border", bt=bt, r=20, c=17, t=3, b=20, l=33, rt=3), case("make%d.long" % bt, "h_make_border", bt=bt, r=260, c=2, t=1, b=300, l=1, rt=0), case("make%d.wide" % bt, "h_make_border", bt=bt, r=1, c=33, t=1, b=1, l=5, rt=40), case("make%d.all" % bt, "h_make_border", "thorough", bt=bt, max=3)]
    for i, dt in enumerate(ALLDT): cs.append(case("make.dt%d" % dt, "h_make_border", dt=dt, r=2, c=2, ch=1 + i % 3, t=1, b=2, l=3, rt=i % 2))
    for w in range(5): cs.append(case("bad%d" % w, "h_make_border_bad", which=w, exit_ok=1))
    return dict(harness=["filter.c"], level="model_checking", bounds="border index: every length up to 7 (and 40) with positions up to two lengths outside (thorough 16, six), every length up to 10^9 (wrapping: 4000) with one length outside; bordering: images up to 3x3, sides 0-2 in every combination (thorough 0-3), wider fixed ones, all types, five border kinds, every byte arbitrary", outside="which pixel the constant border type yields when used as an index", cases=cs)
SPECS["P06"] = p06()
def p07():
    cs = [case("f2d.3x3", "h_filter2d"), case("f2d.symk", "h_filter2d", r=2, c=2, symk=1), case("f2d.symk33", "h_filter2d", r=3, c=3, symk=1), case("f2d.ch3", "h_filter2d", r=2, c=3, ch=3), case("f2d.k5x3", "h_filter2d", r=3, c=4, kr=5, kc=3), case("f2d.k1x7", "h_filter2d", r=2, c=5, kr=1, kc=7), case("f2d.k2x2", "h_filter2d", r=3, c=3, kr=2, kc=2), case("f2d.k4x1.ch3", "h_filter2d", r=4, c=2, ch=3, kr=4, kc=1), case("f2d.row", "h_filter2d", r=1, c=9), case("f2d.col", "h_filter2d", r=9, c=1), case("f2d.one", "h_filter2d", r=1, c=1), case("f2d.quarter", "h_filter2d", r=3, c=4, quarter=1), case("f2d.9x7", "h_filter2d", r=9, c=7, kr=3, kc=5)]
    for i in range(4): cs += [case("f2d.real%d" % i, "h_filter2d_real", bt=i, seed=i + 1, ch=3 if i == 2 else 1, r=2 if i == 2 else 3, c=3, kr=3 + 2 * (i % 2), kc=3)]
    cs += [case("median.3x3", "h_median", free=5), case("median.3x3b", "h_median", free=6, seed=4), case("median.4x5", "h_median", r=4, c=5, free=4), case("median.s5", "h_median", r=5, c=6, size=5, free=4), case("median.s1", "h_median", r=2, c=3, size=1, free=6), case("median.small", "h_median", r=2, c=5, size=3, free=0), case("median.s7", "h_median", r=7, c=7, size=7, free=3), case("median.all9", "h_median", "thorough", free=9, time=2500)]
    cs += [case("mean.3x3", "h_mean"), case("mean.4x2", "h_mean", r=4, c=2), case("mean.1x6", "h_mean", r=1, c=6, hi=5), case("mean.6x1", "h_mean", r=6, c=1, hi=7), case("mean.5x5", "h_mean", r=5, c=5, lo=3, hi=3), case("mean.5x5.s4", "h_mean", "thorough", r=5, c=5, lo=4, hi=4), case("mean.big", "h_mean", r=2, c=2, lo=5, hi=9), case("mean.9x8", "h_mean", "thorough", r=9, c=8, hi=7)]
    cs += [case("kernel", "h_gkernel"), case("kernel.long", "h_gkernel", "thorough", max=60)] + [case("kernel.bad%d" % w, "h_gkernel_bad", which=w, exit_ok=1) for w in (0, 1)]
    for kw in (1, 3, 5, 7):
        for kh in (1, 3, 5, 7): cs.append(case("gauss.%dx%d" % (kw, kh), "h_gauss", kw=kw, kh=kh, r=3 if kw == kh else 2, c=3, ch=3 if kw == 3 and kh == 5 else 1))
    cs += [case("gauss.own", "h_gauss", own=1), case("gauss.row", "h_gauss", r=1, c=7, kw=5, kh=3), case("gauss.col", "h_gauss", r=7, c=1, kw=3, kh=7), case("gauss.5x6.ch3", "h_gauss", r=4, c=5, ch=3, free=12)]
    for i, (a, b, kw, kh, ch) in enumerate([(4, 5, 3, 5, 1), (2, 0, 5, 3, 1), (6, 3, 7, 5, 1), (8, 7, 9, 3, 1), (0, 6, 9, 11, 1), (4, 4, 3, 3, 3), (1, 9, 9, 9, 1), (5, 4, 1, 9, 1)]): cs.append(case("gauss.sigma%d" % i, "h_gauss_sigma", s1=a, s2=b, kw=kw, kh=kh, ch=ch, bt=i % 4, r=3 if ch == 1 else 2, c=4 if ch == 1 else 2, seed=i + 1))
    for i, (a, b, kw, kh) in enumerate([(4, 5, 3, 5), (6, 3, 5, 7), (8, 7, 9, 3)]): cs.append(case("gauss.flat%d" % i, "h_gauss_sigma", s1=a, s2=b, kw=kw, kh=kh, flat=1, r=3, c=3, ch=1 + 2 * (i % 2), spots=2))
    for i, (a, b) in enumerate([(0, 1), (1, 0), (2, 3), (4, 2), (5, 1), (1, 6), (3, 4)]): cs.append(case("gauss.kernel%d" % i, "h_gauss_kernel", kx=a, ky=b, bt=i % 4, r=2, c=3, ch=1 + 2 * (i == 2), free=1 if i in (1, 5) else 2 if i == 0 else 4))
    for w in range(5): cs.append(case("gauss.bad%d" % w, "h_gauss_bad", which=w, exit_ok=1))
    for w in range(4): cs.append(case("bad%d" % w, "h_filter_bad", which=w, exit_ok=1)); cs.append(case("integral.bad%d" % w, "h_integral_bad", which=w, exit_ok=1))
    for r, c in ((3, 3), (1, 9), (9, 1), (4, 7), (1, 1), (20, 20)): cs.append(case("integral.%dx%d" % (r, c), "h_integral", r=r, c=c))
    cs += [case("integral.260x270", "h_integral", r=260, c=270, free=3, bright=1, steps=10**9), case("mean.large", "h_mean", r=20, c=19, lo=17, hi=17, free=1, bright=1), case("mean.large2", "h_mean", r=9, c=40, lo=34, hi=34, free=1, bright=1), case("mean.1x300", "h_mean", r=1, c=300, lo=5, hi=6, free=3), case("mean.300x1", "h_mean", r=300, c=1, lo=5, hi=6, free=3), case("median.17", "h_median", r=18, c=17, size=17, free=2, bright=1), case("median.20x23", "h_median", r=20, c=23, free=4), case("median.300x3", "h_median", r=300, c=3, free=3), case("median.3x300", "h_median", r=3, c=300, free=3), case("f2d.20x19", "h_filter2d", r=20, c=19, free=3, kr=3, kc=3), case("f2d.2x300", "h_filter2d", r=2, c=300, free=3), case("f2d.300x2", "h_filter2d", r=300, c=2, free=3, kr=5, kc=1), case("f2d.k19x17", "h_filter2d", r=4, c=5, free=4, kr=19, kc=17), case("gauss.20x19", "h_gauss", r=20, c=19, free=3), case("gauss.2x130", "h_gauss", r=2, c=130, free=3, kw=5, kh=1), case("gauss.130x2", "h_gauss", r=130, c=2, free=3, kw=1, kh=5, ch=3)]
    cs.append(case("integral.all", "h_integral", "thorough", r=120, c=150, steps=10**9))
    return dict(harness=["filter.c"], level="model_checking", bounds="images up to 9x7 (integral 20x20) with every pixel arbitrary where the arithmetic is exact (integer or quarter kernels with coefficients -20..20 or arbitrary in -8..7; standard Gaussian windows 1,3,5,7), otherwise one arbitrary pixel per run; median: up to 6 arbitrary pixels (thorough 9), sizes 1-7; mean: sizes 1-9; Gaussian weights: lengths up to 15 (60) for ten spreads", outside="the constant border type, channel counts other than 1 and 3 in the 2-D filter, spreads outside the list", cases=cs)
SPECS["P07"] = p07()
def p08():
    cs = []
    for e in ("lap", "sobel"): cs += [case(e + ".3x3", "h_" + e), case(e + ".1x1", "h_" + e, r=1, c=1), case(e + ".1x5", "h_" + e, r=1, c=5), case(e + ".5x1", "h_" + e, r=5, c=1), case(e + ".2x4", "h_" + e, r=2, c=4), case(e + ".4x2", "h_" + e, r=4, c=2), case(e + ".6x5", "h_" + e, r=6, c=5, free=8), case(e + ".3x5", "h_" + e, r=3, c=5), case(e + ".20x17", "h_" + e, r=20, c=17, free=3), case(e + ".2x260", "h_" + e, r=2, c=260, free=3), case(e + ".260x2", "h_" + e, r=260, c=2, free=3), case(e + ".9x9", "h_" + e, "thorough", r=9, c=9)]
    for w in range(6): cs.append(case("bad%d" % w, "h_grad_bad", which=w, exit_ok=1))
    return dict(harness=["filter.c"], level="model_checking", bounds="8-bit one-channel images up to 3x5 with every pixel arbitrary, 6x5 with eight, every threshold, four border types, kernel sizes 1-3 (thorough 9x9)", outside="the constant border type, several channels in the Laplacian", cases=cs)
SPECS["P08"] = p08()
def p13():
    cs = []
    for k in range(8):
        big = {0: (2, 7, 1), 1: (5, 4, 3), 2: (3, 1, 6), 3: (1, 9, 2), 4: (4, 2, 5), 5: (2, 5, 4), 6: (3, 6, 2), 7: (6, 2, 3)}[k]
        cs += [case("mul.k%d" % k, "h_mul", k=k, box=2), case("mul.k%d.big" % k, "h_mul", k=k, m=big[0], q=big[1], n=big[2]), case("trans.k%d" % k, "h_trans", k=k, q=1), case("trans.k%d.big" % k, "h_trans", k=k, q=1, m=1 + 3 * k, n=17 - k), case("mul.k%d.box" % k, "h_mul", "thorough", k=k, box=4)]
        if k < 7: cs += [case("corr.k%d" % k, "h_mul", k=k, box=2, corr=1), case("corr.k%d.q3" % k, "h_mul", k=k, m=2, q=3, n=2, corr=1), case("corr.k%d.q4" % k, "h_mul", k=k, m=1, q=4, n=3, corr=1)]
    for f in range(3): cs += [case("rows%d" % f, "h_rows", f=f)] + [case("rows%d.bad%d" % (f, w), "h_rows_bad", f=f, which=w, exit_ok=1) for w in range(3) if f != 1 or w == 0]
    cs += [case("identity", "h_identity"), case("norm", "h_norm")]
    for sd in range(1, 7): cs += [case("inv2.%d" % sd, "h_invert", m=2, nsym=4, lo=-2, hi=2, seed=sd), case("inv3.%d" % sd, "h_invert", m=3, nsym=4, lo=-1, hi=1, seed=sd, z0=sd & 1), case("inv4.%d" % sd, "h_invert", m=4, nsym=3, seed=sd, z0=sd & 1), case("inv3.wide%d" % sd, "h_invert", "thorough", m=3, nsym=5, lo=-3, hi=3, seed=sd), case("qr2.%d" % sd, "h_qr", m=2, nsym=3, seed=sd), case("qr3.%d" % sd, "h_qr", m=3, nsym=3, seed=sd), case("qr4.%d" % sd, "h_qr", m=4, nsym=2, seed=sd), case("qr3.wide%d" % sd, "h_qr", "thorough", m=3, nsym=5, seed=sd)]
    for sd in range(7, 15): cs += [case("inv%d.any%d" % (m, sd), "h_invert", m=m, nsym=1, lo=-60, hi=60, split=0, seed=sd) for m in (2, 3, 4)] + [case("qr%d.any%d" % (m, sd), "h_qr", m=m, nsym=1, lo=-60, hi=60, split=0, seed=sd) for m in (2, 3, 4)]
    cs += [case("inv%d.large%d" % (m, sd), "h_invert", m=m, nsym=1, lo=-20, hi=20, split=0, seed=sd, diag=3) for m in (5, 6) for sd in (1, 2, 3)] + [case("qr%d.large%d" % (m, sd), "h_qr", m=m, nsym=1, lo=-20, hi=20, split=0, seed=sd, diag=3) for m in (5, 6) for sd in (1, 2)] + [case("identity.20", "h_identity", lo=17, hi=20)] + [case("rows%d.9x17" % f, "h_rows", f=f, m=9, n=17) for f in range(3)]
    for k in range(8): cs += [case("mul.k%d.%dx%dx%d" % (k, m, q, n), "h_mul", k=k, m=m, q=q, n=n) for m, q, n in ((2, 17 + k, 1), (17 + k, 1, 2), (1, 2, 18 + k))] + [case("trans.k%d.260" % k, "h_trans", k=k, q=1, m=2 if k % 2 else 260, n=260 if k % 2 else 2)]
    cs += [case("inv1", "h_invert", m=1, nsym=1, lo=-9, hi=9), case("qr1", "h_qr", m=1, nsym=1, lo=-9, hi=9)]
    for e in range(4): cs += [case("eigen%d" % e, "h_eigen", e=e, lo=-3 if e < 2 else -2, hi=4 if e < 2 else 2), case("eigen%d.wide" % e, "h_eigen", "thorough", e=e, lo=-7, hi=8)]
    for k in (-12, 12): cs += [case("inv%d.scale%d" % (m, k), "h_invert", m=m, nsym=1, lo=-60, hi=60, split=0, seed=m, scale2=k) for m in (2, 3, 4)] + [case("qr%d.scale%d" % (m, k), "h_qr", m=m, nsym=1, lo=-60, hi=60, split=0, seed=m, scale2=k) for m in (2, 3, 4)] + [case("eigen%d.scale%d" % (e, k), "h_eigen", e=e, lo=-2, hi=2, scale2=k) for e in (0, 1, 2)] + [case("norm.scale%d" % k, "h_norm", scale2=k, lim=20, max=2)]
    return dict(harness=["mat.c"], level="model_checking", bounds="products and correlations: all integer entries (wrapping in the element type), float/double entries that are integers in -200..200, shapes up to 2x2x2 (thorough 4x4x4) and fixed ones up to length 9; row operations: any finite floats up to 4x4; inverses, QR and eigenvectors: integer matrices up to 4x4 (eigenvectors 3x3) whose symbolic entries range over small integers in every combination (two to five entries, case-split) or over -60..60 (one entry, symbolic)", outside="ill-conditioned and singular matrices; eigenvectors whose elimination meets a zero pivot", cases=cs)
SPECS["P13"] = p13()
def p14():
    cs = []
    for k in range(8): cs += [case("mean.k%d" % k, "h_mean_vec", k=k), case("mean.k%d.33" % k, "h_mean_vec", k=k, lo=33 if k < 4 else 9, hi=33 if k < 4 else 9), case("mean.k%d.any" % k, "h_mean_any", k=k)]
    for k in (6, 7): cs.append(case("mean.k%d.quarter" % k, "h_mean_vec", k=k, quarter=1))
    for k in (4, 5, 6, 7): cs.append(case("mean.k%d.huge" % k, "h_mean_vec", k=k, huge=1, lo=2, hi=5))
    cs += [case("sort", "h_sort", max=4), case("sort6", "h_sort", "thorough", max=6), case("sort.20", "h_sort_long"), case("sort.33", "h_sort_long", n=33, seed=2, free=1), case("log.20x17", "h_log", r=20, c=17), case("log.2x260", "h_log", r=2, c=260), case("factorial", "h_fact"), case("factorial.neg", "h_fact_neg"), case("log", "h_log"), case("log.val", "h_log_val")] + [case("log.bad%d" % w, "h_log_bad", which=w, exit_ok=1) for w in range(5)]
    return dict(harness=["mat.c"], level="model_checking", bounds="means of up to 33 values (8/16-bit: any; 32-bit and real: integers or quarters up to 10^6, one value: any); sorting up to 4 (thorough 6) arbitrary floats; factorials up to 20; logarithm of any positive floats up to 3x3x3", outside="sums beyond float precision, factorials beyond 20 (overflow), NaN", cases=cs)
SPECS["P14"] = p14()
def p15():
    cs = [case("avg", "h_average"), case("avg.long", "h_average", lo=33, hi=34)]
    for sd in (0, 1): cs += [case("var%d.n%d" % (sd, n), "h_variance", n=n, sd=sd) for n in (1, 2, 4, 8)] + [case("var%d.any%d" % (sd, n), "h_variance_any", n=n, sd=sd) for n in (2, 3, 5, 7, 20)]
    cs += [case("euclid", "h_euclid"), case("euclid.any", "h_euclid_any")]
    for sd in range(1, 7): cs += [case("angle.%d" % sd, "h_angle", n=1 + sd, seed=sd, seed2=sd * 3 + 1), case("angle.two%d" % sd, "h_angle", n=2 + sd, seed=sd + 20, seed2=sd, nsym=2, hi=15)]
    for k in (3, 4, 5): cs.append(case("angle.kind%d" % k, "h_angle", n=6, scale=k, seed=k))
    for sd in range(1, 5): cs.append(case("sam.%d" % sd, "h_sam", seed=sd, s=1 + sd % 3, l=1 + (sd + 1) % 3, b=2 + sd))
    for w in range(6): cs.append(case("sam.bad%d" % w, "h_sam_bad", which=w, exit_ok=1))
    cs += [case("hmean", "h_hmean"), case("hmean.b7", "h_hmean", box=2, b=7)] + [case("hmean.bad%d" % w, "h_hmean_bad", which=w, exit_ok=1) for w in range(7)]
    for f in range(6): cs += [case("read.form%d" % f, "h_read", form=f, n=5, have=5), case("read.form%d.short" % f, "h_read", form=f, n=4, have=2, tail=1 + f % 3), case("read.form%d.more" % f, "h_read", form=f, n=2, have=4, tail=f % 4)]
    cs += [case("read.frac", "h_read", form=6, n=6, have=6), case("read.long", "h_read", form=6, n=60, have=60), case("read.long5", "h_read", form=5, n=60, have=40, tail=2), case("hmean.20x17", "h_hmean", s=20, l=17, b=3), case("hmean.2x260", "h_hmean", s=2, l=260, b=2), case("hmean.260x1", "h_hmean", s=260, l=1, b=1), case("hmean.b40", "h_hmean", s=2, l=1, b=40), case("euclid.40", "h_euclid", lo=33, hi=34, thin=1), case("var0.any70", "h_variance_any", n=70), case("var1.any33", "h_variance_any", n=33, sd=1), case("sam.20x17", "h_sam", s=20, l=17, b=3, seed=9, every=30), case("sam.260", "h_sam", s=260, l=1, b=2, seed=4, every=20), case("sam.1x260", "h_sam", s=1, l=260, b=2, seed=4, every=20, hi=63), case("angle.n40", "h_angle", n=40, seed=3, seed2=5), case("angle.n260", "h_angle", n=260, seed=4, seed2=6)]
    cs += [case("read.empty", "h_read", n=3, have=0), case("read.word", "h_read", n=3, have=0, tail=2), case("read.missing", "h_read_missing", exit_ok=1)]
    for sd in range(7, 19): cs.append(case("angle.deep%d" % sd, "h_angle", "thorough", n=sd, seed=sd, seed2=sd * 5 + 1, nsym=1 + sd % 2, hi=255 if not sd % 2 else 20))
    cs += [case("sam.deep", "h_sam", "thorough", s=4, l=4, b=7, nsym=2, hi=15), case("hmean.box", "h_hmean", "thorough", box=5), case("avg.deep", "h_average", "thorough", lo=1, hi=60), case("euclid.deep", "h_euclid", "thorough", hi=16)]
    for k in (-14, 13): cs += [case("avg.scale%d" % k, "h_average", scale2=k, hi=3, lim=7), case("var0.scale%d" % k, "h_variance", n=2, lim=15, scale2=k), case("var1.scale%d" % k, "h_variance", n=2, sd=1, lim=15, scale2=k), case("euclid.scale%d" % k, "h_euclid", scale2=k, hi=2, lim=3)] + [case("angle.scale%d.%d" % (k, n), "h_angle", n=n, seed=n, seed2=n + 40, scale2=k, scaley=y) for n, y in ((2, k), (3, 0), (5, 13), (4, -14))]
    for sd in (0, 1): cs += [case("var%d.off%d.%d" % (sd, o, n), "h_variance_any", n=n, sd=sd, off=o) for o, n in ((9000, 4), (-5000, 9), (60000, 6))] + [case("var%d.any.scale%d" % (sd, k), "h_variance_any", n=6, sd=sd, scale2=k) for k in (-14, 13)]
    return dict(harness=["spec.c"], level="model_checking", bounds="averages of up to 8 values (and 33, 34) and band means of cubes up to 3x3x4, all integers up to 10^5; variance and deviation of 1, 2, 4, 8 arbitrary integers (-60..60), or up to 20 values of which one (at any place) is arbitrary; distances of up to 6 arbitrary integers (-500..500) and of any two single floats; angles of spectra of up to 8 bands with one (0..255) or two (0..15) arbitrary entries, decided through exact tables of the arc cosine; matching with one arbitrary band per pixel and any threshold; spectrum files of up to 5 numbers with arbitrary digits, five notations and seven separators", outside="spectra with negative values (the mapper sums absolute products) or without any signal; two arbitrary high-precision floats in one angle", cases=cs)
SPECS["P15"] = p15()
def p16():
    cs = []
    for i, (r, c, ch, fr) in enumerate([(2, 2, 1, 0), (3, 3, 1, 0), (2, 5, 1, 0), (4, 2, 1, 0), (3, 2, 3, 0), (5, 6, 1, 0), (6, 5, 3, 8), (7, 7, 1, 8), (20, 17, 1, 4), (2, 260, 1, 2), (261, 2, 3, 2), (90, 3, 3, 2)]):
        cs += [case("down.%dx%dx%d" % (r, c, ch), "h_pyr_down", r=r, c=c, ch=ch, free=fr, steps=10**9), case("up.%dx%dx%d" % (r, c, ch), "h_pyr_up", r=r, c=c, ch=ch, free=fr, steps=10**9)]
    cs += [case("up.flat%d" % i, "h_pyr_up", r=r, c=c, ch=ch, flat=1) for i, (r, c, ch) in enumerate([(2, 2, 1), (2, 3, 3), (5, 2, 1), (4, 6, 3), (30, 9, 1)])]
    cs += [case("%s.bad%d" % ("up" if u else "down", w), "h_pyr_bad", up=u, which=w, exit_ok=1) for u in (0, 1) for w in range(11)]
    cs += [case("up.all%dx%d" % (r, c), "h_pyr_up", "thorough", r=r, c=c) for r, c in ((3, 3), (2, 5), (4, 3))] + [case("down.all%dx%d" % (r, c), "h_pyr_down", "thorough", r=r, c=c) for r, c in ((4, 5), (6, 6))]
    return dict(harness=["filter.c"], level="model_checking", bounds="images from 2x2 to 3x3, 2x5 and 4x2 with every pixel arbitrary (going up: up to 2x3; larger ones in the thorough tier); two to four arbitrary pixels in images up to 20x17, 2x260, 261x2 and 90x3; one and three channels; single-coloured images up to 30x9 of any colour; every mismatching shape, type and channel count", outside="images with more arbitrary pixels at once, two or four channels", cases=cs)
SPECS["P16"] = p16()
def a01():
    cs = [case("eq.1x1", "h_equalise", r=1, c=1), case("eq.own", "h_equalise", own=1, free=1), case("eq.5x7", "h_equalise", r=5, c=7, free=1, seed=3), case("eq.16x16", "h_equalise", r=16, c=16, free=1, seed=5), case("eq.two", "h_equalise", "thorough", r=1, c=2)]
    for w, lo in enumerate((0, 126, 252)): cs += [case("eq.2x2.w%d" % w, "h_equalise", lo=lo, hi=lo + 3), case("eq.3x3.w%d" % w, "h_equalise", r=3, c=3, free=4, lo=lo, hi=lo + 3, seed=7 + w), case("eq.three.w%d" % w, "h_equalise", r=1 + w, c=4 - w, free=3, lo=max(0, lo - 4), hi=max(0, lo - 4) + 7, seed=2), case("eq.wide.w%d" % w, "h_equalise", r=3, c=7 + w, free=2, lo=min(lo, 240), hi=min(lo, 240) + 15, seed=9)]
    cs += [case("eq.large%d" % i, "h_equalise", r=r, c=c, free=1, seed=i + 11, skew=sk, steps=10**9) for i, (r, c, sk) in enumerate([(20, 17, 0), (18, 19, 7), (260, 2, 250), (2, 260, 255), (270, 260, 255), (270, 250, 3)])]
    cs += [case("st.scale%d" % k, "h_stretch", s=3, l=2, b=2, seed=40 + k, off=o, scale2=k) for k, o in ((-16, 0), (-16, -500), (-24, 300), (15, -500), (40, 0))]
    cs += [case("st.large%d" % i, "h_stretch", s=s, l=l, b=b, seed=i + 31, lo=900, hi=1155, steps=10**9) for i, (s, l, b) in enumerate([(20, 17, 2), (260, 2, 1), (2, 260, 2), (3, 2, 40)])]
    cs += [case("eq.bad%d" % w, "h_equalise_bad", which=w, exit_ok=1) for w in range(5)]
    cs += [case("st.%d" % i, "h_stretch", s=1 + i % 3, l=1 + (i + 1) % 4, b=1 + i % 3, seed=i + 1, off=o, spread=sp, lo=lo, hi=hi, frac=i % 2) for i, (o, sp, lo, hi) in enumerate([(0, 1000, 0, 2000), (-500, 1000, -1000, 1000), (0, 3, -4, 8), (100, 255, 0, 400), (30000, 2000, 29990, 32030), (0, 1, 0, 1000), (-900, 300, -1000, 5), (0, 65536, 0, 2000), (5, 2000, 1000, 3000)])]
    cs += [case("st.bad%d" % w, "h_stretch_bad", which=w, exit_ok=1) for w in range(7)]
    return dict(harness=["alg.c"], level="model_checking", bounds="equalisation of images up to 16x16 with one arbitrary pixel, or two to four arbitrary within windows of 16, 8 or 4 grey levels at the bottom, middle and top (11 arbitrary bits per run); stretching of bands up to 3x4 with one arbitrary value per band in windows of up to 2048 integers or quarters, inside, below and above the rest", outside="images with more arbitrary bits at once; values beyond int after scaling; equalisation of several channels", cases=cs)
SPECS["A01"] = a01()
def a02():
    cs = []
    for t in range(4):
        for i, k in enumerate((0, 1, 2, 4) if t < 3 else (1, 5, 6, 7, 8)): cs += [case("u8.t%d.k%d" % (t, k), "h_norm8", type=t, k=k, r=1 + i % 3, c=2 + i % 2, ch=3 if i == 2 else 1, seed=i + 1 + t), case("f32.t%d.k%d" % (t, k), "h_normf", type=t, k=k, r=1 + (i + 1) % 3, c=2, ch=3 if i == 1 else 1, seed=i + 7 + t, own=1 if i == 3 else 0)]
        cs += [case("f32.t%d.scale%d" % (t, k), "h_normf", type=t, k=5 if t == 3 else 1, r=2, c=3, seed=t + 5, scale2=k, **({"positive": 1} if k == -20 else {})) for k in (-16, -20, 12)]
        cs += [case("u8.t%d.large%d" % (t, i), "h_norm8", type=t, r=r, c=c, ch=h, seed=i + 3, skew=sk, k=1, steps=10**9) for i, (r, c, h, sk) in enumerate([(20, 17, 1, 0), (260, 2, 1, 255), (2, 260, 3, 0), (90, 100, 3, 255)])] + [case("f32.t%d.large%d" % (t, i), "h_normf", type=t, r=r, c=c, ch=h, seed=i + 3, k=1, lo=-150, hi=150, steps=10**9) for i, (r, c, h) in enumerate([(20, 17, 1), (2, 260, 3), (260, 1, 1)])]
        cs += [case("u8.t%d.two" % t, "h_norm8", type=t, free=2, hi=15, dim=1, r=2, c=3), case("u8.t%d.two.high" % t, "h_norm8", type=t, free=2, lo=240, hi=255, k=5 if t == 3 else 1, r=2, c=2), case("u8.t%d.one" % t, "h_norm8", type=t, r=1, c=1 + (t == 3), lo=1), case("u8.t%d.own" % t, "h_norm8", type=t, own=1, k=1), case("f32.t%d.neg" % t, "h_normf", type=t, negative=1, lo=-1500, hi=-400, k=2), case("f32.t%d.pos" % t, "h_normf", type=t, positive=1, lo=0, k=3), case("f32.t%d.wide" % t, "h_normf", type=t, lo=5000, hi=7000, k=1)]
    for f in range(3): cs += [case("bad%d.%d" % (f, w), "h_norm_bad", f=f, which=w, exit_ok=1) for w in range(7)]
    return dict(harness=["alg.c"], level="model_checking", bounds="images up to 3x3 and three channels with one arbitrary value (8 bits; floats 2001 integers) or two of 4 bits; nine pairs of limits; in place too", outside="images without any signal (division by zero) and constant images for min-max", cases=cs)
SPECS["A02"] = a02()
def a03():
    cs = []
    for i, (r, c) in enumerate([(1, 1), (1, 5), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (1, 8), (5, 3)]): cs += [case("dft8.%dx%d" % (r, c), "h_dft", r=r, c=c, how=1, seed=i + 1), case("spec.%dx%d" % (r, c), "h_spectrum", r=r, c=c, seed=i + 11)]
    for i, (r, c, lo) in enumerate([(1, 1, 0), (2, 3, 63488), (3, 2, 0), (1, 4, 30000), (4, 2, 200)]): cs += [case("dft16.%dx%d" % (r, c), "h_dft", r=r, c=c, dt=12, how=1, lo=lo, hi=min(65535, lo + 2047), seed=i + 21)]
    cs += [case("dft8.two", "h_dft", r=2, c=3, how=1, free=2, hi=15, seed=31), case("spec.two", "h_spectrum", r=3, c=2, free=2, hi=15, seed=32)]
    for i, (r, c, dt, sc) in enumerate([(2, 3, 1, 100), (3, 2, 12, 3000), (1, 1, 1, 10), (1, 1, 12, 100), (4, 1, 1, 20), (3, 3, 12, 20000), (2, 2, 1, 200)]): cs.append(case("idft.%d" % i, "h_idft", r=r, c=c, dt=dt, scale=sc, imag=i % 2, seed=i + 41))
    cs += [case("dft8.6x5", "h_dft", r=6, c=5, how=1, seed=51), case("dft8.7x8", "h_dft", r=7, c=8, how=1, seed=52), case("spec.8x8", "h_spectrum", r=8, c=8, seed=53), case("dft8.two.3x4", "h_dft", r=3, c=4, free=2, hi=31, how=1, seed=54), case("dft8.three", "h_dft", r=2, c=2, free=3, lo=248, how=1, seed=55)]
    cs += [case("dft8.%dx%d" % (r, c), "h_dft", r=r, c=c, how=1, seed=r + c, lo=0, hi=h) for r, c, h in ((17, 1, 255), (1, 19, 255), (2, 17, 63), (18, 3, 31))]
    cs += [case("mag", "h_magnitude"), case("mag.val", "h_magnitude_val"), case("optimal", "h_optimal", hi=13999999, steps=10**9), case("optimal.all", "h_optimal", steps=10**9), case("optimal.none", "h_optimal_none")]
    for f, ks in ((0, (0, 1, 2)), (1, (0, 1, 2)), (2, (0, 1, 2)), (3, (0, 1, 2)), (4, (0, 1, 2)), (5, (0, 1, 2)), (6, (0, 1))):
        for k in ks:
            for e in range(6):
                if f >= 3 and e in (3, 5) and f != 6: continue
                if f == 6 and e in (2, 3): continue
                if f == 0 and k == 0 and e == 2: continue
                if f in (1, 2) and k == 0 and e == 2: continue
                cs.append(case("bad%d.%d%d" % (f, k, e), "h_dft_bad", f=f, which=10 * k + e, exit_ok=1))
    return dict(harness=["alg.c"], level="model_checking", bounds="images up to 7x8 with one arbitrary pixel (all 8-bit values; 2048 consecutive 16-bit values), smaller ones with two or three of 5 or 3 bits; inverse transforms of spectra with one arbitrary coefficient; magnitudes of any floats; transform lengths: all up to the largest supported (minimality up to 14 million)", outside="images with more arbitrary pixels at once (the transform is linear)", cases=cs)
SPECS["A03"] = a03()
def a04():
    cs = [case("k2.2x2", "h_kmeans"), case("k1.3x3", "h_kmeans", kind=1, r=3, c=3), case("k1.1x1", "h_kmeans", kind=1, r=1, c=1), case("k3.2x2", "h_kmeans", kind=3, r=2, c=2, free=3), case("k2.2x3", "h_kmeans", r=2, c=3, free=5), case("k2.1x5", "h_kmeans", r=1, c=5), case("k2.6x1", "h_kmeans", r=6, c=1, free=4), case("k2.4x4", "h_kmeans", r=4, c=4, free=2), case("k2.th1", "h_kmeans", r=3, c=3, free=4, th=1, seed=3), case("k1.th2", "h_kmeans", kind=1, r=3, c=5, free=6, th=2), case("k2.th9", "h_kmeans", r=2, c=3, free=3, th=3), case("k2.black", "h_kmeans", black=1, r=2, c=3, free=0), case("k3.black", "h_kmeans", kind=3, black=1, free=0), case("k2.ch3", "h_kmeans", r=2, c=2, ch=3), case("k1.ch3", "h_kmeans", kind=1, r=2, c=4, ch=3, free=5), case("k5.1x2", "h_kmeans", kind=5, r=1, c=2), case("k2.3x3", "h_kmeans", "thorough", r=3, c=3), case("k3.2x3", "h_kmeans", "thorough", kind=3, r=2, c=3, free=3)]
    cs += [case("k2.%dx%d" % (r, c), "h_kmeans", kind=k, r=r, c=c, free=0 if k > 1 else 1) for r, c, k in ((12, 11, 1), (3, 40, 1), (5, 4, 2))]
    cs += [case("k2.ends%dx%d" % (r, c), "h_kmeans", r=r, c=c, ends=1, free=0, time=600) for r, c in ((1, 12), (13, 1))] + [case("k1.ends%dx%d" % (r, c), "h_kmeans", kind=1, r=r, c=c, ends=1, free=0) for r, c in ((2, 40), (70, 1))]
    cs += [case("bad%d" % w, "h_kmeans_bad", which=w, exit_ok=1) for w in range(3)]
    return dict(harness=["alg2.c"], level="model_checking", bounds="every drawn starting place and every black/bright pattern (up to 6 pixels), images up to 4x4, one to five centres, thresholds 0-3, one and three channels (threshold 1: whole neighbourhood of previous centres searched)", outside="more than 5 centres, images beyond 4x4", cases=cs)
SPECS["A04"] = a04()
def a05():
    cs = []
    for i, (s, l, b) in enumerate([(2, 2, 2), (3, 1, 2), (1, 4, 1), (2, 3, 3), (3, 3, 2), (4, 2, 3), (1, 1, 1), (5, 2, 2)]):
        for t in range(2): cs.append(case("cem.%dx%dx%d.%d" % (s, l, b, t), "h_cem", s=s, l=l, b=b, il=(i + t) % 3, seed=3 * i + t + 1, target=-1 if t else (i * 5) % (s * l), hi=60 if t else 700))
    for k in (-10, -6, 8): cs += [case("cem.scale%d.%d" % (k, t), "h_cem", s=3, l=3, b=2 + t, il=t, seed=50 + t, target=4 if t else -1, scale2=k) for t in range(3)]
    for i, (s, l, b, h) in enumerate([(20, 17, 2, 63), (300, 1, 2, 31), (1, 260, 3, 31), (4, 5, 4, 63), (5, 5, 5, 31)]): cs.append(case("cem.%dx%dx%d" % (s, l, b), "h_cem", s=s, l=l, b=b, il=i % 3, seed=i + 31, target=7, hi=h, steps=10**9))
    cs.append(case("bad", "h_cem_bad", exit_ok=1))
    return dict(harness=["alg2.c"], level="model_checking", bounds="cubes up to 5x2 pixels and 3 bands with one arbitrary value (up to 700), three layouts, target among the pixels or not, well-conditioned correlation", outside="near-singular correlation matrices", cases=cs)
SPECS["A05"] = a05()
def a06():
    cs = [case("hu.%d" % i, "h_hu", r=r, c=c, seed=i + 1) for i, (r, c) in enumerate([(3, 4), (1, 6), (5, 1), (2, 2), (6, 5), (1, 1), (4, 7)])] + [case("hu.two", "h_hu", r=3, c=3, free=2, hi=31, seed=9), case("hu.three", "h_hu", r=2, c=4, free=3, hi=7, seed=10)]
    cs += [case("hu.%dx%d" % (r, c), "h_hu", r=r, c=c, seed=r + c, steps=10**9) for r, c in ((20, 17), (260, 2), (2, 260), (70, 70))]
    cs += [case("sim.%d" % i, "h_shapes", r=r, c=c, r2=a, c2=b, seed=i + 21, seed2=i + 41) for i, (r, c, a, b) in enumerate([(3, 3, 2, 4), (4, 4, 4, 4), (1, 5, 5, 1), (2, 6, 3, 3), (5, 5, 2, 2)])] + [case("sim.both", "h_shapes", r=3, c=2, free2=1, seed=51, seed2=52), ]
    for h in range(3): cs += [case("same%d.%d" % (h, i), "h_same", r=2 + i, c=4 - i, how=h, seed=60 + i) for i in range(3)]
    cs += [case("bad%d" % w, "h_shapes_bad", which=w, exit_ok=1) for w in range(3)]
    return dict(harness=["alg2.c"], level="model_checking", bounds="images up to 6x5 with one arbitrary pixel (two of 5 bits, three of 3); comparisons of up to two; every placement of a moved shape in a larger canvas", outside="black images", cases=cs)
SPECS["A06"] = a06()
def a07():
    cs = [case("en.%dx%d" % (r, c), "h_energy", r=r, c=c, seed=i + 1) for i, (r, c) in enumerate([(3, 3), (1, 1), (1, 6), (5, 1), (2, 2), (4, 5), (7, 6)])] + [case("en.dark%d" % i, "h_energy", r=3, c=2 + i, seed=20 + i, mod=8) for i in range(3)] + [case("en.two", "h_energy", r=3, c=4, free=2, hi=31, seed=31), case("en.three", "h_energy", r=4, c=3, free=3, lo=248, seed=32)] + [case("flat.%dx%d" % (r, c), "h_energy", r=r, c=c, flat=1) for r, c in ((3, 3), (1, 4), (6, 7))]
    cs += [case("en.%dx%d" % (r, c), "h_energy", r=r, c=c, seed=r + c, steps=10**9) for r, c in ((20, 17), (260, 2), (2, 260), (70, 70))]
    cs += [case("bad%d" % w, "h_energy_bad", which=w, exit_ok=1) for w in range(3)]
    return dict(harness=["alg2.c"], level="model_checking", bounds="images up to 7x6 with one arbitrary pixel (two of 5 bits, three of 3)", outside="which inside pixel stands for positions outside the image", cases=cs)
SPECS["A07"] = a07()
def a08():
    cs = []
    for i, (s, l, b) in enumerate([(3, 2, 2), (4, 3, 2), (2, 5, 3), (1, 7, 3), (5, 1, 2), (4, 4, 3), (3, 1, 1), (6, 4, 4)]):
        for t in range(min(b, 3)): cs.append(case("pca.%dx%dx%d.%d" % (s, l, b, t), "h_pca", s=s, l=l, b=b, seed=11 * i + t + 1, turn=t, it=25 if b < 4 else 40))
    cs += [case("pca.off%d" % i, "h_pca", s=3, l=3, b=2 + i % 2, seed=70 + i, off=o) for i, o in enumerate((1000, -3000))] + [case("pca.scale%d" % k, "h_pca", s=3, l=3, b=3, seed=80 + k, scale2=k) for k in (-8, 8)]
    cs += [case("pca.20x17", "h_pca", s=20, l=17, b=2, seed=5, hi=63, steps=10**9), case("pca.260x1", "h_pca", s=260, l=1, b=3, seed=6, hi=31, steps=10**9), case("pca.1x260", "h_pca", s=1, l=260, b=2, seed=7, hi=31, steps=10**9)]
    cs += [case("bad%d" % w, "h_pca_bad", which=w, exit_ok=1) for w in range(10)]
    cs += [case("pca.deep%d" % i, "h_pca", "thorough", s=3 + i % 4, l=3 + i % 3, b=2 + i % 3, seed=200 + i, turn=i % 2, it=40, hi=255) for i in range(12)]
    return dict(harness=["alg2.c"], level="model_checking", bounds="cubes up to 20x17, 260x1 and 1x260 pixels and 1 to 4 bands with one arbitrary value, variances of the components apart by a factor of about three or more, 25 to 40 iterations, offsets up to 3000, scales 2^-8 to 2^8", outside="equal or nearly equal component variances (the QR iteration does not converge), fewer iterations", cases=cs)
SPECS["A08"] = a08()
def s01():
    cs = [case("p%d.%d" % (w, i), "h_orbit", which=w, seed=17 * w + 5 * i + 1, **{"as": a}) for w in range(17) for i, a in enumerate((26560, 7200, 42164))]
    cs += [case("plain%d" % w, "h_orbit", which=w, seed=w + 400, plain=1) for w in (0, 1, 2, 3, 4, 5, 8, 9)] + [case("circ%d" % w, "h_orbit", which=w, seed=w + 500, circ=1) for w in (3, 4, 9, 10, 13)]
    cs += [case("two%d.%d" % (w, x), "h_orbit", which=w, which2=x, seed=w * 20 + x) for w, x in ((1, 3), (3, 10), (4, 12), (5, 14), (8, 9), (9, 16), (2, 8))]
    cs += [case("deep%d.%d" % (w, i), "h_orbit", "thorough", which=w, seed=1000 + 31 * w + i, bits=10 if i % 2 else 9, **{"as": 6800 + 3300 * (i + w)}) for w in range(17) for i in range(6)]
    return dict(harness=["orbit.c"], level="model_checking", extra_src=["modules/satellite/src"], extra_inc=["modules/satellite/include"], cflags=["-mlong-double-64"], bounds="orbits of 6800 to 75000 km half axis, eccentricity up to 0.1, angles over a full turn, times within two days of the reference time; each of the 17 parameters takes 256 (thorough 512 or 1024) values in turn over its range, the others fixed at several settings", outside="long double is encoded and replayed as 64-bit double (-mlong-double-64), so the extra digits of the 80-bit format are not checked; eccentricities above 0.1", cases=cs)
SPECS["S01"] = s01()
def g01():
    cs = [case("pt.1", "h_points"), case("pt.ch3", "h_points", ch=3, r=2, c=3), case("pt.two", "h_points", n=2, r=2, c=3, out=1, shi=3), case("pt.none", "h_points", n=0), case("pt.row", "h_points", r=1, c=6), case("pt.col", "h_points", r=6, c=1, ch=3), case("pt.one", "h_points", r=1, c=1, ch=3), case("pt.big", "h_points", r=3, c=3, slo=5, shi=9, out=5), case("pt.own", "h_points", own=1, r=3, c=3, ch=3, shi=3), case("pt.ch2", "h_points", ch=2, r=2, c=2, out=1), case("pt.three", "h_points", "thorough", n=3, r=2, c=2, out=1, shi=2)]
    for sz in (0, 1, 3, 6): cs += [case("pt.any%d" % sz, "h_point_any", size=sz), case("pt.far%d" % sz, "h_point_any", size=sz, far=1)]
    cs += [case("ln.3x4", "h_line"), case("ln.ch3", "h_line", r=2, c=3, ch=3, thi=1), case("ln.4x3", "h_line", r=4, c=3, tlo=2, thi=4), case("ln.out", "h_line", r=2, c=2, out=2), case("ln.row", "h_line", r=1, c=7, thi=3), case("ln.col", "h_line", r=6, c=1, thi=3), case("ln.far", "h_line", r=1, c=2, out=4, thi=1), case("ln.own", "h_line", own=1, r=3, c=3, ch=3, thi=0), case("ln.5x5", "h_line", r=5, c=5, tlo=1, thi=1), case("pt.20x17", "h_points", r=20, c=17, ch=3, grid=4, out=5, slo=9, shi=12), case("pt.2x260", "h_points", r=2, c=260, grid=5, out=3, slo=1, shi=2), case("pt.260x2", "h_points", r=260, c=2, ch=3, grid=5, out=3, slo=5, shi=5), case("pt.many", "h_points", n=12, r=7, c=9, grid=2, slo=1, shi=1), case("ln.20x17", "h_line", r=20, c=17, grid=3, tlo=1, thi=3), case("ln.19x18.ch3", "h_line", r=19, c=18, grid=2, ch=3, out=3, tlo=2, thi=2), case("ln.2x260", "h_line", r=2, c=260, grid=1, tlo=1, thi=1), case("ln.260x2", "h_line", r=260, c=2, grid=1, tlo=2, thi=2), case("ln.6x7", "h_line", "thorough", r=6, c=7, tlo=1, thi=3), case("ln.out3", "h_line", "thorough", r=3, c=3, out=3, ch=3, tlo=0, thi=3)]
    for f in range(2): cs += [case("bad%d.%d" % (f, w), "h_draw_bad", f=f, which=w, exit_ok=1) for w in range(7)]
    return dict(harness=["draw.c"], level="model_checking", bounds="images up to 6x7, every point and end up to 3-5 pixels outside (single points: anywhere within 2*10^9), sizes and thicknesses 0-4 (points 9), up to two points (thorough three), every pixel and colour byte arbitrary", outside="segments longer than the images above", cases=cs)
SPECS["G01"] = g01()

# ---- very long dimensions (beyond 8, 15 and 16 bit counters), long paths, extreme scales ----
def more(p, cs, **kw): SPECS[p]["cases"] += cs; SPECS[p].update(kw)
B9 = 10**9
more("C04", [case("save.shape%d" % m, "h_save", "quick" if m in (20, 21) else "thorough", dt=1, il=m % 3, big=m, w0=m % 13, steps=B9) for m in (17, 18, 20, 21)] + [case("save.path%d" % p, "h_save", dt=1 + p % 4, il=p % 3, box=1, w0=1, path=p) for p in (16, 63, 130, 260)], fcap=131072)
more("C05", [case("vast%d" % i, "h_header", wl=1 if b == 1 else 0, rot=i, eq=i, s=s, l=l, b=b, dt=1, il=i % 3, steps=B9) for i, (s, l, b) in enumerate([(12345, 1, 1), (1, 12345, 1), (1, 1, 12345), (100003, 1, 1), (1, 100003, 1)])] + [case("path%d" % p, "h_header", wl=1, s=1, l=2, b=1, dt=1, path=p) for p in (16, 63, 130, 260)], fcap=131072)
more("C06", [case("write.path%d" % p, "h_bmp_write", c=2, r=1, path=p) for p in (63, 130)] + [case("read.path%d" % p, "h_bmp_read", bits=24, c=2, r=1, path=p) for p in (63, 130)])
more("C07", [case("raw.path%d" % p, "h_raw", dt=2, box=1, path=p) for p in (63, 130)] + [case("img.path%d" % p, "h_rawimg", dt=2, box=1, path=p) for p in (63, 130)] + [case("raw.shape%d" % m, "h_raw", dt=1, il=m % 3, big=m, steps=B9) for m in (20, 21, 22)] + [case("img.shape%d" % m, "h_rawimg", dt=1, big=m, steps=B9) for m in (20, 21)], fcap=131072)
more("C10", [case("hdr.vast%d" % i, "x_header", wl=1 if b == 1 else 0, rot=i, il=i % 3, s=s, l=l, b=b, dt=1, steps=B9) for i, (s, l, b) in enumerate([(12345, 1, 1), (1, 12345, 1), (1, 1, 260), (100003, 1, 1), (1, 100003, 1)])] + [case("hdr.path%d" % p, "x_header", wl=1, b=1, path=p) for p in (63, 130)] + [case("raw.path", "x_raw", dt=2, box=1, path=130)] + [case("conv.%s2%s.shape%d" % (ILN[f], ILN[t], m), "x_convert", "quick" if m in BIGQ[(f, t)] else "thorough", big=m, steps=B9, **{"from": f, "to": t, "dt": 1}) for f, t in PAIRS for m in (17, 18, 19, 20, 21, 22)] + [case("range.%s.shape%d" % (ILN[il], m), "x_range", "quick" if (m + il) % 3 == 0 else "thorough", dt=1, il=il, big=m, steps=B9) for il in range(3) for m in (17, 18, 19, 20, 21, 22)] + [case("create.shape%d" % m, "x_create", dt=1, il=m % 3, how=m % 5, big=m, steps=B9) for m in (17, 20, 21, 22)], fcap=131072)
more("P03", [case("%s.shape%d" % (n, m), "h_" + e, dt=1, big=m, steps=B9) for n, e in (("get", "band_get"), ("put", "band_put"), ("reshape", "reshape")) for m in (17, 18, 20, 21, 22)] + [case("add.%d.%dx%d" % (f, r1, c1), "h_add", f=f, ch=1, keep=6, r1=r1, c1=c1, r2=r2, c2=c2, steps=B9) for f in (0, 1) for r1, c1, r2, c2 in ((40000, 1, 39999, 2), (1, 40000, 2, 40001), (300, 2, 301, 1), (2, 300, 1, 290))])
more("P13", [case("inv%d.scale%d" % (m, k), "h_invert", m=m, nsym=1, lo=-60, hi=60, split=0, seed=m + 40, scale2=k) for m in (1, 2, 3) for k in (-30, -24, -20, 20)] + [case("mul.k%d.long%d" % (k, i), "h_mul", k=k, m=m, q=q, n=n, few=2, steps=B9) for k in range(8) for i, (m, q, n) in enumerate(((40000, 1, 1), (1, 1, 40000), (1, 40000, 1), (1, 2, 300), (300, 2, 1))) if i != 2 or k < 6] + [case("corr.k%d.long" % k, "h_mul", k=k, m=1, q=300, n=1, corr=1, few=2, steps=B9) for k in range(7)] + [case("trans.k%d.long%d" % (k, i), "h_trans", k=k, q=1, m=m, n=n, steps=B9) for k in range(8) for i, (m, n) in enumerate(((40000, 1), (1, 40000)))])
more("P14", [case("mean.k%d.long" % k, "h_mean_long", k=k, steps=B9) for k in range(8)])
more("P15", [case("sam.long%d" % i, "h_sam", s=s, l=l, b=2, seed=3 + i, every=30000, fixth=1, steps=B9) for i, (s, l) in enumerate(((40000, 1), (1, 40000)))])
LONG = ((40000, 1), (1, 40000))
def vast(p, f): more(p, [f(i, r, c) for i, (r, c) in enumerate(LONG)])
def V(n, e, i, r, c, **kw): return case("%s.vast%d" % (n, i), e, r=r, c=c, steps=B9, **kw)
def VB(p, n, e, shapes=(20, 21), **kw): more(p, [case("%s.vast%d" % (n, m), e, big=m, steps=B9, **kw) for m in shapes])
VB("P04", "transport", "h_transport_img", dt=1, ch=1); VB("P04", "flip", "h_flip", dt=1, ch=1); VB("P04", "tcube", "h_transport_cube", (20, 21, 22), dt=1)
for f in (0, 1): VB("P12", "radio%d" % f, "h_radio", (20, 22), f=f, keep=4); VB("P12", "radio%d" % f, "h_radio", (21,), f=f, keep=4, fixc=1)
for f in (0, 1): VB("P11", "expand%d" % f, "h_expand", f=f)
VB("P11", "bgr", "h_bgr")
VB("P11", "gray0", "h_gray", method=0, spots=2)
for t in range(5): VB("P10", "type%d" % t, "h_thresh", type=t, keep=4)
vast("P10", lambda i, r, c: V("otsu", "h_otsu", i, r, c, scan=1, seed=i + 5, levels=3))
for op in range(4): vast("P09", lambda i, r, c: V("op%d" % op, "h_morph", i, r if r > 1 else 3, c if c > 1 else 3, op=op, free=3, kw=1 if i == 0 else 3, kh=3 if i == 0 else 1))
for bt in (0, 2): vast("P06", lambda i, r, c: V("make%d" % bt, "h_make_border", i, r, c, bt=bt, t=1, b=1, l=1, rt=1))
vast("P07", lambda i, r, c: V("f2d", "h_filter2d", i, r, c, free=2)); vast("P07", lambda i, r, c: V("median", "h_median", i, max(r, 3), max(c, 3), free=2)); vast("P07", lambda i, r, c: V("mean", "h_mean", i, r, c, free=2, lo=3, hi=3)); vast("P07", lambda i, r, c: V("gauss", "h_gauss", i, r, c, free=2, kw=3, kh=3)); vast("P07", lambda i, r, c: V("integral", "h_integral", i, r, c, free=2))
vast("P08", lambda i, r, c: V("lap", "h_lap", i, r, c, free=2)); vast("P08", lambda i, r, c: V("sobel", "h_sobel", i, r, c, free=2))
vast("P16", lambda i, r, c: V("down", "h_pyr_down", i, max(r, 2), max(c, 2), free=2)); vast("P16", lambda i, r, c: V("up", "h_pyr_up", i, max(r, 2), max(c, 2), free=2))
vast("A01", lambda i, r, c: V("eq", "h_equalise", i, r, c, free=1, seed=i)); more("A01", [case("st.vast%d" % i, "h_stretch", s=s, l=l, b=1, seed=i, lo=900, hi=1155, steps=B9) for i, (s, l) in enumerate(LONG)])
for t in range(4): vast("A02", lambda i, r, c: V("u8.t%d" % t, "h_norm8", i, r, c, type=t, seed=i + 3, k=1, step=701, hi=15 if t == 1 else 255)); vast("A02", lambda i, r, c: V("f32.t%d" % t, "h_normf", i, r, c, type=t, seed=i + 3, k=1, lo=-20, hi=20, step=701))
vast("A03", lambda i, r, c: V("mag", "h_magnitude", i, r, c, keep=3))
vast("A07", lambda i, r, c: V("en", "h_energy", i, r, c, seed=i + 3))
for k in (1, 12): VB("C08", "var.dt%d" % k, "h_var", dt=k, spots=2)
VB("C08", "hist", "h_hist", ch=1, keep=4, skew=15); VB("C08", "contrast", "h_contrast", ch=1, keep=1)
vast("C08", lambda i, r, c: V("entropy", "h_entropy", i, r, c, ch=1, kinds=2, fixed=3, l0=9, l1=10, l2=255))
more("P10", [case("otsu.any%d" % i, "h_otsu", r=r, c=c, scan=2, bits=b, lo=lo, seed=i + 9, weight=3, steps=B9) for i, (r, c, b, lo) in enumerate(((2, 3, 5, 0), (3, 5, 5, 112), (4, 4, 5, 224)))] + [case("otsu.every%d" % i, "h_otsu", "thorough", r=r, c=c, scan=2, seed=i + 19, steps=B9) for i, (r, c) in enumerate(((2, 3), (3, 5)))])
more("A08", [case("pca.small%d.%d" % (i, k), "h_pca", s=3, l=3, b=b, seed=80 + i, scale2=k) for i, b in enumerate((2, 3)) for k in (-12, -16)])
LONGTXT = "; besides, images, cubes and matrices with one dimension of 40 000 to 66 000 (100 003 in headers) and a few arbitrary values, so that 8-, 15- and 16-bit counters are exceeded"
for _p in ("P03", "P04", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "A01", "A02", "A03", "A07", "C04", "C05", "C07", "C08", "C10"): SPECS[_p]["bounds"] += LONGTXT
for _p in ("C04", "C05", "C06", "C07", "C10"): SPECS[_p]["bounds"] += "; paths of up to 520 characters"
SPECS["P10"]["bounds"] += "; Otsu with one fully symbolic pixel over 32 (thorough 256) levels"
SPECS["P13"]["bounds"] += "; matrices scaled by 2^-30 to 2^20"
SPECS["A08"]["bounds"] += "; scales down to 2^-16"
