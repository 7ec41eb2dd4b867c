import sys, time, traceback
import build, scen, vg, safety, kbdom
fam = sys.argv[1]; var = sys.argv[2] if len(sys.argv) > 2 else None
for im in scen.impls():
    if im.family != fam and fam != 'all' or (var and im.variant != var) or im.family not in safety.DRIVES:
        continue
    mods = build.modules(im.sources, im.variant, im.driver, im.incdirs)
    T = time.time()
    n = 0
    for sc in safety.DRIVES[im.family]('quick', []):
        t = time.time()
        x = vg.Ctx(mods, dict(impl=im.name, variant=im.variant, scenario=sc.name), d=kbdom.KBDom())
        try:
            sc.fn(x)
        except Exception:
            traceback.print_exc()
        r = x.finish()
        n += 1
        dt = time.time() - t
        if r['findings'] or r['uninit'] or r['inputmods'] or r['leaks'] or r['exits'] or r['outputs'] or dt > 8:
            print('  %-40s %.2fs obl=%s find=%d uninit=%d leaks=%s exits=%d out=%d gw=%d in=%d nr=%s steps=%d' % (sc.name[:40], dt, r['obl'], len(r['findings']),
              len(r['uninit']), r['leaks'], len(r['exits']), len(r['outputs']), len(r['gwrites']), len(r['inputmods']), r['noreturn'], r['steps']))
            for m in (r['findings'] + r['uninit'] + r['inputmods'])[:3]:
                print("     ", str(m)[:400])
    print(im.key, n, 'scenarios %.1f' % (time.time() - T))
