import sys, time, traceback
import build, scen, vg
fam, var, pat = sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else ''
tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
for im in scen.impls():
    if im.family != fam or im.variant != var:
        continue
    t = time.time()
    mods = build.modules(im.sources, im.variant, im.driver, im.incdirs)
    print(im.key, 'build %.1f' % (time.time() - t))
    for sc in im.gen(tier, []):
        if pat and pat not in sc.name:
            continue
        t = time.time()
        kw = dict(sc.ctx)
        if 'd' in kw:
            kw['d'] = kw['d']()
        x = vg.Ctx(mods, dict(impl=im.name, variant=im.variant, scenario=sc.name, rounds=6 if im.variant == 'rounds6' else 10), **kw)
        try:
            sc.fn(x)
        except Exception:
            traceback.print_exc()
        r = x.finish()
        print('  %-40s %.2fs obl=%s mism=%d find=%d uninit=%d leaks=%s exits=%d out=%d gw=%d in=%d nr=%s known=%d atoms=%d steps=%d' % (sc.name[:40], time.time() - t, r['obl'], len(r['mism']), len(r['findings']),
              len(r['uninit']), r['leaks'], len(r['exits']), len(r['outputs']), len(r['gwrites']), len(r['inputmods']), r['noreturn'], len(r['known']), r['atoms'], r['steps']))
        for m in r["mism"][:1]:
            print("     ", str(m)[:400])
        for m in r['findings'][:3]:
            print("     ", str(m)[:400])
