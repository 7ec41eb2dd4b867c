"""Runs the analyses that decide one property and writes its evidence."""
import gc
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
import build
import harvest
import kbdom
import large
import more
import pair
import safety
import scen
import vg
from absint import Unsupported, TooMany, Dead

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = {}
CONSTS = {}
MAXSAMPLES = 6


class Job:
    def __init__(self, kind, impl, sc, impls=None):
        self.kind = kind        # vg | kb | pair | fn
        self.impl = impl
        self.sc = sc
        self.impls = impls


def ikey(im):
    return (im.family, im.name, im.variant)


def load(impls):
    todo = {}
    for im in impls:
        if ikey(im) not in MODS and ikey(im) not in todo:
            todo[ikey(im)] = im

    def go(im):
        try:
            return build.modules(im.sources, im.variant, im.driver, im.incdirs)
        except build.BuildError as e:
            return e
    with ThreadPoolExecutor(8) as ex:
        for k, r in zip(todo, ex.map(go, todo.values())):
            MODS[k] = r
            CONSTS[k] = harvest.consts(r) if type(r) is list else []
    return [(im, MODS[ikey(im)]) for im in impls]


def blank(info):
    return dict(info=info, obl={}, mism=[], uninit=[], inputmods=[], noreturn=[], incomplete=None, samples=[], findings=[], leaks=[], maybe_leaks=[],
                outputs=[], exits=[], asm=[], gwrites=[], counts={}, funcs={}, calls=0, steps=0, joins=0, atoms=0, forms=0, buffers=0, entries=[], nin=0, nheap=0,
                notes=[], known=[], loc='?')


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def guard(x, fn):
    """run fn; -> reason when the analysis could not be completed"""
    try:
        fn()
    except TooMany as e:
        return 'memory errors: %s' % e
    except Dead:
        x.noreturn.append('?')
    except Unsupported as e:
        return '%s (near %s)' % (e, x.it.loc)
    except Timeout:
        return 'analysis time limit (near %s)' % x.it.loc
    except RecursionError:
        return 'recursion limit (near %s)' % x.it.loc
    except MemoryError:
        return 'analysis memory limit'
    except Exception as e:
        return 'internal error %s: %s (near %s)\n%s' % (type(e).__name__, e, x.it.loc, traceback.format_exc()[-1500:])
    return None


def run_job(args):
    job, limit = args
    gc.disable()
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    out = []
    try:
        if job.kind in ('vg', 'kb'):
            im = job.impl
            info = dict(impl=im.name, variant=im.variant, scenario=job.sc.name, rounds=6 if im.variant == 'rounds6' else 10, kind=job.kind)
            kw = dict(job.sc.ctx)
            if 'd' in kw:
                kw['d'] = kw['d']()
            if job.kind == 'kb':
                kw['d'] = kbdom.KBDom()
            x = vg.Ctx(MODS[ikey(im)], info, **kw)
            if job.sc.soft:
                x.W0 = 256
            inc = guard(x, lambda: job.sc.fn(x))
            if job.sc.soft and inc and not x.mism and inc.split(' (')[0] not in ('analysis time limit', 'analysis memory limit'):
                # loops that settle late need a longer run before they can be extrapolated
                kw = dict(job.sc.ctx)
                if 'd' in kw:
                    kw['d'] = kw['d']()
                y = vg.Ctx(MODS[ikey(im)], info, **kw)
                y.W0 = 1280
                x.it = x.d = None
                gc.collect()
                inc = guard(y, lambda: job.sc.fn(y))
                x = y
            r = x.finish() if inc is None or x.it.findings or x.mism else blank(info)
            r['incomplete'] = inc
            r['loc'] = x.it.loc
            if job.kind == 'kb' and (r['findings'] or r['uninit'] or r['inputmods'] or r['incomplete']):
                # decide again with the relational domain
                info = dict(info, kind='kb+vg')
                kw = dict(job.sc.ctx)
                if 'd' in kw:
                    kw['d'] = kw['d']()
                y = vg.Ctx(MODS[ikey(im)], info, **kw)
                inc = guard(y, lambda: job.sc.fn(y))
                if inc is None or y.it.findings:
                    try:
                        r2 = y.finish()
                    except Exception:
                        r2 = None
                else:
                    r2 = None
                if r2 is not None:
                    r2['incomplete'] = inc
                    r2['loc'] = y.it.loc
                    r2['notes'].append('coarse analysis raised %d possible facts; decided again with the value graph' % (len(r['findings']) + len(r['uninit']) + len(r['inputmods'])))
                    r2['funcs'].update(r['funcs'])
                    r = r2
                elif r['incomplete'] is None:
                    r['incomplete'] = 'not decided by the coarse analysis; value graph: %s' % inc
                    r['findings'] = []
                    r['uninit'] = []
                    r['inputmods'] = []
            if job.sc.soft:
                r['soft'] = True
                if inc and not r['mism']:
                    # no conclusion beyond the reach of the extrapolation
                    r['notes'].append('not decided: %s [%s] %s: %s' % (im.name, im.variant, job.sc.name, inc[:160]))
                    r['undecided'] = True
                    r['incomplete'] = None
                    r['noreturn'] = []
                    r['findings'] = [f for f in r['findings'] if f['kind'] == 'stack-exhaustion']
                    r['exits'] = []
                    r['obl'] = {}
            out.append(r)
        elif job.kind == 'pair':
            def mk(mods, key, d):
                return vg.Ctx(mods, dict(impl=key[1], variant=key[2], scenario='', kind='pair'), d=d)
            cur = []

            def mk2(mods, key, d):
                c = mk(mods, key, d)
                cur.append(c)
                return c
            ims = [(ikey(i), MODS[ikey(i)]) for i in job.impls]
            res = []
            inc = None
            try:
                res = pair.run(ims, job.impl.family, job.sc.ctx['shapes'], mk2)
            except (Unsupported, Timeout, Dead, RecursionError) as e:
                inc = '%s %s (near %s)' % (type(e).__name__, e, cur[-1].it.loc if cur else '?')
            for x, sh, key, bad, n in res:
                x.info['scenario'] = 'shape %s' % (sh,)
                r = blank(x.info)
                r.update(obl={'C26': n}, mism=bad[:6], funcs=dict(x.it.funcs_seen), calls=x.it.calls_seen, steps=x.it.steps, atoms=len(x.d.atoms),
                         entries=list(x.calls), noreturn=x.noreturn)
                if n and not bad:
                    r['samples'] = ['%s %s: %d output values identical to the reference implementation' % (key[1:], sh, n)]
                out.append(r)
            if inc:
                r = blank(dict(impl=job.impl.family, variant='', scenario=str(job.sc.name), kind='pair'))
                r['incomplete'] = inc
                out.append(r)
        else:
            out = job.sc.fn()
    except Timeout:
        r = blank(dict(impl=job.impl.name if job.impl else '', variant='', scenario=job.sc.name, kind=job.kind))
        r['incomplete'] = 'analysis time limit'
        out = [r]
    finally:
        signal.alarm(0)
    for r in out:
        r['wall'] = time.time() - t
    return out


def functional_jobs(prop, tier):
    jobs = []
    errs = []
    ims = scen.impls()
    want = []

    def gen(im, consts):
        return im.gen(tier, consts) + more.gen(im, tier) + large.gen(im, tier)
    for im in ims:
        if any(prop in sc.props for sc in gen(im, [])):
            want.append(im)
    for im, mods in load(want):
        if type(mods) is not list:
            if all(sc.optional for sc in im.gen(tier, [])):
                continue
            errs.append(str(mods))
            continue
        for sc in gen(im, CONSTS[ikey(im)]):
            if prop in sc.props and (tier != 'quick' or sc.quick):
                jobs.append(Job('vg', im, sc))
    return jobs, errs


def safety_jobs(tier):
    jobs = []
    errs = []
    want = [im for im in scen.impls() if im.family in safety.DRIVES]
    for im, mods in load(want):
        if type(mods) is not list:
            errs.append(str(mods))
            continue
        for sc in safety.DRIVES[im.family](tier, CONSTS[ikey(im)]):
            jobs.append(Job('kb', im, sc))
    # the GMP modules: typestate of numbers and random states, in the term domain
    for im, mods in load([im for im in scen.impls() if im.family in ('jl', 'lhe')]):
        if type(mods) is not list:
            errs.append(str(mods))
            continue
        for sc in im.gen(tier, []):
            if tier != 'quick' or sc.quick:
                jobs.append(Job('vg', im, sc))
    return jobs, errs


def pair_jobs(tier):
    jobs = []
    errs = []
    sh = pair.shapes(tier)
    want = [im for im in scen.impls() if im.family in sh and im.variant not in pair.SKIP]
    groups = {}
    for im, mods in load(want):
        if type(mods) is not list:
            errs.append(str(mods))
            continue
        groups.setdefault(im.family, []).append(im)
    for fam, l in groups.items():
        ss = sh[fam][1]
        n = pair.STEP[fam]
        for i in range(0, len(ss), n):
            g = ss[i:i + n]
            jobs.append(Job('pair', l[0], scen.Sc('%s shapes %s' % (fam, g), ['C26'], None, cost=5, shapes=g), l))
    return jobs, errs


def known_findings():
    """lines 'KNOWN property=<id> id=<finding id> : text' of known-findings.txt"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in open(p):
        if l.startswith('KNOWN '):
            w = dict(t.split('=', 1) for t in l.split(' : ')[0].split()[1:])
            out[(w['property'], w['id'])] = l.split(' : ', 1)[1].strip()
    return out


def short(s, n=400):
    s = str(s)
    return s if len(s) <= n else s[:n] + '...'


CROSS = {
    'C20': 'memory', 'C21': 'uninit', 'C22': 'inputs', 'C24': 'heap', 'C25': 'silence', 'C31': 'static', 'C33': 'alignment',
}
MEMKINDS = ('oob-read', 'oob-write', 'null-deref', 'use-after-free', 'use-after-return', 'double-free', 'bad-free', 'const-write', 'bad-alloc',
            'shift-ub', 'div-zero', 'mismatched-free', 'signed-overflow', 'stack-exhaustion')


def judge(prop, r):
    """violations (dicts with what, loc) of prop in one analysis result"""
    v = []
    where = '%s [%s] %s' % (r['info'].get('impl'), r['info'].get('variant'), r['info'].get('scenario'))
    if prop in CROSS:
        if prop == 'C20':
            for f in r['findings']:
                if f['kind'] in MEMKINDS:
                    v.append(dict(what='%s: %s' % (f['kind'], f['msg']), loc=f['loc'], func=f['func'], where=where))
        elif prop == 'C21':
            for u in r['uninit']:
                v.append(dict(what='%s: byte %d derives from memory that was never written (%s)' % (u['what'], u['cell'], u['leaf']), loc=u['loc'], func='', where=where))
            for f in r['findings']:
                if f['kind'] in ('uninit-branch', 'uninit-mpz'):
                    v.append(dict(what='%s: %s' % (f['kind'], f['msg']), loc=f['loc'], func=f['func'], where=where))
        elif prop == 'C22':
            for u in r['inputmods']:
                v.append(dict(what='the caller\'s input buffer %s (byte %d) is modified' % (u['buf'], u['cell']), loc=u['loc'], func='', where=where))
        elif prop == 'C24':
            for l in r['leaks'] + r['maybe_leaks']:
                v.append(dict(what='heap block %s is not released when the call returns' % l, loc=l.split('@')[-1], func='', where=where))
            for f in r['findings']:
                if f['kind'] in ('double-free', 'bad-free', 'mismatched-free', 'use-after-free'):
                    v.append(dict(what='%s: %s' % (f['kind'], f['msg']), loc=f['loc'], func=f['func'], where=where))
        elif prop == 'C31':
            for n, loc, fn in r['gwrites']:
                v.append(dict(what='static memory %s is changed without synchronisation and read again by calls of the library' % n.lstrip('@'), loc=loc, func=fn, where=where))
        elif prop == 'C33':
            for f in r['findings']:
                if f['kind'] == 'misaligned':
                    v.append(dict(what='%s: %s' % (f['kind'], f['msg']), loc=f['loc'], func=f['func'], where=where))
        elif prop == 'C25':
            for loc, fn, det, sec in r['outputs']:
                v.append(dict(what='output through %s' % det, loc=loc, func=fn, where=where))
    else:
        for m in r['mism']:
            if prop in m['tag'].split('+'):
                v.append(dict(what='%s: byte %s of %s is computed as { %s }, the specification gives { %s }' % (m['what'], m['cell'], m['buf'], short(m['got'], 200), short(m['want'], 200)),
                              loc=m['loc'], func='', where=where))
        if prop in ('C14', 'C18'):
            for u in r['inputmods']:
                v.append(dict(what='the input %s (byte %d) is modified' % (u['buf'], u['cell']), loc=u['loc'], func='', where=where))
        for n in r['noreturn']:
            v.append(dict(what='%s does not return' % n, loc=r['loc'], func=n, where=where))
        for loc, fn, det in r['exits']:
            v.append(dict(what='a path of the call ends the program (%s)' % short(det, 60), loc=loc, func=fn, where=where))
        for f in r['findings']:
            if f['kind'] == 'stack-exhaustion':
                v.append(dict(what='%s: %s' % (f['kind'], f['msg']), loc=f['loc'], func=f['func'], where=where))
        if r['incomplete'] and r['findings']:
            f = r['findings'][0]
            v.append(dict(what='the call cannot produce its result: %s: %s' % (f['kind'], f['msg']), loc=f['loc'], func=f['func'], where=where))
    return v


def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import registry
    spec = registry.PROPS[prop]
    jobs, errs = spec['jobs'](tier)
    if errs:
        print('ERROR: the sources cannot be analysed')
        for e in errs[:3]:
            print(e[:2000])
        return 2
    jobs.sort(key=lambda j: -j.sc.cost)
    limit = 800 if tier == 'quick' else 7200
    results = []
    only = os.environ.get('VERIF_ONLY')
    if only:
        jobs = [j for j in jobs if only in j.sc.name or (j.impl and only in j.impl.key)]
    gc.freeze()
    for job, rs in run_all(jobs, limit):
        results += rs
        if os.environ.get('VERIF_PROGRESS'):
            for r in rs:
                print('  %.1fs %s [%s] %s obl=%s bad=%d inc=%s' % (r['wall'], r['info'].get('impl'), r['info'].get('variant'), r['info'].get('scenario'), r['obl'], len(judge(prop, r)), r['incomplete']), flush=True)
    return report(prop, tier, spec, results, t0)


def run_all(jobs, limit, width=8):
    """one forked process per job, `width` at a time; yields (job, results)"""
    todo = list(jobs)
    again = []
    retried = set()
    running = {}
    tmp = tempfile.mkdtemp(prefix='vgjobs')
    n = 0
    try:
        while todo or running or again:
            if not todo and not running:
                # jobs killed for want of memory get the machine for themselves
                todo.append(again.pop())
            while todo and len(running) < width:
                job = todo.pop(0)
                n += 1
                path = os.path.join(tmp, str(n))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        lim = (3 if job.sc.soft else 12) << 30
                        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                        rs = run_job((job, min(limit, 500) if job.sc.soft and limit < 1000 else limit))
                        with open(path, 'wb') as f:
                            pickle.dump(rs, f)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(code)
                running[pid] = (job, path)
            pid, st = os.wait()
            if pid not in running:
                continue
            job, path = running.pop(pid)
            if st == 0:
                with open(path, 'rb') as f:
                    rs = pickle.load(f)
                os.unlink(path)
            elif st == signal.SIGKILL and not job.sc.soft and id(job) not in retried:
                retried.add(id(job))
                again.append(job)
                continue
            else:
                r = blank(dict(impl=job.impl.name if job.impl else '', variant=job.impl.variant if job.impl else '', scenario=job.sc.name, kind=job.kind))
                if job.sc.soft:
                    r['soft'] = True
                    r['undecided'] = 'the analysis process died (status %d)' % st
                    r['notes'] = ['%s [%s] %s undecided: out of memory' % (r['info']['impl'], r['info']['variant'], r['info']['scenario'])]
                else:
                    r['incomplete'] = 'the analysis process died (status %d)' % st
                r['wall'] = 0
                rs = [r]
            yield job, rs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, tier, spec, results, t0):
    viol = []
    known = {}
    incomplete = []
    obl = 0
    kf = known_findings()
    for r in results:
        vs = judge(prop, r)
        viol += vs
        for k in r['known']:
            if k['prop'] == prop:
                if (prop, k['id']) in kf:
                    known.setdefault(k['id'], k['what'])
                else:
                    viol.append(dict(what=k['what'], loc='', func='', where=str(r['info'])))
        if r['incomplete'] and not vs:
            incomplete.append('%s: %s' % (r['info'], r['incomplete']))
        if prop in CROSS:
            c = r.get('counts') or {}
            if prop == 'C20':
                obl += c.get('loads', 0) + c.get('stores', 0) + 2 * c.get('copies', 0)
            elif prop == 'C21':
                obl += r['obl'].get('defined', 0) + r['joins']
            elif prop == 'C22':
                obl += r['nin']
            elif prop == 'C24':
                obl += r['nheap'] + r.get('nmpz', 0)
            elif prop == 'C31':
                obl += c.get('stores', 0) + c.get('copies', 0)
            elif prop == 'C33':
                obl += c.get('vector accesses', 0)
            else:
                obl += c.get('externals', 0)
        else:
            obl += r['obl'].get(prop, 0)
    funcs = {}
    for r in results:
        for f, n in r['funcs'].items():
            k = (r['info'].get('impl'), r['info'].get('variant'), f)
            funcs[k] = funcs.get(k, 0) + n
    samples = []
    for r in results:
        for s in r['samples']:
            if len(samples) < MAXSAMPLES:
                samples.append('%s [%s] %s: %s' % (r['info'].get('impl'), r['info'].get('variant'), r['info'].get('scenario'), short(s, 300)))
    if not samples:
        samples = ['%s [%s] %s: %d calls, %d buffers, %d instructions interpreted abstractly' % (r['info'].get('impl'), r['info'].get('variant'), r['info'].get('scenario'), r['calls'], r['buffers'], r['steps'])
                   for r in results[:MAXSAMPLES]]
    progs = sorted(set('%s [%s]' % (r['info'].get('impl'), r['info'].get('variant')) for r in results))
    cov = dict(
        rule=spec['rule'],
        implementations=progs,
        scenarios=len(results),
        huge_message_scenarios=sum(1 for r in results if r.get('soft') and not r.get('undecided')),
        huge_message_scenarios_undecided=sum(1 for r in results if r.get('undecided')),
        functions_analysed=len(funcs),
        calls_analysed=sum(r['calls'] for r in results),
        instructions_interpreted=sum(r['steps'] for r in results),
        symbolic_joins=sum(r['joins'] for r in results),
        buffers_tracked=sum(r['buffers'] for r in results),
        value_graph_atoms=sum(r['atoms'] for r in results),
        samples=samples,
        violations_found=len(viol),
        known_findings=sorted(known),
        incomplete=incomplete[:10],
        notes=sorted(set(n for r in results for n in r['notes']))[:10],
    )
    for r in results:
        for k, n in r.get('cov', {}).items():
            if isinstance(n, list):
                cov[k] = (cov.get(k, []) + n)[:60]
            else:
                cov[k] = cov.get(k, 0) + n
    level = spec['level']
    if level == 'translation_validation':
        cov['programs'] = len(results)
        cov['disagreements_checked'] = obl
    else:
        cov['obligations_checked'] = obl
        cov['explanation'] = spec['rule']
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=spec['assumptions'], wall_s=round(time.time() - t0, 2), violations=len(viol))
    ed = os.path.join(VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, w in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, w))
    if viol:
        rp = os.path.join('evidence', 'replay-%s.json' % prop)
        uniq = {}
        for v in viol:
            uniq.setdefault((v['loc'], v['what'].split(':')[0]), v)
        with open(os.path.join(VERIF, rp), 'w') as f:
            json.dump(dict(property=prop, tier=tier, violations=list(uniq.values())[:50],
                           reproduce='cd /verif && VERIF_PROGRESS=1 python3 check.py %s %s' % (prop, tier)), f, indent=1)
        for v in list(uniq.values())[:8]:
            print('  %s: %s  (%s)' % (v['loc'], short(v['what'], 500), short(v['where'], 160)))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if incomplete:
        print('NO ANSWER property=%s: %d analyses could not be completed' % (prop, len(incomplete)))
        for i in incomplete[:5]:
            print('  ' + short(i, 700))
        return 2
    if not obl and prop != 'NONE':
        print('NO ANSWER property=%s: nothing was analysed' % prop)
        return 2
    print('OK property=%s tier=%s: %d obligations over %d scenarios, %d functions, %.1f s' % (prop, tier, obl, len(results), len(funcs), time.time() - t0))
    return 0
