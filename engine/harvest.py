"""Integer constants that the analysed code compares, divides, masks or switches on: candidate length thresholds."""


def consts(mods, cap=70000):
    out = set()
    for m in mods[1:]:
        for name in list(m.funcs):
            f = m.func(name)
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == 'icmp':
                        w = i.ty[1] if i.ty[0] == 'i' else 0
                        vs = [x[1] for x in i.a[1:3] if x[0] == 'c']
                    elif i.op in ('urem', 'udiv', 'srem', 'sdiv'):
                        w = i.ty[1] if i.ty[0] == 'i' else 0
                        vs = [x[1] for x in i.a[1:2] if x[0] == 'c']
                    elif i.op == 'and':
                        w = i.ty[1] if i.ty[0] == 'i' else 0
                        vs = [x[1] + 1 for x in i.a[1:2] if x[0] == 'c' and x[1] & (x[1] + 1) == 0]
                    elif i.op == 'switch':
                        w = i.ty[1]
                        vs = [c for c, l in i.a[2]]
                    else:
                        continue
                    if not w:
                        continue
                    for v in vs:
                        if v >> (w - 1):
                            v = (1 << w) - v
                        if 0 < v <= cap:
                            out.add(v)
    return sorted(out)
