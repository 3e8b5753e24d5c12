#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property of /repo from its current source.

exit 0: no violation; exit 1: VIOLATION lines.  Writes evidence/<property>.json."""
import sys, os, json, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

def known():
    """open findings: (property, key)"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p):
        if l.startswith('finding:'):
            f = dict(x.split('=', 1) for x in l.split()[1:3])
            out.append((f['property'], f['key'], l.strip()))
    return out

def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    from analysis import registry
    res = registry.run(prop, tier, seed)
    opened = [k for k in known() if k[0] == prop]
    viol, hit = [], set()
    for f in res['findings']:
        k = next((k for k in opened if k[1] == f.get('key')), None)
        if k:
            hit.add(k)
        else:
            viol.append(f)
    for k in sorted(hit):
        print(f'KNOWN-FINDING: property={prop} {k[2]}')
    EV = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    seen = set()
    groups = {}
    for f in viol:
        groups.setdefault((f['site'], f.get('rule', '')), []).append(f)
    for (site, rule), fs in list(groups.items())[:12]:
        name = f'{prop}-{hashlib.sha1((site + rule).encode()).hexdigest()[:8]}.txt'
        path = os.path.join('evidence', 'replay', name)
        with open(os.path.join(EV, 'replay', name), 'w') as o:
            o.write(f'property {prop}\nconstruct {site}\nrule {rule}\nreproduce: cd /verif && python3 check.py {prop}{" --thorough" if tier == "thorough" else ""}\n\n')
            for f in fs[:20]:
                o.write(f"- {f.get('config', '')} {('size ' + str(f['size'])) if 'size' in f else ''}: {f['text']}\n")
        print(f'{site}: {fs[0]["text"]}')
        print(f'VIOLATION property={prop} replay={path}')
    ev = dict(property=prop, tier=tier, seed=seed, level=res['level'], coverage=res['coverage'], assumptions=res.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(EV, prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1, default=str)
        o.write('\n')
    print(f'{prop} {tier}: {len(viol)} violations, {ev["wall_s"]} s')
    return 1 if viol else 0

if __name__ == '__main__':
    sys.exit(main())
