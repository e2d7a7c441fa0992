#!/usr/bin/env python3
"""check.py PROPERTY : decide one property of /repo's current source, statically.

Lowers the translation units of the property to LLVM IR (never executed), runs
the ixa typestate dataflow engine on every root of them, maps the rule reports
to the property and writes evidence/<property>.json.
Exit 0: held on everything analysed; 1: VIOLATION; 2: the analysis is broken."""
import json, os, re, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
REPO = os.environ.get('REPO', '/repo')
EVD = os.environ.get('EVDIR', os.path.join(HERE, 'evidence'))
BUILD = os.path.join(HERE, '.build')
IXA = os.path.join(BUILD, 'ixa')


def die(msg):
    print('ANALYSIS-BROKEN:', msg)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_engine():
    r = sh(['make', '-s', '-j8', '-C', os.path.join(HERE, 'ixa'), 'OUT=' + BUILD])
    if r.returncode:
        die('engine does not build: ' + r.stderr[-2000:])


def load_known():
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', l)
                if not m:
                    die('bad known_findings line: ' + l)
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


def norm_fn(f):
    f = re.sub(r'\(.*', '', f)
    prev = None
    while prev != f:
        prev = f
        f = re.sub(r'<[^<>]*>', '', f)
    return f


def vkey(v):
    return '%s/%s@%s: %s' % (v['prop'], v['rule'], v['root'], re.sub(r'\b[\w./]+\.(h|cpp):\d+( \w+)?', 'LINE', v['message']))


def order_check(tu, es, viols):
    """latch classes must be acquired in one order; nodes of one tree either parent first or child first"""
    graph, where, rel = {}, {}, {}
    for (ab, r), ws in es.items():
        a, b = ab.split('>')
        w = sorted(ws)[0]
        if a != b:
            graph.setdefault(a, set()).add(b)
            where.setdefault((a, b), w)
        elif r in ('up', 'down'):
            rel.setdefault(a, {}).setdefault(r, w)

    def add(rule, msg, ws):
        m = re.match(r'(\S+):(\d+) (\S*)', ws[-1][0])
        v = {'prop': 'order', 'rule': rule, 'function': m.group(3), 'file': m.group(1), 'line': int(m.group(2)), 'root': ws[-1][1],
             'message': msg, 'stack': [x[0] for x in ws], 'trail': []}
        viols.setdefault(vkey(v), v)
    for a, rs in rel.items():
        if len(rs) == 2:
            add('inverted', 'latches of a node and its parent are taken in both orders (%s: child while parent held: %s; parent while child held: %s)' % (
                tu, rs['down'][0], rs['up'][0]), [rs['down'], rs['up']])
    color = {}

    def dfs(n, path):
        color[n] = 1
        for m in sorted(graph.get(n, ())):
            if color.get(m) == 1:
                cyc = (path + [n])[(path + [n]).index(m):] + [m]
                ws = [where[x] for x in zip(cyc, cyc[1:])]
                add('cycle', 'latch classes are acquired in a cycle (%s: %s)' % (tu, '; '.join(x[0] for x in ws)), ws)
            elif m not in color:
                dfs(m, path + [n])
        color[n] = 2
    for n in sorted(graph):
        if n not in color:
            dfs(n, [])


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    spec = PROPS[pid]
    t0 = time.time()
    ensure_engine()
    tmp = tempfile.mkdtemp(prefix='ixa.')
    try:
        run(pid, tier, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, spec, tmp, t0):
    budget = 780 if tier == 'quick' else 7200
    tus = sorted({r['tu'] for r in spec['runs']})

    def comp(tu):
        out = os.path.join(tmp, tu + '.bc')
        r = sh(['bash', os.path.join(HERE, 'compile.sh'), os.path.join(HERE, 'tu', tu + '.cpp'), out], env=dict(os.environ, REPO=REPO))
        if r.returncode or not os.path.exists(out):
            return tu, None, r.stderr[-3000:]
        nm = sh(['llvm-nm-18', '--defined-only', '-j', out])
        roots = [x for x in nm.stdout.split() if x.startswith('root_')]
        return tu, (out, roots), ''

    bcs = {}
    with ThreadPoolExecutor(8) as ex:
        for tu, r, err in ex.map(comp, tus):
            if r is None:
                die('translation unit %s does not compile: %s' % (tu, err))
            bcs[tu] = r
    jobs = []
    for r in spec['runs']:
        bc, roots = bcs[r['tu']]
        sel = [x for x in roots if re.fullmatch(r.get('roots', '.*'), x)]
        if not sel:
            die('no analysis root in ' + r['tu'])
        for x in sel:
            jobs.append((r, bc, x))

    known = {k[1] for k in load_known() if k[0] == pid}

    def relevant(v):
        fam = v['prop']
        return fam in spec['rules'] and (not spec['rules'][fam] or v['rule'] in spec['rules'][fam])

    def engine(r, bc, root, cfg, cap, limit):
        fd, out = tempfile.mkstemp(dir=tmp, suffix='.json')
        os.close(fd)
        cmd = [IXA, '-cap', str(cap), '-m', r['mon'], '-R', root, '-cfg', cfg or 'none', '-o', out, bc]
        try:
            p = sh(cmd, timeout=max(5, min(budget - (time.time() - t0), limit)))
        except subprocess.TimeoutExpired:
            return None, 'timeout'
        if p.returncode in (-9, 137):
            return None, 'timeout' # ended because memory ran low
        if p.returncode:
            return None, 'engine failed (%d): %s' % (p.returncode, p.stderr[-500:])
        return json.load(open(out)), ''

    def work(j):
        # Every precision setting over-approximates all paths, so a report stands only if every setting
        # that completes makes it: a coarser or differently partitioned run may not be able to exclude a path.
        r, bc, root = j
        big = tier != 'quick'
        cap = r.get('cap', 24)
        cfg = r.get('cfg', '')
        for pat, extra in r.get('root_cfg', {}).items():
            if re.search(pat, root):
                cfg = ','.join(x for x in (cfg, extra) if x)
        tried = []
        o, err = engine(r, bc, root, cfg, cap, r.get('timeout', 240) * (4 if big else 1))
        tried.append('%s cap %d' % (cfg, cap))

        def bad(o):
            return {vkey(v) for v in o['violations'] if relevant(v)} - known
        opts = set(x for x in cfg.split(',') if x)
        alts = [(opts ^ {'enum-env'}, cap), (opts ^ {'fine-mem'}, cap), (opts | {'fine-mem', 'enum-env'}, cap * 3), (opts | {'enum-env'}, 100), (opts | {'fine-mem'}, 100), (opts - {'enum-env', 'fine-mem'}, 100)]
        if 'order' in spec['rules']:
            alts = alts[:2] if o is None else []
        # thorough: always confirm with the finer settings; quick: only when something is open
        for alt, c in alts:
            if o is not None and o['roots'] and o['roots'][0]['complete'] and not bad(o):
                break
            if time.time() - t0 > budget * 0.8:
                break
            a = ','.join(sorted(alt))
            o2, err2 = engine(r, bc, root, a, c, r.get('timeout', 240) * (4 if big else 1) / 2)
            tried.append('%s cap %d' % (a, c))
            if o2 is None or not o2['roots'][0]['complete']:
                continue
            if o is None or not o['roots'][0]['complete']:
                o, err = o2, ''
                continue
            keep = bad(o) & bad(o2)
            if not keep:
                o = o2
                break
            o['violations'] = [v for v in o['violations'] if vkey(v) in keep or not relevant(v) or vkey(v) in known]
        if o is None:
            return j, None, err
        o['tried'] = tried
        return j, o, ''

    def work_thorough(j):
        j, o, err = work(j)
        if tier != 'quick' and o is not None and 'order' not in spec['rules']:
            # deeper exploration: a second, finer partition of the state space must agree
            r, bc, root = j
            o2, e2 = engine(r, bc, root, ','.join(x for x in (r.get('cfg', ''), 'fine-mem') if x), r.get('cap', 24) * 4, 1200)
            if o2 is not None and o2['roots'][0]['complete']:
                o['stats']['states'] += o2['stats']['states']
                o['tried'].append('fine-mem cap %d (confirming run)' % (r.get('cap', 24) * 4))
        return j, o, err

    viols, roots, inst, fns, opaque, stats, incomplete = {}, [], {}, set(), set(), {}, []
    edges = {}
    with ThreadPoolExecutor(8) as ex:
        for (r, bc, root), o, err in ex.map(work_thorough, jobs):
            if o is None:
                if err == 'timeout':
                    incomplete.append(root + ' (' + err + ')')
                    continue
                die('%s: %s' % (root, err))
            for x in o['roots']:
                x['settings'] = o['tried']
                roots.append(x)
                if x['complete'] and not x['returns'] and not any(v['prop'] in spec['rules'] for v in o['violations']):
                    die('%s: no path reaches a return, so nothing was decided' % x['root'])
                if not x['complete']:
                    incomplete.append(x['root'])
            for x in o['instances'].get('order-edge', []):
                edges.setdefault(r['tu'], {}).setdefault(tuple(x.split('|', 2)[:2]), set()).add((x.split('|', 2)[2], root))
            for k, v in o['instances'].items():
                if k in spec['rules']:
                    inst.setdefault(k, set()).update(v)
            fns.update(o['functions'])
            opaque.update(o['opaque'])
            for k, v in o['stats'].items():
                stats[k] = max(stats.get(k, 0), v) if k.startswith('max') else stats.get(k, 0) + v
            for v in o['violations']:
                fam = v['prop']
                if fam not in spec['rules']:
                    continue
                only = spec['rules'][fam]
                if only and v['rule'] not in only:
                    continue
                viols.setdefault(vkey(v), v)
    if 'order' in spec['rules']:
        for tu, es in edges.items():
            order_check(tu, es, viols)
    for fam in spec['rules']:
        if not inst.get(fam):
            die('rule family %s of %s matched no construct in the analysed source' % (fam, pid))
    if not roots:
        die('no root was analysed to the end')
    known = [k for k in load_known() if k[0] == pid]
    bad, shown = [], set()
    for k, v in sorted(viols.items()):
        f = [x for x in known if x[1] == k]
        if f:
            shown.add(f[0])
        else:
            bad.append((k, v))
    for _, k, what in sorted(shown):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, what, k))
    for _, k, what in known:
        if not any(s[1] == k for s in shown):
            print('note: known finding no longer reported: ' + k)
    n_inst = sum(len(x) for x in inst.values())
    print('%s: %d roots, %d functions, %d rule instances, %d abstract states, %d join(s), %d loop fixpoint(s)%s' % (
        pid, len(roots), len(fns), n_inst, stats.get('states', 0), stats.get('joins', 0), stats.get('loops', 0),
        '; INCOMPLETE: ' + ', '.join(incomplete) if incomplete else ''))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': spec['explain'],
            'rule': spec['rule_text'],
            'roots_analysed': [{k: r[k] for k in ('root', 'states', 'complete', 'returns', 'seconds', 'settings')} for r in roots],
            'incomplete_roots': incomplete,
            'functions_analysed': len(fns),
            'repo_functions': sorted(f for f in {norm_fn(x) for x in fns} if re.search(r'indexes::|ycsb|utils::|Generator|art::|btree::', f))[:400],
            'rule_instances': {k: len(v) for k, v in inst.items()},
            'samples': sorted(x for v in inst.values() for x in v)[:40],
            'states': stats.get('states', 0), 'joins': stats.get('joins', 0), 'loop_fixpoints': stats.get('loops', 0),
            'widenings': stats.get('widenings', 0), 'max_states_at_one_point': stats.get('max_states_at_point', 0),
            'not_inlined': sorted(opaque)[:80],
            'known_findings_seen': len(shown),
        },
        'assumptions': spec['assumptions'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    os.makedirs(EVD, exist_ok=True)
    json.dump(ev, open(os.path.join(EVD, pid + '.json'), 'w'), indent=1)
    if bad:
        rp = os.path.join(EVD, pid + '.replay.txt')
        with open(rp, 'w') as f:
            for k, v in bad:
                f.write('%s\n  %s:%s in %s\n  rule %s/%s, root %s\n  %s\n' % (k, v['file'], v['line'], v['function'], v['prop'], v['rule'], v['root'], v['message']))
                f.write('  call chain:\n' + ''.join('    %s\n' % x for x in v['stack']))
                f.write('  decisions on the path:\n' + ''.join('    %s\n' % x for x in v['trail']) + '\n')
        for k, v in bad:
            print('  %s:%s: [%s/%s] %s (in %s, root %s)' % (v['file'], v['line'], v['prop'], v['rule'], v['message'], norm_fn(v['function']), v['root']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


main()
