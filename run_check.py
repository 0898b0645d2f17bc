#!/usr/bin/env python3
"""Build and run one check:  run_check.py <ID> [--replay FILE | --gen-deps]
   run_check.py --setup        (verifies the toolchain; checks build what they need themselves)
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Other: error of the check."""
import fcntl, glob, json, os, re, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))
EV = os.environ.get('VERIF_EVIDENCE', os.path.join(V, 'evidence'))
H = os.path.join(V, 'harness')
BASE = '-O1 -g0 -w -pipe -fno-strict-aliasing'

def opts(hid):
    o = dict(san='', std='gnu++14', extra='', level=None)
    for l in open(os.path.join(H, hid + '.cpp')):
        m = re.match(r'//\s*MC-(\w+):\s*(.*)', l)
        if m: o[m.group(1).lower()] = m.group(2).strip()
    return o

def variant_flags(san):
    f = BASE
    if 'assert' in san: f += ' -D_GLIBCXX_ASSERTIONS'
    if 'asan' in san: f += ' -fsanitize=address -fno-omit-frame-pointer'
    if 'bounds' in san: f += ' -fsanitize=bounds,null,shift-exponent,integer-divide-by-zero -fno-sanitize-recover=all'
    return f

def lib_sources():
    s = []
    for root in ('core/lib', 'ext/lib'):
        for d, _, fs in os.walk(os.path.join(R, root)):
            s += [os.path.join(d, f) for f in fs if f.endswith(('.cpp', '.c'))]
    return sorted(s)

def inc_dirs():
    s = set()
    for root in ('core/lib', 'ext/lib'):
        for d, _, fs in os.walk(os.path.join(R, root)):
            if any(f.endswith(('.hpp', '.h')) for f in fs): s.add(d)
    return sorted(s)

def objname(src): return os.path.relpath(src, R).replace('/', '__') + '.o'

def write_ninja(san, hid, deps):
    var = re.sub(r'\W+', '_', san) or 'plain'
    bd = os.path.join(B, var); os.makedirs(bd, exist_ok=True)
    gen = os.path.join(bd, 'gen'); os.makedirs(gen, exist_ok=True)
    bc = os.path.join(gen, 'build_config.h')
    txt = '#ifndef GPSTK_BUILD_CONFIG_H\n#define GPSTK_BUILD_CONFIG_H\n#endif\n'
    if not os.path.exists(bc): open(bc, 'w').write(txt)
    inc = '-I%s -I%s ' % (gen, H) + ' '.join('-I' + d for d in inc_dirs())
    fl = variant_flags(san); o = opts(hid)
    srcs = lib_sources()
    L = ['rule cxx', ' command = g++ -std=c++11 %s %s -MD -MF $out.d -c $in -o $out' % (fl, inc), ' depfile = $out.d', ' deps = gcc',
         'rule cc', ' command = gcc %s %s -MD -MF $out.d -c $in -o $out' % (fl, inc), ' depfile = $out.d', ' deps = gcc',
         'rule hx', ' command = g++ -std=%s %s %s %s -MD -MF $out.d -c $in -o $out' % (o['std'], fl, o['extra'], inc), ' depfile = $out.d', ' deps = gcc',
         'rule ar', ' command = rm -f $out && ar crs $out @$out.rsp', ' rspfile = $out.rsp', ' rspfile_content = $in',
         'rule ln', ' command = g++ %s -o $out @$out.rsp' % fl, ' rspfile = $out.rsp', ' rspfile_content = $in']
    for s in srcs:
        L.append('build %s/%s: %s %s' % (bd, objname(s), 'cc' if s.endswith('.c') else 'cxx', s))
    L.append('build %s/libfull.a: ar %s' % (bd, ' '.join('%s/%s' % (bd, objname(s)) for s in srcs)))
    L.append('build %s/%s.o: hx %s/%s.cpp' % (bd, hid, H, hid))
    L.append('build %s/%s.full: ln %s/%s.o %s/libfull.a' % (bd, hid, bd, hid, bd))
    if deps:
        have = set(os.path.relpath(s, R) for s in srcs)
        d = [x for x in deps if x in have]
        L.append('build %s/%s.min: ln %s/%s.o %s' % (bd, hid, bd, hid, ' '.join('%s/%s' % (bd, objname(os.path.join(R, s))) for s in d)))
    nf = os.path.join(bd, hid + '.ninja')
    body = 'builddir = %s/nj_%s\n' % (bd, hid) + '\n'.join(L) + '\n'
    if not os.path.exists(nf) or open(nf).read() != body: open(nf, 'w').write(body)
    return nf, bd

def load_deps():
    p = os.path.join(H, 'deps.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def ninja(nf, target):
    p = subprocess.run(['ninja', '-f', nf, '-j8', target], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout

def build(hid, full=False):
    o = opts(hid); deps = load_deps().get(hid)
    os.makedirs(B, exist_ok=True)
    nf, bd = write_ninja(o['san'], hid, deps)
    with open(os.path.join(bd, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if deps and not full:
            rc, out = ninja(nf, '%s/%s.min' % (bd, hid))
            if rc == 0: return '%s/%s.min' % (bd, hid), bd
        rc, out = ninja(nf, '%s/%s.full' % (bd, hid))
        if rc == 0: return '%s/%s.full' % (bd, hid), bd
    sys.stderr.write('\n'.join(l[:400] for l in out.splitlines() if re.search(r'error|undefined', l))[:4000] + '\n')
    print('ERROR: build of check %s failed' % hid); sys.exit(2)

def gen_deps(hid):
    exe, bd = build(hid, full=True)
    def syms(f):
        d, u = set(), set()
        for l in subprocess.run(['nm', '-P', f], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            q = l.split()
            if len(q) < 2: continue
            if q[1] == 'U': u.add(q[0])
            elif q[1] in 'TDBRVWCuGS': d.add((q[0], q[1]))
        return d, u
    prov = {}; und = {}
    for s in lib_sources():
        f = '%s/%s' % (bd, objname(s)); d, u = syms(f); und[s] = u
        for n, t in d:
            strong = t in 'TDBRGC'
            if strong or n not in prov:
                if strong or n not in prov: prov[n] = (s, strong) if (n not in prov or not prov[n][1]) else prov[n]
    d, u = syms('%s/%s.o' % (bd, hid))
    need, todo = set(), [n for n in u]
    seen = set(todo); hd = set(n for n, t in d)
    while todo:
        n = todo.pop()
        if n in prov and n not in hd:
            s = prov[n][0]
            if s not in need:
                need.add(s)
                for m in und[s]:
                    if m not in seen: seen.add(m); todo.append(m)
    D = load_deps(); D[hid] = sorted(os.path.relpath(s, R) for s in need)
    json.dump(D, open(os.path.join(H, 'deps.json'), 'w'), indent=0, sort_keys=True)
    nf, bd = write_ninja(opts(hid)['san'], hid, D[hid])
    rc, out = ninja(nf, '%s/%s.min' % (bd, hid))
    print(hid, len(need), 'sources', 'ok' if rc == 0 else out[-1500:])

def main():
    if sys.argv[1] == '--setup':
        for t in ('g++ --version', 'ninja --version'):
            if subprocess.run(t.split(), stdout=subprocess.DEVNULL).returncode: sys.exit(2)
        return 0
    hid = sys.argv[1]
    if '--gen-deps' in sys.argv: gen_deps(hid); return 0
    t0 = time.time()
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    exe, bd = build(hid)
    tb = time.time() - t0
    env = dict(os.environ, VERIF_TIER=tier, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1', LC_ALL='C', TZ='UTC')
    if '--replay' in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        env['VERIF_TIER'] = r.get('tier', tier)
        p = subprocess.run([exe] + r['args'], env=env); return p.returncode
    out = tempfile.NamedTemporaryFile(prefix='mcout', delete=False).name
    limit = 840 - tb if tier == 'quick' else 6 * 3600
    try:
        p = subprocess.run([exe, '--out', out], env=env, timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        print('ERROR: exploration did not finish in %d s' % limit); return 2
    try: res = json.load(open(out))
    except Exception as e:
        print('ERROR: no result from harness', p.returncode, e); return 2
    os.unlink(out)
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    known = {k['key']: k for k in kf['findings'] if k['property'] == hid}
    bykey = {}
    for v in res['violations']: bykey.setdefault(v['key'], v)
    newv, hitknown, unrep = [], [], []
    tmpd = os.path.join(EV, 'replay'); os.makedirs(tmpd, exist_ok=True)
    for old in glob.glob(os.path.join(tmpd, hid + '-*.json')): os.unlink(old)
    confirmed = 0
    for n, (key, v) in enumerate(sorted(bykey.items())):
        if key in known: hitknown.append(known[key]); continue
        if confirmed >= 5: newv.append((v, None)); continue
        def run(args, lim=300):
            try: return subprocess.run([exe] + args, env=env, timeout=lim, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout
            except subprocess.TimeoutExpired: return ''
        part, idx = v['part'], str(v['idx'])
        args = ['--replay', part, idx]; ok = False
        want = 'FAIL key=' + (key if v['kind'] == 'assert' else '')
        if want in run(args): ok = True
        elif v['kind'] != 'hang':
            args = ['--range', part, str(max(0, int(idx) - 5000)), idx]
            if want in run(args): ok = True
            else:
                args = ['--only', part]
                so = tempfile.NamedTemporaryFile(prefix='mcout', delete=False).name
                run(args + ['--out', so], 400)
                try: ok = any(w['key'] == key for w in json.load(open(so))['violations'])
                except Exception: ok = False
                if os.path.exists(so): os.unlink(so)
        if ok:
            confirmed += 1
            rp = os.path.join(tmpd, '%s-%d.json' % (hid, n))
            json.dump(dict(property=hid, tier=tier, key=key, kind=v['kind'], args=args, message=v['msg'],
                           how='python3 /verif/run_check.py %s --replay %s' % (hid, rp)), open(rp, 'w'), indent=1)
            newv.append((v, rp))
        else: unrep.append(v)
    meta = {}
    try:
        for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']:
            if c['property'] == hid: meta = c
    except Exception: pass
    level = meta.get('level', 'exploration')
    o = opts(hid)
    parts = {q['name']: {k: q[k] for k in q if k != 'name'} for q in res['parts']}
    cov = dict(exhaustive=all(q['complete'] for q in res['parts']), parts=parts, samples=res['samples'] or ['(none)'],
               build_s=round(tb, 1))
    if level == 'model_checking':
        cov.update(states=res['states'], transitions=res['transitions'], traces_validated_against_impl=res['traces'],
                   distinct_outcomes=res['distinct'], evaluations=res['evals'])
    else:
        cov.update(evaluations=res['evals'], distinct_nontrivial=res['distinct'], rule=o.get('rule', 'every index of every listed part is executed; distinct = distinct observable outcomes (hashed)'))
        if res['states']: cov.update(states=res['states'], transitions=res['transitions'])
    if unrep: cov['unreproduced'] = unrep
    ev = dict(property=hid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=[a for a in o.get('assume', '').split(' ; ') if a], wall_s=round(time.time() - t0, 2), violations=len(newv))
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, hid + '.json'), 'w'), indent=1)
    for k in hitknown: print('KNOWN-FINDING: property=%s %s' % (hid, k['what']))
    for v in unrep: print('note: not reproduced on replay, not reported: %s %s' % (v['key'], v['msg'][:200]))
    print('%s %s: cases %d evals %d states %d transitions %d distinct %d build %.1fs total %.1fs' % (hid, tier,
        sum(q['cases'] for q in res['parts']), res['evals'], res['states'], res['transitions'], res['distinct'], tb, time.time() - t0))
    if newv:
        for v, rp in newv:
            if rp: print('VIOLATION property=%s replay=%s' % (hid, rp)); print('  key=%s: %s' % (v['key'], v['msg'][:400]))
            else: print('  also: key=%s: %s' % (v['key'], v['msg'][:200]))
        return 1
    return 0
sys.exit(main())
