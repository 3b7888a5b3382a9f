#!/usr/bin/env python3
"""check.py ID [--rebase] [--keep]   decide one property on /repo's current working tree.

1. vx extracts the functions under contract from /repo/src into build/ID/*.rs (Verus);
2. Verus discharges the obligations (and, with `ensures false` added, must refuse each function);
3. the native harness runs the compiled functions of /repo against independent oracles: it
   supplies the failing input of a violation, and the bounded stand-in where the proof is lost.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: /repo does not build at all.
"""
import json, os, re, subprocess, sys, time, shutil, glob, hashlib, threading
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
RS = '1.86.0-x86_64-unknown-linux-gnu'
T0 = time.time()

def env(**k):
    e = dict(os.environ)
    e['HOME'] = e.get('HOME', '/root')
    e['PATH'] = e['HOME'] + '/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_TERM_COLOR'] = 'never'; e['RUSTC_WRAPPER'] = ''
    for x in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'): e.pop(x, None)
    e.update(k); return e

def run(cmd, timeout=600, **k):
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **k)
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout', time.time() - t

# ------------------------------------------------------------------ proof side
OBL = ['postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
       'possible arithmetic', 'possible division by zero', 'decreases not satisfied', 'possible bit shift',
       'requirement not met', 'recommendation not met', 'cannot show', 'unable to prove', 'precondition', 'loop must have a decreases',
       'possible truncation', 'invariant']
UNDEC = ['rlimit', 'resource limit', 'not supported', 'unsupported', 'cannot find', 'mismatched', 'unresolved', 'no method', 'no field']

def build_vx():
    rc, o, e, t = run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=V + '/vx',
                      env=env(RUSTUP_TOOLCHAIN=RS, CARGO_TARGET_DIR=B + '/vx-target'))
    return (B + '/vx-target/release/vx') if rc == 0 else None, e

def verus(path, extra=()):
    cmd = ['verus', path, '--output-json', '--time', '--multiple-errors', '20', '--num-threads', '6', *extra]
    rc, o, e, t = run(cmd, timeout=600, env=env(), cwd=os.path.dirname(path))
    res = {'rc': rc, 'wall': t, 'stderr': e, 'verified': 0, 'errors': 0, 'smt_ms': 0, 'cmd': ' '.join(cmd)}
    i = o.find('{')
    try:
        j = json.loads(o[i:])
        r = j.get('verification-results', {})
        res['verified'] = r.get('verified', 0); res['errors'] = r.get('errors', 0)
        res['success'] = r.get('success', False)
        tm = j.get('times-ms', {})
        res['smt_ms'] = (tm.get('smt') or {}).get('total', 0) if isinstance(tm.get('smt'), dict) else 0
        res['vir_error'] = r.get('encountered-vir-error', False)
    except Exception:
        res['success'] = False; res['vir_error'] = True
    return res

def parse_errors(stderr):
    """[(message, [(line,...)], block)]"""
    out = []
    for blk in re.split(r'\n(?=error)', '\n' + stderr):
        m = re.match(r'\s*error(\[[^\]]*\])?: (.*)', blk)
        if not m: continue
        msg = m.group(2).strip()
        if msg.startswith('aborting due to'): continue
        prim = [int(x) for x in re.findall(r'--> [^\n:]*:(\d+):\d+', blk)]
        lines = prim + [int(x) for x in re.findall(r'^\s*(\d+) \|', blk, re.M)]
        out.append((msg, lines, blk.strip()[:3000]))
    return out

def prove(pid, tpl, vx, canary_results):
    name = os.path.splitext(os.path.basename(tpl))[0]
    d = f'{B}/{pid}'; os.makedirs(d, exist_ok=True)
    out, side = f'{d}/{name}.rs', f'{d}/{name}.json'
    rc, o, e, t = run([vx, tpl, REPO, out, side])
    r = {'template': name, 'status': None, 'failed': [], 'detail': ''}
    if not os.path.exists(side) or rc not in (0, 3):
        r.update(status='lost', detail='extraction failed: ' + e[-2000:]); return r
    sc = json.load(open(side)); r['sidecar'] = sc
    if rc == 3:
        r.update(status='lost', detail='anchor lost: ' + '; '.join(sc['errors'])); return r
    holder = {}
    def can():
        co, cs = f'{d}/{name}_canary.rs', f'{d}/{name}_canary.json'
        rc2, _, e2, _ = run([vx, tpl, REPO, co, cs, '--canary'])
        holder['res'] = verus(co); holder['side'] = json.load(open(cs))
    th = threading.Thread(target=can); th.start()
    res = verus(out); th.join()
    r['res'] = {k: res[k] for k in ('verified', 'errors', 'wall', 'smt_ms', 'cmd')}
    if res['success'] and res['verified'] > 0 and res['rc'] == 0:
        # vacuity guard: with `ensures false` every function must be refused
        ce = parse_errors(holder['res']['stderr'])
        hit = set()
        for msg, lines, _ in ce:
            for m in holder['side']['map']:
                if any(m['out_lines'][0] <= l <= m['out_lines'][1] for l in lines): hit.add((m['file'], m['selector'], m['out_lines'][0]))
        miss = [m['selector'] for m in holder['side']['map'] if m['canary'] and (m['file'], m['selector'], m['out_lines'][0]) not in hit]
        r['canary'] = {'functions': len([m for m in holder['side']['map'] if m['canary']]), 'refused': len(hit), 'not_refused': miss}
        r['status'] = 'proved' if not miss else 'vacuous'
        if miss: r['detail'] = 'contract of ' + ', '.join(miss) + ' is vacuous'
        return r
    errs = parse_errors(res['stderr'])
    obl, und = [], []
    for msg, lines, blk in errs:
        low = msg.lower()
        if any(u in low for u in UNDEC) or not any(x in low for x in OBL): und.append((msg, blk)); continue
        f = None
        for m in sc['map']:
            if any(m['out_lines'][0] <= l <= m['out_lines'][1] for l in lines): f = m; break
        obl.append({'obligation': msg, 'function': (f['file'] + ' :: ' + f['selector']) if f else '(spec)', 'output': blk})
    r['verus_stderr'] = res['stderr'][-8000:]
    if und or res['vir_error'] or not obl:
        r.update(status='lost', detail='outside the verifier\'s reach: ' + '; '.join(m for m, _ in und)[:800] + ('' if und else res['stderr'][-600:]))
        r['failed'] = obl
        return r
    r.update(status='failed', failed=obl)
    return r

def fingerprint(side):
    return {f"{f['file']} :: {f['selector']}": {'loops': f['loops'], 'closures': f['closures'], 'calls': f['calls'], 'params': f['params'], 'dropped': f['dropped'],
            'subst': [s['hits'] for s in f['subst']]} for f in side['functions']}

def shape_kept(side, base):
    for k, f in fingerprint(side).items():
        b = base.get(k)
        if b is None: return False, k
        if f['loops'] != b['loops'] or f['closures'] != b['closures'] or f['params'] != b['params'] or f['dropped'] != b.get('dropped') or f['subst'] != b['subst']: return False, k
        if set(f['calls']) - set(b['calls']): return False, k + ' calls ' + ','.join(set(f['calls']) - set(b['calls']))
    return True, ''

# ------------------------------------------------------------------ native side
def blocks(path):
    """[(name or None, [lines])]"""
    out = [(None, [])]
    for l in open(path).read().split('\n'):
        m = re.match(r'//@block (\w+)', l)
        if m: out.append((m.group(1), []))
        out[-1][1].append(l)
    return out

HOOKNAMES = 'root cluster_listener utils data_store node_questions data_manager preprocessor_helper training scoring scoring_helper segmentation transposition edge_estimation intersection_calculation node_estimation multi_kde multi_kde_actors rotation pca pca_helper anomaly_contribution'.split()

def stage(dropped, pid):
    H, S = f'{B}/hooks', f'{B}/harness'
    os.makedirs(H, exist_ok=True); os.makedirs(S + '/src', exist_ok=True)
    index = {}
    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s: open(p, 'w').write(s)
    def emit(src, dst):
        t, ranges = [], []
        if os.path.exists(src):
            for n, ls in blocks(src):
                key = (os.path.basename(dst), n)
                if key in dropped: ls = ['']*0
                a = len(t) + 1
                t += ls
                ranges.append((a, len(t), n))
        put(dst, '\n'.join(t) + '\n')
        index[os.path.realpath(dst)] = ranges
    for n in HOOKNAMES: emit(f'{V}/hooks/{n}.rs', f'{H}/{n}.rs')
    for f in ('Cargo.toml',): put(f'{S}/{f}', open(f'{V}/harness/{f}').read())
    if not os.path.exists(S + '/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock' if not os.path.exists(V + '/harness/Cargo.lock') else V + '/harness/Cargo.lock', S + '/Cargo.lock')
    put(f'{S}/src/main.rs', open(f'{V}/harness/src/main.rs').read())
    gen, lst = [], []
    for p in sorted(glob.glob(f'{V}/harness/props/*.rs')):
        n = os.path.splitext(os.path.basename(p))[0]
        own = not pid or n.upper() == pid.upper()
        # helpers: `common`, and modules the property's file names
        if not own and n != 'common' and not (os.path.exists(f'{V}/harness/props/{pid.lower()}.rs') and f'crate::{n}::' in open(f'{V}/harness/props/{pid.lower()}.rs').read()): continue
        emit(p, f'{S}/src/{n}.rs')
        gen.append(f'pub mod {n};')
        for bn, _ in blocks(p):
            if bn and bn.startswith('c') and (n + '.rs', bn) not in dropped and own and n != 'common' and re.match(r'c\d', bn): lst.append(f'("{bn}", {n}::{bn} as fn(&mut Cx)),')
    put(f'{S}/src/generated.rs', '\n'.join(gen) + '\npub static LIST: &[(&str, fn(&mut Cx))] = &[\n' + '\n'.join(lst) + '\n];\n')
    return index

def build_harness(pid):
    """returns (binary or None, dropped, log)"""
    dropped, log = set(), ''
    e = env(RUSTUP_TOOLCHAIN=RS, CARGO_TARGET_DIR=B + '/harness-target', RUSTFLAGS='--cfg s2gpp_verif',
            S2GPP_VERIF_HOOKS=B + '/hooks', CARGO_INCREMENTAL='0')
    for rnd in range(12):
        index = stage(dropped, pid)
        rc, o, er, t = run(['cargo', 'build', '--offline', '--message-format', 'short'], cwd=B + '/harness', env=e, timeout=800)
        if rc == 0: return B + '/harness-target/debug/harness', dropped, log
        log += er[-4000:]
        new = set(); repo_err = False
        for m in re.finditer(r'^(\S+?):(\d+):\d+: error', er, re.M):
            f = m.group(1)
            for base in ('', B + '/harness/', REPO + '/', '/'):
                q = os.path.realpath(os.path.join(base, f)) if base != '' else os.path.realpath(f)
                if q in index: break
            else:
                repo_err = True; continue
            for a, b, n in index[q]:
                if a <= int(m.group(2)) <= b: new.add((os.path.basename(q), n))
        new -= dropped
        if not new: return None, dropped, log + ('\n(error outside the hooks)' if repo_err else '')
        dropped |= new
    return None, dropped, log

# ------------------------------------------------------------------ main
def trusted_scan(paths):
    t = []
    for p in paths:
        ls = open(p).read().split('\n')
        for i, l in enumerate(ls):
            if l.strip().startswith('//'): continue
            if re.search(r'external_body|\bassume\(|\badmit\(|\baxiom|assume_specification|uninterp', l):
                x = l.strip()
                if x == '#[verifier::external_body]': x = 'external_body: ' + ' '.join(y.strip() for y in ls[i+1:i+3])
                t.append(f'{os.path.basename(p)}:{i+1}: {x[:160]}')
    return t

def main():
    pid = sys.argv[1]
    os.makedirs(B, exist_ok=True)
    if pid == '--setup':
        vx, er = build_vx()
        print('extractor:', 'built' if vx else er)
        print(run(['verus', '--version'], env=env())[1])
        sys.exit(0 if vx else 2)
    tpls = sorted(p for p in glob.glob(f'{V}/specs/{pid}*.rs') if re.match(pid + r'[a-z_]*\w*\.rs$', os.path.basename(p)))
    basef = f'{V}/specs/fingerprints.json'
    base = json.load(open(basef)) if os.path.exists(basef) else {}
    hold = {}
    def native():
        try:
            hold['bin'] = build_harness(pid)
            if hold['bin'][0]:
                out = f'{B}/{pid}_native.json'
                if os.path.exists(out): os.remove(out)
                hold['nrun'] = run([hold['bin'][0], pid, out], timeout=700 if TIER == 'quick' else 3000, env=env(VERIF_SEED=str(SEED), VERIF_TIER=TIER), cwd=B)
                hold['native'] = json.load(open(out)) if os.path.exists(out) else None
        except Exception as ex:
            hold['err'] = repr(ex)
    th = threading.Thread(target=native)
    noharness = '--nonative' in sys.argv
    if not noharness: th.start()
    proofs = []
    if tpls and '--noproof' not in sys.argv:
        vx, er = build_vx()
        if vx:
            pt = []
            def one(t): proofs.append(prove(pid, t, vx, None))
            for t in tpls:
                x = threading.Thread(target=one, args=(t,)); x.start(); pt.append(x)
                if len(pt) % 3 == 0: pt[-3].join()
            for x in pt: x.join()
        else:
            proofs.append({'template': '(vx)', 'status': 'lost', 'failed': [], 'detail': 'extractor did not build: ' + er[-500:]})
    if not noharness: th.join()
    proofs.sort(key=lambda r: r['template'])
    if '--rebase' in sys.argv:
        for r in proofs:
            if 'sidecar' in r: base.update({r['template'] + ' / ' + k: v for k, v in fingerprint(r['sidecar']).items()})
        json.dump(base, open(basef, 'w'), indent=1, sort_keys=True)
    # ---- verdict
    viol, notes, known = [], [], []
    kf = json.load(open(f'{V}/known_findings.json')) if os.path.exists(f'{V}/known_findings.json') else []
    native = hold.get('native')
    evals = nt = 0; samples = []
    binr = hold.get('bin', (None, set(), hold.get('err', '')))
    if native is not None:
        for c in native:
            evals += c['evaluations']; nt += c['distinct_nontrivial']
            samples += [f"{c['name']}: {s}" for s in c['samples'][:3]]
            for f in c['failures']:
                k = [x for x in kf if x.get('status') == 'known' and x['property'] == pid and x['check'] == c['name'] and re.search(x['match'], f['input'])]
                if k: known.append((k[0], f)); continue
                viol.append({'kind': 'failing input', 'check': c['name'], 'input': f['input'], 'error': f['error']})
    elif not noharness:
        rc = hold.get('nrun', (None,))[0]
        notes.append('native harness gave no result: ' + str(rc) + ' ' + (binr[2] or '')[-300:])
    dropped = sorted(f'{a}:{b}' for a, b in binr[1])
    for d in dropped: notes.append('hook/harness block dropped (does not compile against this tree): ' + d)
    repo_broken = binr[0] is None and 'outside the hooks' in (binr[2] or '')
    for r in proofs:
        if r['status'] == 'failed':
            b = {k.split(' / ', 1)[1]: v for k, v in base.items() if k.startswith(r['template'] + ' / ')}
            ok, why = shape_kept(r['sidecar'], b)
            if ok: viol.append({'kind': 'failed obligation', 'template': r['template'], 'failed': r['failed']})
            else:
                r['status'] = 'lost'; r['detail'] = 'obligations fail, and the shape of the code changed (' + why + '): undecided by proof, decided by the bounded stand-in'
        if r['status'] in ('lost', 'vacuous'): notes.append(f"{r['template']}: {r['status']}: {r['detail']}")
    proved = [r for r in proofs if r['status'] == 'proved']
    all_proved = bool(proofs) and len(proved) == len(proofs)
    nfn = sum(len(r['sidecar']['functions']) for r in proved)
    obligations = sum(r['res']['verified'] + r['res']['errors'] for r in proofs if 'res' in r)
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED,
        'level': 'proof' if all_proved or (proofs and any(r['status'] == 'failed' for r in proofs)) else 'exploration',
        'coverage': {
            'obligations': obligations,
            'discharged': sum(r['res']['verified'] for r in proofs if 'res' in r),
            'checker_cmd': '; '.join(r['res']['cmd'] for r in proofs if 'res' in r) or 'none',
            'trusted_base': ['Verus 0.2026.09.13 + Z3 (unsound results of either)', 'vx extraction (edits listed in vx/src/main.rs)',
                             'rustc: extracted text means the same in the real crate'] + trusted_scan([f'{B}/{pid}/{r["template"]}.rs' for r in proofs if os.path.exists(f'{B}/{pid}/{r["template"]}.rs')]),
            'functions_under_contract': [f"{f['file']} :: {f['selector']} (lines {f['src_lines'][0]}-{f['src_lines'][1]})" for r in proved for f in r['sidecar']['functions']],
            'substitutions': [f"{f['name']}: {s['from']} ==> {s['to']} ({s['hits']}x)" for r in proved for f in r['sidecar']['functions'] for s in f['subst']],
            'left_out_of_extraction': [f"{f['name']}: {x}" for r in proved for f in r['sidecar']['functions'] for x in f['dropped']],
            'proof_status': {r['template']: r['status'] + ((': ' + r['detail']) if r['detail'] else '') for r in proofs},
            'vacuity_canaries': {r['template']: r.get('canary') for r in proved},
            'smt_ms': sum(r['res']['smt_ms'] for r in proofs if 'res' in r), 'verus_wall_s': round(sum(r['res']['wall'] for r in proofs if 'res' in r), 1),
            'evaluations': evals, 'distinct_nontrivial': nt,
            'rule': 'native replay on the compiled crate: exhaustive small inputs plus seeded random ones; non-trivial = the case reaches the behaviour the property is about (see harness/props)',
            'samples': samples[:12],
            'native_checks': [{k: c[k] for k in ('name', 'evaluations', 'distinct_nontrivial', 'n_failures', 'wall_s')} for c in (native or [])],
        },
        'assumptions': notes + [l.strip()[3:].strip() for t in tpls for l in open(t) if l.strip().startswith('//!')],
        'wall_s': round(time.time() - T0, 1), 'violations': len(viol),
    }
    for k, f in known: print(f"KNOWN-FINDING: property={pid} {k['what']} [input: {f['input'][:200]}]")
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for r in proofs: print(f"{r['template']}: {r['status']} {r.get('res', {}).get('verified', 0)} verified, {r.get('res', {}).get('errors', 0)} errors {r['detail'][:1500]}")
    if '-v' in sys.argv:
        for r in proofs: print(r.get('verus_stderr', ''))
    for c in native or []: print(f"{c['name']}: {c['evaluations']} cases, {c['distinct_nontrivial']} non-trivial, {c['n_failures']} failures, {c['wall_s']}s")
    for n in notes: print('note:', n)
    if not viol and not proved and not evals:
        print('error: undecided: no obligation discharged and no native case run'); sys.exit(2)
    if repo_broken:
        print('error: /repo does not build\n' + binr[2][-3000:]); sys.exit(2)
    if viol:
        os.makedirs(B + '/replay', exist_ok=True)
        rp = f'{B}/replay/{pid}.json'
        json.dump({'property': pid, 'violations': viol, 'rerun': f'cd {V} && python3 check.py {pid}', 'native_rerun': f'{binr[0]} {pid} /dev/stdout'}, open(rp, 'w'), indent=1)
        inp = [x for x in viol if x['kind'] == 'failing input']
        for x in viol:
            if x['kind'] == 'failing input': print(f"  {x['check']}: {x['input'][:400]} -> {x['error'][:400]}")
            else:
                for f in x['failed']: print(f"  obligation: {f['function']}: {f['obligation']}")
        print(f'VIOLATION property={pid} replay={rp}' + ('' if inp else ' no-failing-input-found'))
        sys.exit(1)
    print(f'{pid}: held ({"proved" if all_proved else "bounded"}; {obligations} function obligations, {nfn} functions of /repo, {evals} native cases) {time.time()-T0:.0f}s')
    sys.exit(0)
main()
