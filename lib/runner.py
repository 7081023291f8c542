#!/usr/bin/env python3
"""Decides one property of nanoserde: `check PROPERTY`.

1. expands /repo's current source, extracts the functions (vx), attaches the contracts, runs Verus;
2. searches for a failing input against the real crate (harness) for the trusted or failed parts.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Nothing else.
"""
import sys, os, json, subprocess, time, hashlib, re, importlib, threading, shutil, traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'contracts')]
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
T0 = time.time()

import asm
import literals
import registry


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def run(cmd, timeout=None, cwd=None, env=None, out=None):
    e = dict(os.environ)
    e.pop('CARGO_TARGET_DIR', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return -999, x.stdout or b'', x.stderr or b''


class Problem(Exception):
    pass


def build_vx():
    rc, o, e = run(['cargo', 'build', '--offline', '--locked', '--target-dir', os.path.join(B, 'vx')], cwd=os.path.join(V, 'vx'), timeout=400)
    if rc != 0:
        raise Problem('vx does not build: ' + e.decode()[-2000:])
    return os.path.join(B, 'vx', 'debug', 'vx')


def expand(unit, d=None, tag=''):
    """expanded source of the crate the unit is about"""
    d = d or unit.crate_dir or REPO
    if REPO != '/repo' and d.rstrip('/').endswith('catalogue'):
        c = os.path.join(B, 'cat_' + unit.name)
        shutil.rmtree(c, ignore_errors=True)
        shutil.copytree(d, c)
        f = os.path.join(c, 'Cargo.toml')
        s = open(f).read().replace('"/repo', '"' + REPO)
        open(f, 'w').write(s)
        d = c
    rc, o, e = run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--target-dir', os.path.join(B, 'xt'), '--', '-Zunpretty=expanded'], cwd=d, timeout=400)
    if rc != 0:
        raise Problem('expansion failed: ' + e.decode()[-2000:])
    p = os.path.join(B, unit.name + tag + '.exp.rs')
    open(p, 'wb').write(o)
    return p


def extract(vx, exp, unit):
    rc, o, e = run([vx, exp, os.path.join(V, 'vx', 'cfg.json')], timeout=100)
    if rc != 0:
        raise Problem('extraction failed: ' + e.decode()[-2000:])
    return json.loads(o)


def put_back(vx, path, ids, names):
    """a copy of the source with renamed functions called as before and functions cut out of others put back; None if some could not be"""
    t = open(path).read()
    for new, old in names.items():
        if re.search(r'\b%s\b' % old, t):
            return None
        t = re.sub(r'\b%s\b' % new, old, t)
    p2 = path + '.in.rs'
    open(p2, 'w').write(t)
    ids = [i for i in ids if re.search(r'\bfn\s+%s\b' % i.split('::')[-1], t)]
    if not ids:
        return t
    rc, o, e = run([vx, '--inline', p2] + ids, timeout=100)
    if rc != 0:
        return None
    j = json.loads(o)
    return None if j['left'] else j['source']


def all_items(vx, unit, ids=None, names=None):
    """items of every crate the unit is about"""
    items = []
    for n, c in enumerate(unit.crates or [dict(dir=None)]):
        p = expand(unit, c['dir'], str(n))
        if c.get('pre'):
            t = open(p).read()
            open(p, 'w').write(c['pre'](t))
        if ids or names:
            t = put_back(vx, p, ids or [], names or {})
            if t is None:
                return None
            p += '.back.rs'
            open(p, 'w').write(t)
        for it in extract(vx, p, unit):
            if c.get('modules') is None or it['path'] in c['modules']:
                it['crate'] = n
                items.append(it)
    return items


def verus(path, extra=(), timeout=600):
    rc, o, e = run(['verus', '--crate-type=lib', path, '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '6', '--rlimit', '40', '--no-report-long-running'] + list(extra), cwd=B, timeout=timeout)
    try:
        s = o.decode()
        j = json.loads(s[s.index('{'):])
    except Exception:
        j = None
    diags = []
    for l in e.decode(errors='replace').split('\n'):
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get('level', '').startswith('error') and d.get('spans'):
            diags.append(d)
        elif d.get('level', '').startswith('error') and 'aborting' not in d.get('message', ''):
            diags.append(d)
    return rc, j, diags, e.decode(errors='replace')


SOLVER_LIMIT = re.compile(r'rlimit|Resource limit|timed? ?out|canceled', re.I)
OBLIG = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|decreases not satisfied|could not show termination|unable to prove|constructed value may fail|possible bit shift|recommendation not met|loop invariant|split|value may be out of range', re.I)


def records(a, diags):
    """(failed obligations, obligations the solver gave up on) of one run of the verifier"""
    fails, undec = [], []
    for d in diags:
        if not d.get('spans'):
            continue
        msg = d['message']
        fids, tags = [], []
        for s in sorted(d['spans'], key=lambda s: not s['is_primary']):
            for (x, y, fid) in a.regions:
                if x <= s['line_start'] <= y and fid not in fids:
                    fids.append(fid)
            t = a.lines[s['line_start'] - 1] if s['line_start'] <= len(a.lines) else ''
            for m in re.findall(r'/\*#([^*]*)\*/', t):
                tags += m.split()
        prim = next((s for s in d['spans'] if s['is_primary']), d['spans'][0])
        # the function whose body failed: the span that is not a trait declaration
        body = [f for f in fids if not is_decl(a, f)] or fids
        ufn = body[0] if body else 'lemma'
        if not body:
            for n in range(min(prim['line_start'], len(a.lines)) - 1, -1, -1):
                m = re.search(r'\bfn (\w+)', a.lines[n])
                if m:
                    ufn = m.group(1)
                    break
        rec = dict(function=body[0] if body else 'lemma', unit_fn=ufn, message=msg, tags=sorted(set(tags)), line=prim['line_start'], text=a.lines[prim['line_start'] - 1].strip()[:400] if prim['line_start'] <= len(a.lines) else '', rendered=(d.get('rendered') or '')[:3000])
        if SOLVER_LIMIT.search(msg):
            undec.append(rec)
        else:
            fails.append(rec)
    return fails, undec


def verify_unit(name, prop):
    """returns dict(status=..., failures=[...], structural=[...], stats)"""
    unit = importlib.import_module(name).unit()
    if not hasattr(unit, 'crate_dir'):
        unit.crate_dir = None
    vx = build_vx()
    items = all_items(vx, unit)
    a = asm.assemble(unit, items, {})
    new = [s.rsplit(': ', 1)[0] for s in a.structural if s.endswith(': function without contract')]
    lost = [s.rsplit(': ', 1)[0] for s in a.structural if s.endswith(': contract without function')]
    if new:
        # functions the contracts do not know: a renamed one is known by its signature, one cut out of another is put back
        names = {}
        for l in lost:
            was = (unit.signatures or {}).get(l)
            c = [n for n in new if n.rsplit('::', 1)[:-1] == l.rsplit('::', 1)[:-1] and was and asm.signature(a.fns[n]) == was]
            if len(c) == 1:
                names[c[0].split('::')[-1]] = l.split('::')[-1]
                new.remove(c[0])
        if all(' for ' not in n for n in new) and (new or names) and len(names) == len(lost):
            try:
                back = all_items(vx, unit, new, names)
                if back is not None:
                    res, a2 = verify_items(name, unit, back, prop, retries=1)
                    log(name, 'with', names, new, 'put back:', res['status'], res['structural'][:3])
                    if res['status'] == 'proved':
                        res['put_back'] = dict(inlined=new, renamed=names)
                        return res, a2
            except Problem as x:
                log(name, 'put back:', x)
    return verify_items(name, unit, items, prop)


def verify_items(name, unit, items, prop, retries=2):
    forced = {}
    res = dict(unit=name, structural=[], failures=[], forced={}, rounds=0, undecided=[])
    for rnd in range(5):
        a = asm.assemble(unit, items, forced)
        path = os.path.join(B, 'v_%s.rs' % name)
        open(path, 'w').write('\n'.join(a.lines))
        rc, j, diags, raw = verus(path, unit.verus_args if hasattr(unit, 'verus_args') else ())
        res['rounds'] = rnd + 1
        compile_errs = [d for d in diags if d.get('spans') and not OBLIG.search(d['message']) and not SOLVER_LIMIT.search(d['message'])]
        ver = (j or {}).get('verification-results', {})
        if j is None or (compile_errs and not ver.get('verified')):
            # text Verus does not accept: leave out the functions concerned
            new = {}
            for d in compile_errs:
                for s in d['spans']:
                    for (x, y, fid) in a.regions:
                        if x <= s['line_start'] <= y and fid not in forced:
                            new[fid] = 'not accepted by Verus: ' + d['message'][:200]
            if not new:
                res['structural'].append('Verus did not accept the extracted text: %s' % (compile_errs[0]['message'] if compile_errs else raw[-600:]))
                res['raw'] = raw[-4000:]
                res['status'] = 'structural'
                return res, a
            forced.update(new)
            continue
        break
    else:
        res['structural'].append('too many functions outside the verifier\'s language')
        res['status'] = 'structural'
        return res, a
    res['structural'] += a.structural
    for k, v in forced.items():
        res['structural'].append('%s: %s' % (k, v))
    res['forced'] = forced
    res['failures'], res['undecided'] = records(a, diags)
    # the solver may give up on an obligation it proves with another seed: an obligation is
    # discharged when one run discharges it, so what stays is what no run discharges
    res['retries'] = 0
    dropped = set()
    extra = list(unit.verus_args) if hasattr(unit, 'verus_args') else []
    t1 = time.time()
    while (res['failures'] or res['undecided']) and res['retries'] < retries and time.time() - T0 < 420:
        res['retries'] += 1
        rc2, j2, diags2, raw2 = verus(path, extra + ['--smt-option', 'smt.random_seed=%d' % (res['retries'] * 7 + SEED)])
        if j2 is None or not j2.get('verification-results', {}).get('verified'):
            break
        f2, u2 = records(a, diags2)
        left = {r['unit_fn'] for r in f2 + u2}
        for k in ('failures', 'undecided'):
            dropped |= {r['unit_fn'] for r in res[k] if r['unit_fn'] not in left}
            res[k] = [r for r in res[k] if r['unit_fn'] in left]
    res['reproved'] = sorted(dropped)
    if dropped:
        log(name, 'discharged with another solver seed:', sorted(dropped))
    times = (j or {}).get('times-ms', {})
    fb = []
    for m in times.get('smt', {}).get('smt-run-module-times', []):
        fb += m.get('function-breakdown', [])
    res['verified'] = ver.get('verified', 0)
    res['errors'] = ver.get('errors', 0)
    res['obligations'] = len(fb)
    res['discharged'] = min(len(fb), sum(1 for f in fb if f.get('success')) + len(dropped))
    res['solver_ms'] = times.get('smt', {}).get('smt-run', 0)
    res['slowest'] = sorted([(f['time'], f['function']) for f in fb], reverse=True)[:5]
    # a function that calls something without contract cannot be judged
    if res['failures']:
        res['status'] = 'failed'
    elif res['undecided'] or (ver.get('errors', 0) and not dropped):
        res['status'] = 'undecided'
    elif res['structural']:
        res['status'] = 'structural'
    elif ver.get('verified', 0) + len(dropped) < unit.min_verified:
        res['structural'].append('only %d queries verified (expected at least %d)' % (ver.get('verified', 0), unit.min_verified))
        res['status'] = 'structural'
    else:
        res['status'] = 'proved'
    return res, a


def is_decl(a, fid):
    return fid not in a.fn_info


def build_harness():
    h = os.path.join(V, 'harness')
    try:
        d = literals.new(REPO)
    except Exception as x:
        log('literals:', x)
        d = []
    p = os.path.join(B, 'dict_%d.json' % os.getpid())
    json.dump(d, open(p, 'w'))
    os.environ['NSH_DICT'] = p
    log('new literals in the source:', d[:20])
    if REPO != '/repo':
        h2 = os.path.join(B, 'harness_src')
        shutil.rmtree(h2, ignore_errors=True)
        shutil.copytree(h, h2)
        shutil.rmtree(os.path.join(B, 'catalogue'), ignore_errors=True)
        shutil.copytree(os.path.join(V, 'catalogue'), os.path.join(B, 'catalogue'))
        for f in (os.path.join(h2, 'Cargo.toml'), os.path.join(B, 'catalogue', 'Cargo.toml')):
            t = open(f).read().replace('"/repo"', '"%s"' % REPO)
            open(f, 'w').write(t)
        h = h2
    rc, o, e = run(['cargo', 'build', '--offline', '--locked', '--target-dir', os.path.join(B, 'ht')], cwd=h, timeout=600)
    if rc != 0:
        raise Problem('harness does not build: ' + e.decode()[-3000:])
    return os.path.join(B, 'ht', 'debug', 'nsh')


def search(nsh, prop, secs, procs, seed0):
    """search for failing inputs in several processes; returns (failure or None, stats)"""
    ps = []
    for k in range(procs):
        cf = os.path.join(B, 'crash_%s_%d' % (prop, k))
        ps.append((subprocess.Popen([nsh, 'search', prop, str(seed0 + k), str(secs), cf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, NSH_HANG=os.environ.get('NSH_HANG', '25'))), cf))
    fails = []
    st = dict(evaluations=0, distinct=0, samples=[], procs=procs)
    for p, cf in ps:
        try:
            o, e = p.communicate(timeout=secs * 3 + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
        line = next((l for l in o.decode(errors='replace').split('\n') if l.startswith(('OK ', 'FAIL '))), None)
        if line and line.startswith('OK '):
            j = json.loads(line[3:])
            st['evaluations'] += j['evaluations']
            st['distinct'] += j['distinct']
            st['samples'] += j['samples'][:3]
            st['subs'] = sorted(j['subs'])
        elif line:
            f = json.loads(line[5:])
            fails.append(f)
        else:
            c = ''
            try:
                c = open(cf).read().split('\n')[0].strip()
            except Exception:
                pass
            w = c.rsplit(' ', 2)
            if len(w) == 3:
                fails.append(dict(property=prop, sub=w[0], case=int(w[1]), size=int(w[2]), input='(case that ended the process)', failure='the process died (exit status %s): %s' % (p.returncode, e.decode(errors='replace')[-400:].strip())))
    # one that does not reproduce (timing on a loaded machine) must not hide one that does
    return next((f for f in fails if len(fails) > 1 and replay(nsh, prop, f)[0]), fails[0] if fails else None), st


def replay(nsh, prop, f):
    """run the failing case again: a failure must reproduce"""
    try:
        p = subprocess.run([nsh, 'replay', prop, f['sub'], str(f['case']), str(f['size'])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return True, 'did not terminate within 60 s'
    o = p.stdout.decode(errors='replace')
    return not (p.returncode == 0 and 'HOLDS' in o), o[-3000:] + p.stderr.decode(errors='replace')[-800:]


def known_findings():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                m = re.match(r'finding: property=(\S+) (\S+) (.*)', l)
                if m:
                    out.append((m.group(1), m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    R = registry.PROPS[prop]
    quick = TIER != 'thorough'
    secs = R.get('secs', 12) if quick else R.get('secs', 12) * 12
    box = {}

    def th(key, fn):
        def g():
            try:
                box[key] = fn()
            except Exception as x:
                box[key + '_err'] = '%s' % x
                log(key, 'error:', traceback.format_exc()[-1500:])
        t = threading.Thread(target=g)
        t.start()
        return t

    def do_search():
        nsh = build_harness()
        log('harness built')
        return (nsh,) + search(nsh, prop, secs, 3 if quick else 6, SEED)

    def do_verify():
        return [verify_unit(u, prop) for u in R['units']]

    ts = [th('search', do_search), th('verify', do_verify)]
    extra = []
    for name, fn in R.get('extra', {}).items():
        ts.append(th('x_' + name, lambda fn=fn: fn(B, REPO, V, quick)))
    for t in ts:
        t.join()
    log('verify', [(r['unit'], r['status'], r.get('verified')) for r, _ in box.get('verify', [])], box.get('verify_err', '')[:300])
    log('search', box.get('search', (None, None, None))[1:], box.get('search_err', '')[:300])

    violation = None
    notes = []
    sfail = None
    nsh = None
    st = {}
    if 'search' in box:
        nsh, sfail, st = box['search']
        if sfail:
            ok, text = replay(nsh, prop, sfail)
            if not ok:
                notes.append('a search failure did not reproduce: %r' % (sfail,))
                # timing dependent (a loaded machine): not a violation
                sfail = None
            else:
                sfail['replay_output'] = text
    else:
        notes.append('search unavailable: ' + box.get('search_err', '')[:800])
    vres = box.get('verify', [])
    if 'verify_err' in box:
        notes.append('verification unavailable: ' + box['verify_err'][:800])
    for k in list(box):
        if k.endswith('_err') and k.startswith('x_'):
            notes.append('%s unavailable: %s' % (k, box[k][:500]))

    # failed obligations that concern this property
    mine, structural, undecided = [], [], []
    for r, a in vres:
        if r.get('put_back'):
            notes.append('%s: functions without a contract put back into their callers before verification: %s; renamed: %s' % (r['unit'], r['put_back']['inlined'], r['put_back']['renamed']))
        structural += r['structural']
        undecided += r['undecided']
        for f in r['failures']:
            if registry.concerns(prop, r['unit'], f):
                mine.append(f)
    rp = os.path.join(V, 'evidence', 'replay_%s.json' % prop)
    xfail = None
    xev = {}
    for name in R.get('extra', {}):
        x = box.get('x_' + name)
        if x:
            xev[name] = {k: v for k, v in x.items() if k != 'output'}
            if x.get('violation'):
                xfail = x

    if sfail:
        violation = 'input'
        json.dump(dict(property=prop, failing_case=sfail, obligations_failed=mine, how_to_replay='cargo run --offline in /verif/harness: nsh replay %s %s %s %s' % (prop, sfail['sub'], sfail['case'], sfail['size'])), open(rp, 'w'), indent=1)
    elif xfail:
        violation = 'input'
        json.dump(dict(property=prop, failing_case=xfail, obligations_failed=mine), open(rp, 'w'), indent=1)
    elif mine and not structural:
        # a proof that used to succeed fails on the same structure: does the change rather break a sibling property?
        sib = None
        if nsh:
            # look longer for an input that breaks this property
            f, st2 = search(nsh, prop, 30 if quick else 200, 4, SEED + 100)
            st['evaluations'] = st.get('evaluations', 0) + st2['evaluations']
            if f and replay(nsh, prop, f)[0]:
                violation = 'input'
                json.dump(dict(property=prop, failing_case=f, obligations_failed=mine), open(rp, 'w'), indent=1)
        if nsh and violation is None:
            for q in registry.siblings(prop):
                f, _ = search(nsh, q, 6 if quick else 60, 3, SEED)
                if f and replay(nsh, q, f)[0]:
                    sib = (q, f)
                    break
        if violation is None and sib is not None:
            notes.append('failed obligations are explained by a violation of %s; this property was explored without finding a failing input' % sib[0])
        elif violation is None:
            violation = 'noinput'
            json.dump(dict(property=prop, failed_obligation=mine[0], obligations_failed=mine, verifier_output='\n'.join(f['rendered'] for f in mine)[:20000]), open(rp, 'w'), indent=1)
    elif mine and structural:
        notes.append('the contracts no longer fit the text of the code (%s); the property was explored by bounded search only' % '; '.join(structural[:4]))

    proved = bool(vres) and all(r['status'] == 'proved' for r, _ in vres) and 'verify_err' not in box
    obligations = sum(r.get('obligations', 0) for r, _ in vres)
    discharged = sum(r.get('discharged', 0) for r, _ in vres)
    level = R['level']
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='verus --crate-type=lib <assembled file> (Z3 back end), assembled by lib/asm.py from functions extracted by vx from /repo on this run',
        trusted_base=registry.trusted(vres, R),
        functions_under_contract=sorted(k for r, a in vres for k, i in a.fn_info.items() if i['contract'] and not i['trusted']),
        functions_trusted={k: i['trusted'] for r, a in vres for k, i in a.fn_info.items() if i['trusted']},
        back_end='Z3 through Verus', solver_time_ms=sum(r.get('solver_ms', 0) for r, _ in vres),
        queries_verified=sum(r.get('verified', 0) for r, _ in vres),
        slowest=[s for r, _ in vres for s in r.get('slowest', [])][:5],
        status={r['unit']: r['status'] for r, _ in vres}, proved=proved,
        contracts_not_applicable_to_this_text=structural[:20],
        discharged_with_another_solver_seed=[x for r, _ in vres for x in r.get('reproved', [])],
        undecided=[u['function'] + ': ' + u['message'] for u in undecided][:10],
        failed_obligations=[dict(function=f['function'], message=f['message'], text=f['text']) for f in mine][:20],
        bounded_search=dict(st, rule='seeded generation per sub-property (see harness/src); a case is non-trivial when its input is non-empty'),
        evaluations=st.get('evaluations', 0), distinct_nontrivial=st.get('distinct', 0), rule='bounded companion search: generated inputs run against the real crate, compared with an independent oracle; non-trivial = non-empty input',
        samples=st.get('samples', []) or ['none'],
        bounded_only=R.get('bounded', []), notes=notes, extra=xev)
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov, assumptions=R['assumptions'] + registry.COMMON_ASSUMPTIONS, wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    cov['explanation'] = R.get('explanation', '')
    json.dump(ev, open(os.path.join(V, 'evidence', '%s.json' % prop), 'w'), indent=1)
    for (p, fid, text) in known_findings():
        if p == prop:
            print('KNOWN-FINDING: property=%s %s' % (p, text))
    if not violation and 'search' not in box and not proved:
        print('no answer: ' + '; '.join(notes)[:2000], file=sys.stderr)
        return 2
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if violation == 'input' else ' no-failing-input-found'))
        if sfail:
            log('input:', sfail['input'][:500], '->', sfail['failure'][:500])
        for f in mine[:5]:
            log('failed obligation:', f['function'], f['message'], f['text'][:200])
        return 1
    print('%s held: %s; %d of %d obligations discharged; %d inputs tried' % (prop, 'proved' if proved else 'explored (contracts not applicable or undecided on this text)', discharged, obligations, st.get('evaluations', 0)))
    for n in notes:
        print('note:', n[:600])
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
