#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep]

Compiles /repo's current sources to LLVM IR, links them with the property's contract harness, and has the verifier in
zkv/ discharge every obligation of every harness.  Exit 0: everything discharged (or, where labelled, checked within a
bound); exit 1 with a VIOLATION line: an obligation fails and the failure was reproduced by running the real code."""
import argparse
import glob
import hashlib
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ZK_REPO', '/repo')
sys.path.insert(0, os.path.join(ROOT, 'zkv'))
sys.setrecursionlimit(100000)

DEFS = ['-D_ZK_WITH_MMAP=1', '-DZKNO_REM=1', '-D_ZKEXPORT=1', '-DNDEBUG']
INC = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I/opt/vp/deps/libsquish', '-I' + ROOT + '/harness']
IRFLAGS = ['-std=gnu++20', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-w', '-emit-llvm', '-c'] + DEFS + INC
NATFLAGS = ['-std=gnu++20', '-O1', '-g', '-ffp-contract=off', '-w', '-fsanitize=address,shift-exponent', '-fno-sanitize-recover=shift-exponent', '-fno-omit-frame-pointer',
            '-ftrivial-auto-var-init=pattern', '-c'] + DEFS + INC
JOBS = 8


class ToolError(Exception):
    pass


def sources():
    return sorted(p for p in glob.glob(REPO + '/src/**/*.cc', recursive=True) if 'Win32' not in p)


def run_many(cmds):
    procs = []
    todo = list(cmds)
    errs = []
    while todo or procs:
        while todo and len(procs) < JOBS:
            c = todo.pop(0)
            procs.append((c, subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        c, p = procs.pop(0)
        _, e = p.communicate()
        if p.returncode:
            errs.append((c, e.decode('latin-1')[-3000:]))
    if errs:
        raise ToolError('command failed: %s\n%s' % (' '.join(errs[0][0]), errs[0][1]))


def build_ir(work, harness, thorough):
    bc = os.path.join(work, 'bc')
    os.makedirs(bc)
    cmds, objs = [], []
    for i, s in enumerate(sources()):
        o = os.path.join(bc, '%d.bc' % i)
        objs.append(o)
        cmds.append(['clang++'] + IRFLAGS + [s, '-o', o])
    hs = []
    for h in [harness, os.path.join(ROOT, 'harness/rt.cc')]:
        o = os.path.join(bc, 'h_%s.bc' % os.path.basename(h))
        hs.append(o)
        cmds.insert(0, ['clang++'] + IRFLAGS + (['-DZK_THOROUGH'] if thorough else []) + [h, '-o', o])
    run_many(cmds)
    full = os.path.join(work, 'all.bc')
    run_many([['llvm-link', '-o', full] + hs + objs])
    names = subprocess.run(['llvm-nm', '--defined-only', '--extern-only', hs[0]], capture_output=True, text=True).stdout
    entries = re.findall(r' T (h_\w+)', names)
    keep = ','.join(entries + re.findall(r' [TWtw] (\S+)', subprocess.run(
        ['llvm-nm', '--defined-only', hs[1]], capture_output=True, text=True).stdout))
    out = os.path.join(work, 'm.ll')
    run_many([['opt', '-passes=internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)',
               '-internalize-public-api-list=' + keep, full, '-S', '-o', out]])
    return out, sorted(entries)


def build_native(work, harness, thorough):
    nb = os.path.join(work, 'nat')
    exe = os.path.join(nb, 'run')
    if os.path.exists(exe):
        return exe
    os.makedirs(nb, exist_ok=True)
    cmds, objs = [], []
    for i, s in enumerate(sources() + [harness, os.path.join(ROOT, 'harness/zk_native.cc')]):
        o = os.path.join(nb, '%d.o' % i)
        objs.append(o)
        cmds.append(['clang++'] + NATFLAGS + (['-DZK_THOROUGH'] if thorough else []) + [s, '-o', o])
    cmds = cmds[-2:] + cmds[:-2]
    run_many(cmds)
    run_many([['clang++', '-fsanitize=address,shift-exponent', '-rdynamic', '-o', exe] + objs + ['-lsquish', '-ldl', '-lpthread']])
    return exe


NATENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
              MALLOC_PERTURB_='165')


def native_replay(exe, name, inputs, work):
    f = os.path.join(work, 'in.%s.%d' % (name, os.getpid()))
    with open(f, 'w') as o:
        for lab, w, v in inputs:
            o.write('input %d %d %s\n' % (w, v, lab))
    try:
        p = subprocess.run([exe, 'replay', name, f], capture_output=True, timeout=90, env=NATENV)
    except subprocess.TimeoutExpired:
        return True, 'termination: replay does not finish within 90 s'
    out = p.stdout.decode('latin-1') + p.stderr.decode('latin-1')[:6000]
    return ('FAILED' in out or p.returncode not in (0, 3)), out


def native_search(exe, name, seed, secs, work):
    out = os.path.join(work, 'found.%s' % name)
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run([exe, 'search', name, str(seed), str(secs), out], capture_output=True, timeout=secs + 120, env=NATENV)
    except subprocess.TimeoutExpired:
        return None, 'search timed out'
    txt = p.stdout.decode('latin-1') + p.stderr.decode('latin-1')[:6000]
    if p.returncode != 0 and 'FAILED' in txt:
        return True, txt
    return False, txt.strip()[-300:]


MOD = None


def verify_one(job):
    entry, budget, opts = job
    import engine
    import models
    t = time.time()
    r = dict(entry=entry, failures=[], undecided=[], timeout=False, error=None)
    E = engine.Engine(MOD, dict(opts, ctors=MOD.ctors()))
    models.install(E)
    try:
        E.run(entry, max(budget, time.time() + 5))
    except TimeoutError:
        r['timeout'] = not E.failures
    except Exception as ex:
        r['error'] = '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    r.update(stats=E.stats, obl=E.obl, covers=E.covers, failures=E.failures, undecided=E.undecided[:40],
             n_undecided=len(E.undecided), bounded=sorted(E.bounded_notes), fns=sorted(E.fn_seen),
             models=sorted(E.assumed), wall=time.time() - t)
    return r


def verify_safe(job):
    try:
        return verify_one(job)
    except BaseException as ex:
        return dict(entry=job[0], failures=[], undecided=[], timeout=False, error=repr(ex), stats={}, obl={}, covers={},
                    n_undecided=0, bounded=[], fns=[], models=[], wall=0)


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')


def load_known():
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true', help='go on after the first reproduced violation')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = a.tier == 'thorough'
    budget = 3000 if thorough else 500
    harness = os.path.join(ROOT, 'harness', a.prop + '.cc')
    cfgf = os.path.join(ROOT, 'harness', a.prop + '.json')
    cfg = json.load(open(cfgf)) if os.path.exists(cfgf) else {}
    work = tempfile.mkdtemp(prefix='zkv.')
    try:
        return run(a, t0, seed, thorough, budget, harness, cfg, work)
    finally:
        if a.keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run(a, t0, seed, thorough, budget, harness, cfg, work):
    global MOD
    mod, entries = build_ir(work, harness, thorough)
    if a.only:
        entries = [e for e in entries if re.fullmatch('h_(' + a.only + ')', e)]
    import ir
    MOD = ir.Module(mod)
    t_build = time.time() - t0
    weights = cfg.get('weights', {})
    entries.sort(key=lambda e: -weights.get(e[2:], 0))
    jobs = [(e, t0 + budget, dict(cfg.get('opts', {}))) for e in entries]
    res = []
    end = t0 + budget
    known = known_for(a.prop)
    # Workers are forked by this (single-threaded) process, one per harness, and leave their result in a file.
    todo = list(jobs)
    pend = []
    stopped = False
    while (todo or pend) and not stopped:
        while todo and len(pend) < JOBS:
            j = todo.pop(0)
            out = os.path.join(work, 'res.' + j[0])
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    r = verify_safe(j)
                    with open(out + '.tmp', 'wb') as o:
                        pickle.dump(r, o)
                    os.rename(out + '.tmp', out)
                    code = 0
                finally:
                    os._exit(code)
            pend.append((j, pid, out))
        ready = []
        for x in pend:
            p, _ = os.waitpid(x[1], os.WNOHANG)
            if p:
                ready.append(x)
        if not ready:
            if time.time() > end + 15:
                break
            time.sleep(0.05)
            continue
        for x in ready:
            pend.remove(x)
            try:
                with open(x[2], 'rb') as o:
                    r = pickle.load(o)
            except Exception as ex:
                r = dict(entry=x[0][0], failures=[], undecided=[], timeout=True, error='worker ended: %r' % ex, stats={}, obl={},
                         covers={}, n_undecided=0, bounded=[], fns=[], models=[], wall=0)
            res.append(r)
            r['confirmed'], r['spurious'], r['known'] = [], [], []
            name = r['entry'][2:]
            for f in r['failures']:
                fk = next((k for k in known if k.get('harness') == name and k.get('obligation') == f['name']), None)
                if fk is not None:
                    r['known'].append(fk)
                    continue
                if any(c[0]['name'] == f['name'] for c in r['confirmed']):
                    continue
                bad, out = native_replay(build_native(work, harness, thorough), name, f['inputs'], work)
                if a.v:
                    print(("      FAIL %s %s replay %s %s %s" % (f["name"], f["detail"][:200], bad, f["inputs"][:8], f["stack"][-6:]))[:600])
                (r['confirmed'] if bad else r['spurious']).append((f, out))
            if r['confirmed'] and not a.all:
                stopped = True     # one reproduced violation settles the run
                break
    for x in pend:
        try:
            os.kill(x[1], signal.SIGKILL)
            os.waitpid(x[1], 0)
        except OSError:
            pass
    if not stopped:
        for j in [x[0] for x in pend] + todo:
            res.append(dict(entry=j[0], failures=[], undecided=[], timeout=True, error=None, stats={}, obl={}, covers={},
                            n_undecided=0, bounded=[], fns=[], models=[], wall=0))
    res.sort(key=lambda r: r['entry'])
    return report(a, t0, t_build, seed, thorough, harness, cfg, work, res, stopped)


def known_for(prop):
    return [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']


def report(a, t0, t_build, seed, thorough, harness, cfg, work, res, stopped):
    prop = a.prop
    known = known_for(prop)
    viol = []
    notes = []
    bounded = []
    obligations = discharged = 0
    solver = 0.0
    fns = set()
    assumed = set()
    tot = dict(paths=0, queries=0, insts=0)
    proved_h, undecided_h = [], []
    rdir = os.path.join(ROOT, 'replays', prop)
    known_hit = []
    end_search = t0 + (3400 if thorough else 840)
    need_search = []
    spurious = []
    for r in res:
        name = r['entry'][2:]
        st = r.get('stats') or {}
        solver += st.get('solver_s', 0)
        for k in tot:
            tot[k] += st.get(k, 0)
        fns |= set(r['fns'])
        assumed |= set(r['models'])
        o = sum(v[0] for v in r['obl'].values())
        d = sum(v[1] for v in r['obl'].values())
        obligations += o
        discharged += d
        for b in r['bounded']:
            bounded.append('%s: %s' % (name, b))
        if a.v:
            print('  %-34s %6.1fs obl %d/%d paths %s und %d fail %d%s' % (
                name, r['wall'], d, o, st.get('paths'), r['n_undecided'], len(r['failures']),
                ' TIMEOUT' if r['timeout'] else ''))
            for u in r['undecided'][:4]:
                print('      und', u[:300])
            if r['error']:
                print('      err', r['error'])
        ok = not r['failures'] and not r['undecided'] and not r['timeout'] and not r['error'] and o > 0 and 'end' in r['covers']
        if ok and not r['bounded']:
            proved_h.append(name)
            continue
        for k in r.get('known', []):
            if k not in known_hit:
                known_hit.append(k)
        viol += [(name, f, out, True) for f, out in r.get('confirmed', [])]
        spurious += [(name, f, out) for f, out in r.get('spurious', [])]
        if not any(v[0] == name for v in viol):
            need_search.append((name, r))
    # obligations the verifier could not settle: bounded search on the real code
    for name, r in ([] if stopped else need_search):
        why = []
        if r['timeout']:
            why.append('time budget used up')
        if r['error']:
            why.append('internal error ' + r['error'].split('\n')[0])
        why += sorted(set(u.split('[')[0][:160] for u in r['undecided']))[:3]
        if not r['failures'] and r['bounded'] and not why:
            why = ['loop bound']
        if not why:
            why.append('no obligation reached' if not r['failures'] else 'counterexample not reproduced on the real code')
        if any(k.get('harness') == name for k in known_hit) and r['failures'] and not r['timeout'] and not r['error'] and not r['undecided']:
            continue
        nat = build_native(work, harness, thorough)
        left = end_search - time.time()
        secs = max(4, min(30, left / max(1, len(need_search))))
        found, txt = native_search(nat, name, seed, secs, work)
        if found:
            lab = re.search(r'FAILED \S+: (.*)', txt).group(1)
            fk = next((k for k in known if k.get('harness') == name and k.get('obligation') == lab), None)
            if fk is not None:
                if fk not in known_hit:
                    known_hit.append(fk)
            else:
                viol.append((name, dict(name=lab, detail='found by bounded search; verifier: ' + '; '.join(why),
                                        inputs=[], stack=[]), txt, True))
                continue
        undecided_h.append(dict(harness=name, reason='; '.join(why), bounded_check=txt[-200:]))
        # An obligation that is not discharged fails the proof.  Only running out of time or a loop bound is no verdict.
        if not r['timeout'] and (r['failures'] or r['undecided']) and not r['error'] and name not in cfg.get('expect_undecided', []):
            ff = [f for n, f, _ in spurious if n == name]
            if ff:
                f = dict(ff[0])
            else:
                f = dict(name=why[0], detail='the verifier does not discharge this obligation', inputs=[], stack=[])
            viol.append((name, f, txt, False))
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', k.get('obligation'))))
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
    for name, f, out, conf in viol:
        h = hashlib.sha1((name + f['name']).encode()).hexdigest()[:8]
        path = os.path.join(rdir, '%s-%s.txt' % (name, h))
        with open(path, 'w') as o:
            o.write('property %s\nharness %s (harness/%s.cc)\nfailed obligation: %s\n%s\n' % (prop, name, prop, f['name'], f['detail']))
            o.write('call stack: %s\n' % ' > '.join(demangle(f['stack'])) if f['stack'] else '')
            o.write('inputs:\n')
            for lab, w, v in f['inputs']:
                o.write('input %d %d %s\n' % (w, v, lab))
            o.write('\nrun of the real code on these inputs:\n%s\n' % out)
            o.write('\nreproduce: python3 %s/replay.py %s %s %s\n' % (ROOT, prop, name, path))
        print('failed obligation: %s in harness %s: %s' % (f['name'], name, f['detail']))
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'))
    wall = time.time() - t0
    dn = demangle(sorted(fns))
    under = sorted(fns)
    names = sorted(set(re.sub(r'\(.*', '', x) for x in demangle([f for f in under if re.match(r'_ZNK?6zenkit', f)]) if x))
    claims = cfg.get('claim', 'proof')
    ev = dict(
        property=prop, tier='thorough' if thorough else 'quick', seed=seed, level=cfg.get('level', 'proof'),
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd='python3 check.py %s --tier %s' % (prop, 'thorough' if thorough else 'quick'),
            trusted_base=['zkv/ (IR interpreter and VC generator of this framework)', 'clang 18 front end and its '
                          'function-local canonicalisation passes', 'z3 (bit-vectors, arrays, uninterpreted functions)',
                          'C/C++ run-time contracts in zkv/models.py, zkv/text.py and harness/rt.cc'],
            harnesses_proved=proved_h, harnesses_undecided=undecided_h, functions_under_contract=names,
            n_functions_under_contract=len(names), paths=tot['paths'], ir_instructions=tot['insts'],
            solver_queries=tot['queries'], solver_seconds=round(solver, 2), solver='z3', build_seconds=round(t_build, 1),
            bounds=cfg.get('bounds', []) + bounded,
            known_findings=[k.get('what') for k in known_hit],
            spurious_counterexamples=[dict(harness=n, obligation=f['name'], detail=f['detail'][:200]) for n, f, _ in spurious],
        ),
        assumptions=cfg.get('assumptions', []) + sorted(assumed) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as o:
            json.dump(ev, o, indent=1)
    print('%s: %d harnesses proved, %d undecided (bounded check instead), obligations %d/%d discharged, %d functions, '
          '%.1f s (solver %.1f s)' % (prop, len(proved_h), len(undecided_h), discharged, obligations, len(names), wall, solver))
    for u in undecided_h:
        print('  undecided: %s: %s | %s' % (u['harness'], u['reason'][:300], u['bounded_check']))
    # violations with a reproduced failing input stand for the run; bare proof failures are reported if there is none
    if any(v[3] for v in viol):
        lines = [l for l, v in zip(lines, viol) if v[3]]
    for l in lines:
        print(l)
    return 1 if lines else 0


COMMON_ASSUMPTIONS = [
    'C++ run-time and libc functions behave as modelled (memory allocation succeeds, exceptions unwind per the Itanium ABI, '
    'text conversion of numbers is inverse as documented in zkv/text.py)',
    'machine arithmetic is exact two-complement; floating point +,-,*,/ are uninterpreted functions unless a harness asks '
    'for exact IEEE semantics; comparisons and conversions are exact',
    'single-threaded execution; logging has no effect on results; the wall clock and environment are constant',
]


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ToolError as e:
        print('ERROR', e)
        sys.exit(2)
