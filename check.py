#!/opt/veriftools/pyvenv/bin/python
"""Driver: decides one property of /repo's current tree by discharging the contracts in props/ with kvc,
then replays the executable contracts in harness/ against the compiled code.

  check.py ID [--tier quick|thorough] [--only-proof] [--only-harness]
"""
import argparse, glob, hashlib, importlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KVC_REPO', '/repo')
BUILD = os.environ.get('KVC_BUILD', os.path.join(VERIF, 'build'))
sys.path[:0] = [os.path.join(VERIF, 'kvc'), os.path.join(VERIF, 'props')]
KNP = REPO + '/knp'
GEN = BUILD + '/gen'
DEFS = ['-std=c++17', '-DSPDLOG_FMT_EXTERNAL', '-DFMT_SHARED', '-DSPDLOG_ACTIVE_LEVEL=6', '-DNDEBUG']
INC = ['-I%s/%s' % (KNP, x) for x in (
    'core-library/include', 'core-library/impl', 'neuron-traits-library/include', 'meta-library/include',
    'synapse-traits-library/include', 'base-framework/include', 'base-framework/impl',
    'backends/cpu/cpu-library/include', 'backends/cpu/cpu-library/impl', 'backends/cpu/thread_pool/include',
    'backends/cpu/cpu-devices/include', 'backends/cpu/cpu-single-threaded-backend/include',
    'backends/cpu/cpu-multi-threaded-backend/include')] + \
    ['-I' + GEN, '-I' + VERIF + '/harness', '-I' + KNP + '/..', '-isystem', '/usr/include/opencv4']
sys.setrecursionlimit(20000)

from registry import PROPS, UNITS, GROUPS  # noqa


def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


_tree = None


def tree_digest():
    """contents of every source and header under /repo/knp (and of the harness headers)."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        fs = []
        for base in (KNP, VERIF + '/harness', VERIF + '/kvc/roots'):
            for d, ds, ns in os.walk(base):
                if '/tests' in d or '/python-framework' in d:
                    continue
                fs += [os.path.join(d, n) for n in ns if n.endswith(('.h', '.hpp', '.fbs', '.in'))]
        for f in sorted(fs):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
        _tree = h.hexdigest()
    return _tree


def locked(path, make):
    """build `path` once (atomic rename)."""
    if os.path.exists(path):
        return
    tmp = '%s.%d.tmp' % (path, os.getpid())
    make(tmp)
    os.replace(tmp, path)


def gen_headers():
    """flatbuffers headers, generated from the .fbs files of the current tree."""
    os.makedirs(GEN + '/knp_gen_headers', exist_ok=True)
    fbs = sorted(glob.glob(KNP + '/core-library/impl/messaging/fbs/*.fbs'))
    r = sh(['flatc', '--cpp', '-o', GEN + '/knp_gen_headers'] + fbs)
    if r.returncode:
        raise RuntimeError('flatc: ' + r.stderr)


def build_dumper():
    src = VERIF + '/kvc/dumper.cpp'
    out = BUILD + '/kvc-dump-' + digest(open(src, 'rb').read())

    def make(tmp):
        r = sh(['clang++', '-std=c++17', '-O0', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'])
        if r.returncode:
            raise RuntimeError('dumper: ' + r.stderr[-2000:])
    locked(out, make)
    return out


def dump_unit(name):
    """extract the functions of one unit from the current tree; returns (path or None, error)."""
    u = UNITS[name]
    root = VERIF + '/kvc/roots/' + u['root']
    srcs = ''.join(open(f).read() for f in sorted(glob.glob(KNP + '/**/impl/**/*.cpp', recursive=True)))
    out = '%s/%s-%s.json' % (BUILD, name, digest(tree_digest(), srcs, open(root).read(), u['regex'],
                                                 open(VERIF + '/kvc/dumper.cpp').read()))
    err = []

    def make(tmp):
        r = sh([build_dumper(), tmp, u['regex'], REPO + '/', root, '--'] + DEFS + INC +
               ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + u.get('flags', []))
        if r.returncode or not os.path.exists(tmp):
            err.append((r.stderr or r.stdout)[-3000:])
            raise RuntimeError('dump failed')
    try:
        locked(out, make)
    except RuntimeError:
        return None, err
    return out, None


def build_harness(name, groups, san):
    """compile the harness and the listed source groups of the current tree; returns binary path."""
    flags = ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-w'] + (['-fsanitize=address'] if san else [])
    srcs = [VERIF + '/harness/%s.cpp' % name]
    libs = ['-lspdlog', '-lfmt', '-lzmq', '-lpthread', '-lboost_filesystem', '-ldl']
    for g in groups:
        for pat in GROUPS[g]['src']:
            srcs += [f for f in sorted(glob.glob(KNP + '/' + pat, recursive=True))
                     if not re.search(GROUPS[g].get('exclude', '^$'), f)]
        libs += GROUPS[g].get('libs', [])

    def comp(f):
        o = '%s/o-%s-%s.o' % (BUILD, os.path.basename(f)[:-4],
                              digest(f, open(f, 'rb').read(), tree_digest(), ' '.join(flags)))

        def make(tmp):
            r = sh(['g++'] + DEFS + flags + INC + ['-c', f, '-o', tmp])
            if r.returncode:
                raise RuntimeError('compile %s:\n%s' % (f, r.stderr[-4000:]))
        locked(o, make)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, srcs))
    out = '%s/h-%s-%s' % (BUILD, name, digest(*objs))

    def link(tmp):
        r = sh(['g++'] + flags + objs + ['-o', tmp] + libs)
        if r.returncode:
            raise RuntimeError('link: ' + r.stderr[-3000:])
    locked(out, link)
    return out


def run_harness(binary, pid, seed, scale):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=0:handle_abort=0')
    try:
        r = sh([binary, pid, '--seed', str(seed), '--scale', str(scale)], timeout=600 if scale <= 1 else 7200, env=env,
               cwd=BUILD, errors='replace')
        out, rc, err = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        rc, err = 124, 'time limit'
    res = dict(rc=rc, cases=re.findall(r'^CASE (\S+) runs=(\d+) ok=(\d)', out, re.M),
               fails=re.findall(r'^FAIL case=(\S+) index=(\d+) seed=(\d+) :: (.*)$', out, re.M),
               done='\nDONE' in '\n' + out, stderr=err[-4000:], out=out[-3000:])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only-proof', action='store_true')
    ap.add_argument('--only-harness', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    gen_headers()

    pool = ThreadPoolExecutor(4)
    hfut = None
    if cfg.get('harness') and not a.only_proof:
        hfut = pool.submit(build_harness, cfg['harness'], cfg.get('groups', ['core']), cfg.get('asan', True))
    # ---------------------------------------------------------------- proof
    v = None
    unit_errors = {}
    fns, obls = [], []
    if not a.only_harness:
        from vc import V, Program, STATS, Obl
        build_dumper()
        dumps = dict(zip(cfg['units'], ThreadPoolExecutor(8).map(dump_unit, cfg['units'])))
        progs = {}
        for n, (path, err) in dumps.items():
            if path is None:
                unit_errors[n] = err
            else:
                progs[n] = Program(path)
        v = V(progs, 240)
        v.tier = tier
        mod = importlib.import_module(cfg['module'])
        if not unit_errors:
            getattr(mod, cfg['fn'])(v)
        else:
            v.obls.append(Obl('(extraction)', 'extraction', 'undecided',
                              'the sources do not form an extractable unit: %s' % unit_errors))
        obls = v.obls
    t_proof = time.time() - t0
    # ---------------------------------------------------------------- executable contracts
    hres, herr = None, None
    if hfut:
        try:
            hb = hfut.result()
        except RuntimeError as e:
            herr = str(e)
        else:
            scale = cfg.get('thorough_scale', 10) if tier == 'thorough' else 1
            hres = run_harness(hb, pid, seed, scale)
    # ---------------------------------------------------------------- verdict
    known = json.load(open(VERIF + '/known_findings.json')) if os.path.exists(VERIF + '/known_findings.json') else []
    if isinstance(known, dict):
        known = known.get('findings', [])
    bounded = cfg.get('bounded', [])
    violations, bnd = [], []
    for o in obls:
        if o.status == 'proved':
            continue
        nm = '%s: %s' % (o.fn, o.label)
        if o.label == 'extraction' or o.label.startswith('access: ') or any(re.search(b, nm) for b in bounded):
            bnd.append(o)
        else:
            violations.append(o)
    if v is not None:
        for e in v.errors:
            print('ERROR in the contracts:', e)
    found = []
    if hres:
        for c, i, s, msg in hres['fails']:
            found.append(dict(case=c, index=int(i), seed=int(s), message=msg))
        if not hres['fails'] and (hres['rc'] != 0 or not hres['done']):
            found.append(dict(case='(run)', index=-1, seed=seed,
                              message='the run died: rc=%s %s' % (hres['rc'], hres['stderr'][-1500:] or hres['out'][-500:])))
        for f in found:
            if hres['stderr']:
                f['stderr'] = hres['stderr']
    quiet = []
    for f in list(found):
        for k in known:
            if k.get('property') == pid and k.get('status', 'known') == 'known' and k.get('case') == f['case'] \
                    and re.search(k.get('match', '.'), f['message']):
                quiet.append((k, f))
                found.remove(f)
                break
    for k in known:
        if k.get('property') == pid and k.get('status', 'known') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    code = 0
    if v is not None and v.errors:
        code = 2
    if herr:
        print('ERROR: the harness does not build against the current tree:\n' + herr)
        if not found and not violations:
            code = 2
    replay = None
    if found or violations:
        replay = '%s/evidence/replay-%s.json' % (VERIF, pid)
        json.dump(dict(
            property=pid, failed_obligations=[dict(function=o.fn, obligation=o.label, status=o.status,
                                                   verifier=o.detail) for o in violations],
            failing_inputs=found,
            how_to_replay='python check.py %s --only-harness (binary: harness/%s.cpp); one case: <binary> %s --case '
                          'CASE --index I --seed S' % (pid, cfg.get('harness'), pid)),
            open(replay, 'w'), indent=1, default=str)
        for f in found[:5]:
            print('failing input: case=%s index=%s seed=%s: %s' % (f['case'], f['index'], f['seed'], f['message'][:1500]))
        for o in violations[:8]:
            print('failed obligation: %s: %s [%s]' % (o.fn, o.label, o.status))
        code = 1
    n_ob = len(obls)
    n_ok = sum(o.status == 'proved' for o in obls)
    backends = {}
    for o in obls:
        for b in o.backend:
            backends[b] = backends.get(b, 0) + 1
    if obls:
        from vc import STATS
    from trusted import TRUSTED, ASSUME
    ev = dict(
        property=pid, tier=tier, seed=seed,
        level='proof' if n_ob and n_ok == n_ob and not v.errors else 'other',
        coverage=dict(
            obligations=n_ob, discharged=n_ok,
            checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
            trusted_base=TRUSTED + sorted('library model: ' + x for x in (v.used_lib if v else ())),
            explanation='Contracts discharged on the code extracted from /repo by clang on this run; the executable '
                        'contracts are run against the compiled code as a conformance test of the contracts.',
            functions_under_contract=[dict(function=f, seconds=t) for f, t in (v.functions if v else [])],
            functions_inlined_into_them=sorted(v.inlined) if v else [],
            back_ends=backends, solver=STATS if obls else {},
            obligations_by_function={f: sum(o.fn == f for o in obls) for f in {o.fn for o in obls}},
            bounded_stand_ins=[dict(function=o.fn, obligation=o.label, why=str(o.detail)[:400]) for o in bnd],
            undischarged=[dict(function=o.fn, obligation=o.label, status=o.status) for o in violations],
            reachability_checks=v.covers if v else 0,
            executable_contracts=[dict(case=c, runs=int(n), ok=k == '1') for c, n, k in (hres['cases'] if hres else [])],
            proof_seconds=round(t_proof, 1)),
        assumptions=ASSUME + sorted(v.assumed if v else ()) + cfg.get('assumptions', []),
        wall_s=round(time.time() - t0, 1), violations=len(found) + len(violations))
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged over %d functions, %d bounded, %s; %.1f s' % (
        pid, n_ok, n_ob, len(v.functions) if v else 0, len(bnd),
        'executable contracts: %s runs' % sum(int(n) for _, n, _ in hres['cases']) if hres else 'no executable contracts',
        time.time() - t0))
    if a.v:
        for o in obls:
            if o.status != 'proved':
                print('  ', o.status, o.fn, ':', o.label, '\n      ', str(o.detail)[:1200])
        print(hres and hres['cases'])
    for o in bnd:
        print('bounded stand-in: %s: %s (%s)' % (o.fn, o.label, str(o.detail)[:200].replace('\n', ' ')))
    if code == 1:
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if found else ' no-failing-input-found'))
    return code


if __name__ == '__main__':
    sys.exit(main())
