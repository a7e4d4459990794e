#!/usr/bin/env python3
"""Decide one property of /repo by abstract interpretation of its LLVM IR.

usage: check.py PROPERTY [--tier quick|thorough]      (or VERIF_TIER)
       check.py --setup                                 build the analyser
Nothing of /repo is executed: its sources are compiled to LLVM IR, linked with
the drivers in harness/ and handed to the abstract interpreter (kai.cpp).
"""
import collections, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('KAI_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, HERE)
import jobs as J
import props as PR

NCPU = min(os.cpu_count() or 4, 8)
CFLAGS = ['-std=c99', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-DKRIPTO_UNIX',
          '-I' + os.path.join(REPO, 'include'), '-emit-llvm', '-c', '-w']


class Broken(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise Broken('%s failed:\n%s' % (' '.join(cmd[:3]), (p.stderr or p.stdout)[-3000:]))
    return p.stdout


def build_engine(name='kai'):
    src = os.path.join(HERE, name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read() + open(os.path.join(HERE, 'vn.h'), 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, name + '-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        fl = sh(['llvm-config-18', '--cppflags']).split()
        ld = sh(['llvm-config-18', '--ldflags']).split()
        tmp = out + '.%d' % os.getpid()
        sh(['clang++-18', '-O2', '-std=c++17', '-fno-rtti', '-w'] + fl + [src, '-o', tmp] + ld + ['-lLLVM-18'])
        os.replace(tmp, out)
    return out


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, 'lib', '**', '*.c'), recursive=True))
    if len(s) < 60:
        raise Broken('only %d library sources found under %s/lib' % (len(s), REPO))
    return s


def compile_ir(work, extra=(), tag='', harness=True, target=None):
    """every library source and every driver -> one linked module; target: byte order and compiler of another platform, with
    declarations of the C library of our own (nothing is linked or run)"""
    todo, common = [], list(CFLAGS)
    if target:
        res = sh(['clang-18', '-print-resource-dir']).strip()
        common += ['--target=' + target, '-ffreestanding', '-nostdinc', '-isystem', os.path.join(HERE, 'inc'), '-isystem', os.path.join(res, 'include'),
                   '-Wno-implicit-function-declaration', '-Wno-int-conversion']
    for f in lib_sources():
        todo.append((f, os.path.join(work, tag + 'L_' + os.path.relpath(f, os.path.join(REPO, 'lib')).replace('/', '_') + '.bc'), list(extra)))
    if harness:
        for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.c'))):
            todo.append((f, os.path.join(work, tag + 'H_' + os.path.basename(f) + '.bc'), []))

    def one(t):
        sh(['clang-18'] + common + t[2] + [t[0], '-o', t[1]])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, todo))
    allbc, out = os.path.join(work, tag + 'all.bc'), os.path.join(work, tag + 'lib.bc')
    sh(['llvm-link-18'] + [t[1] for t in todo] + ['-o', allbc])
    sh(['opt-18', '-passes=sroa,mem2reg', allbc, '-o', out])
    return out, todo


def run_jobs(kai, bc, lines, work, limit, vn=False):
    """analyse all jobs; returns (events, stats, functions, undecided)"""
    ev, st, fns, blocks, notes, undecided = {}, collections.Counter(), set(), set(), collections.defaultdict(set), []
    deadline = time.time() + limit

    def launch(ls, tmo):
        fd, jf = tempfile.mkstemp(dir=work)
        os.write(fd, ('\n'.join(ls) + '\n').encode()); os.close(fd)
        try:
            p = subprocess.run([kai, bc, jf] + (['vn'] if vn else []), capture_output=True, text=True, timeout=max(tmo, 1))
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return -1, '', 'time limit'
        finally:
            os.unlink(jf)

    def absorb(o):
        for l in o.split('\n'):
            if not l:
                continue
            d = json.loads(l)
            if 'ev' in d:
                k = (d['ev'], d['file'], d['line'], d['func'], d['detail'], d['ctx'].split(' ')[0])
                if k in ev:
                    ev[k]['count'] += d['count']
                else:
                    ev[k] = d
            elif 'stats' in d:
                for a, b in d['stats'].items():
                    st[a] = max(st[a], b) if a.startswith('lib_') else st[a] + b
            elif 'functions' in d:
                fns.update(d['functions'])
            elif 'blocks' in d:
                blocks.update(d['blocks'])
            elif 'note' in d:
                notes[d['note']].add(d['v'])

    n = min(len(lines), max(NCPU * 3, len(lines) // 40))
    chunks = [lines[i::n] for i in range(n)] if n else []
    retry = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for ls, (rc, o, e) in zip(chunks, ex.map(lambda c: launch(c, min(300, deadline - time.time())), chunks)):
            if rc == 0:
                absorb(o)
            else:
                retry += ls
        for l, (rc, o, e) in zip(retry, ex.map(lambda l: launch([l], min(40, deadline - time.time())), retry)):
            if rc == 0:
                absorb(o)
            else:
                undecided.append((l, (o or e).strip()[-200:]))
    return list(ev.values()), dict(st), fns, blocks, notes, undecided


def known(prop):
    """known findings of this property: (kind, file, regex on detail, text)"""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) kind=(\S+) file=(\S+) detail=/(.*)/ (.*)$', l.strip())
        if m and m.group(1) == prop:
            out.append(m.groups()[1:])
    return out


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if a == ['--setup']:
        print(build_engine(), build_engine('lens')); return 0
    prop = a[0]
    P = PR.PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='w_', dir=BUILD)
    try:
        r = PR.decide(prop, P, tier, work, sys.modules[__name__])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ks, viol, hits = known(prop), [], {}
    for e in r['events']:
        for k in ks:
            if k[0] == e['ev'] and k[1] == e['file'] and re.search(k[2], e['detail']):
                hits[k] = e
                break
        else:
            viol.append(e)
    for k in hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    cov = r['coverage']
    cov['known_findings_seen'] = len(hits)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P.get('level', 'other'),
          'coverage': cov, 'assumptions': PR.ASSUME + P.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s (%s): %s' % (prop, tier, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
    for l, why in r.get('undecided', []):
        print('UNDECIDED %s: %s' % (l, why))
    if viol:
        rp = os.path.join(VERIF, 'evidence', 'replay_' + prop + '.json')
        json.dump(viol, open(rp, 'w'), indent=1)
        for e in viol[:40]:
            print('  %s:%s %s(): %s: %s [%s]' % (e['file'], e['line'], e['func'], e['ev'], e['detail'], e['ctx']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if r.get('broken'):
        raise Broken(r['broken'])
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('ANALYSIS BROKEN: %s' % e)
        sys.exit(2)
