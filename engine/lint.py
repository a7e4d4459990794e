"""Rules over the linked IR that need no fixpoint."""
import os, re


def _ll(work, ck, extra=(), tag='n', opt=None):
    bc, units = ck.compile_ir(work, extra, tag, harness=False)
    if opt:
        ck.sh(['opt-18', '-passes=' + opt, bc, '-o', bc + '.o'])
        bc += '.o'
    return ck.sh(['llvm-dis-18', bc, '-o', '-']), units


def _dbg(txt):
    """!N -> (line, scope), !N -> function/file tables of the debug info"""
    loc, sub, fil = {}, {}, {}
    for m in re.finditer(r'^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$', txt, re.M):
        n, k, b = m.groups()
        if k == 'DILocation':
            l = re.search(r'line: (\d+)', b); s = re.search(r'scope: !(\d+)', b)
            loc[n] = (int(l.group(1)) if l else 0, s.group(1) if s else '')
        elif k in ('DISubprogram', 'DILexicalBlock', 'DILexicalBlockFile'):
            f = re.search(r'file: !(\d+)', b); l = re.search(r'line: (\d+)', b)
            sub[n] = (f.group(1) if f else '', int(l.group(1)) if l else 0)
        elif k == 'DIFile':
            fil[n] = re.search(r'filename: "([^"]*)"', b).group(1)
    return loc, sub, fil


def _short(f):
    return f[f.index('lib/'):] if 'lib/' in f else f


def globals(work, ck):
    """every object with static storage in the library is constant"""
    txt, units = _ll(work, ck)
    ev, n = [], 0
    for m in re.finditer(r'^@([\w.$"-]+) = ([^\n]*)$', txt, re.M):
        name, rest = m.groups()
        if name.startswith('llvm.') or re.match(r'(external|extern_weak)\b', rest):
            continue
        n += 1
        kind = re.search(r'\b(global|constant)\b', rest).group(1)
        if kind == 'global':
            ev.append(dict(ev='mutable_global', file='lib', line=0, func=name, detail="object '%s' with static storage is writable: state shared by all users of the library" % name, ctx='-', count=1))
    return ev, dict(static_objects=n), None if n > 150 else 'only %d objects with static storage found' % n


def wipe(work, ck):
    """call sites of the wiping routine; its stores are volatile in the IR"""
    txt, units = _ll(work, ck, opt='sroa,mem2reg')
    n = len(re.findall(r'call void @kripto_memory_wipe\(', txt))
    m = re.search(r'^define [^\n]*@kripto_memory_wipe\(.*?^}', txt, re.M | re.S)
    if not m:
        return [], dict(wipe_call_sites=n), 'the wiping routine is gone'
    return [], dict(wipe_call_sites=n), None if n >= 100 else 'only %d wipes' % n


HDR = '''#undef assert
extern void kai_assert_begin(void) __attribute__((const, nothrow));
extern void kai_assert_end(int) __attribute__((const, nothrow));
#define assert(e) (kai_assert_begin(), kai_assert_end(!!(e)))
'''


def asserts(work, ck):
    """evaluating an assertion's condition changes nothing, so a release build behaves the same"""
    inc = os.path.join(work, 'inc')
    os.makedirs(inc, exist_ok=True)
    open(os.path.join(inc, 'assert.h'), 'w').write(HDR)
    txt, units = _ll(work, ck, ['-I' + inc], 'a', 'function(sroa,mem2reg)')
    # effect-free functions: no store, no indirect call, only calls of effect-free functions
    calls, impure = {}, set()
    for m in re.finditer(r'^define [^\n]*@([\w.]+)\([^\n]*\n(.*?)^}', txt, re.M | re.S):
        fn, body = m.groups()
        cs = {c for c in re.findall(r'\bcall [^@%\n]*?([@%][\w.]+)\(', body) if not c.startswith(('@llvm.dbg', '@kai_assert'))}
        calls[fn] = cs
        if re.search(r'^\s*(store |[^\n]*(atomicrmw|cmpxchg))', body, re.M) or any(c[0] == '%' for c in cs):
            impure.add(fn)
    while True:
        more = {f for f, cs in calls.items() if f not in impure and any(c[1:] in impure or c[1:] not in calls for c in cs)}
        if not more:
            break
        impure |= more
    pure = set(calls) - impure
    loc, sub, fil = _dbg(txt)
    ev, n = [], 0
    for m in re.finditer(r'^define [^\n]*@([\w.]+)\([^\n]*\n(.*?)^}', txt, re.M | re.S):
        fn, body = m.groups()
        inside = False
        for l in body.split('\n'):
            if '@kai_assert_begin(' in l:
                inside = True; n += 1
                continue
            if '@kai_assert_end(' in l:
                inside = False
                continue
            if not inside:
                continue
            bad = None
            if re.match(r'\s*store ', l) or re.match(r'\s*%?[\w.]*\s*=?\s*(atomicrmw|cmpxchg)', l):
                bad = 'stores to memory'
            c = re.search(r'\bcall [^@%]*(@[\w.]+|%[\w.]+)\(', l)
            if c and not c.group(1).startswith('@llvm.dbg'):
                if c.group(1)[1:] not in pure:
                    bad = 'calls %s, which is not free of side effects' % c.group(1)[1:]
            if bad:
                d = re.search(r'!dbg !(\d+)', l)
                line, sc = loc.get(d.group(1), (0, '')) if d else (0, '')
                f = _short(fil.get(sub.get(sc, ('', 0))[0], ''))
                ev.append(dict(ev='assert_effect', file=f, line=line, func=fn, detail='the condition of an assertion ' + bad, ctx='-', count=1))
    # values that escape only through an assertion: ++ on a register is a use after the assertion of a phi/add inside it
    for m in re.finditer(r'^define [^\n]*@([\w.]+)\([^\n]*\n(.*?)^}', txt, re.M | re.S):
        fn, body = m.groups()
        ins, inside, defs, spans = [], False, {}, []
        lines = body.split('\n')
        for i, l in enumerate(lines):
            if '@kai_assert_begin(' in l:
                inside = True
            elif '@kai_assert_end(' in l:
                inside = False
            elif inside:
                d = re.match(r'\s*(%[\w.]+) = ', l)
                if d:
                    defs[d.group(1)] = i
        if not defs:
            continue
        inside = False
        for i, l in enumerate(lines):
            if '@kai_assert_begin(' in l:
                inside = True
            elif '@kai_assert_end(' in l:
                inside = False
            elif not inside and not 'llvm.dbg' in l:
                for u in re.findall(r'%[\w.]+', l.split('=', 1)[-1]):
                    if u in defs and not l.strip().startswith('br ') and not re.match(r'^[\w.]+:', l):
                        ev.append(dict(ev='assert_effect', file='lib', line=0, func=fn, detail='a value computed inside the condition of an assertion is used after it', ctx='-', count=1))
                        break
    return ev, dict(explanation='library compiled with assert() expanding to markers; between the markers no store, no call of a function that can store (transitively), no value used later', units=len(units), obligations=n, rule='assertion conditions are free of side effects', samples=['assert sites: %d' % n]), None if n >= 100 else 'only %d assertions seen' % n


def lengths(work, ck):
    """no narrowing of a data length before it bounds work, no counter narrower than the length (lens.cpp)"""
    import json
    tool = ck.build_engine('lens')
    bc, units = ck.compile_ir(work, ['-O1', '-fno-finite-loops', '-fwrapv'], 'z', harness=False)
    ev, cov = [], {}
    for l in ck.sh([tool, bc]).split('\n'):
        d = json.loads(l) if l else {}
        if 'ev' in d:
            ev.append(d)
        else:
            cov.update(d)
    n = cov.get('length_parameters', 0)
    cov.update(explanation='value flow from every size_t parameter over the IR of every unit: conversions the value range does not justify, and what they reach (loop bounds, sizes examined, indexes, arguments, stored 64-bit values); counters compared with or indexing loops over lengths',
               units=len(units), obligations=cov.get('conversions', 0) + cov.get('loops', 0) + n, rule='a data length is never narrowed, and no counter over it is narrower', samples=['length parameters: %d' % n])
    return ev, cov, None if n >= 60 and cov.get('loops', 0) >= 30 else 'only %d length parameters seen' % n
