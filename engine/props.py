"""What each property means to the analyser: which drivers, which reports."""
import collections, os, re, subprocess
import jobs as J

ASSUME = [
 'lengths, round counts and iteration counts are the enumerated ones; all byte contents are abstract (every value)',
 'LLVM IR produced by clang 18 at -O0 (+ promotion of scalars to registers) has the meaning of the C source; x86-64 data layout',
 'libc functions behave as modelled in engine/kai.cpp (malloc, free, memcpy, memset, fopen, fread, log2, ...)',
]
MEM = ['oob_read', 'oob_write', 'null', 'wild']
LIFE = ['uaf', 'double_free', 'bad_free', 'leak']
BASE = ['block', 'hash', 'hash_all', 'hash_xof', 'mac', 'mac_all', 'mac_verify', 'stream', 'ae', 'kdf', 'pkcs7', 'memory', 'random']
RR = ['re_rounds']
RE = ['block_re', 'hash_re', 'mac_re', 'stream_re', 'ae_re']
ANY = BASE + RE + RR + ['hash_split', 'mac_split', 'stream_split', 'ae_split']


def ev(kinds, pred=None):
    ks = set(kinds)
    return lambda e: e['ev'] in ks and (pred is None or pred(e))


# other builds: target, definitions. Both lack the x86 rotations in assembler
VARIANTS = [('little', 'aarch64-unknown-linux-gnu', ['-DKRIPTO_LITTLE_ENDIAN']), ('big', 'powerpc64-unknown-linux-gnu', ['-DKRIPTO_BIG_ENDIAN'])]
PLAIN = [('big_plain', 'powerpc64-unknown-linux-gnu', []), ('little_plain', 'aarch64-unknown-linux-gnu', [])]

_rejectable = None


def rejects_rounds(e):
    """a job of group re_rounds asks for a number of rounds that the algorithm may reject by assertion"""
    global _rejectable
    if _rejectable is None:
        _rejectable = set()
        for t in ('quick', 'thorough'):
            for l in J.jobs(['re_rounds'], t, False):
                w = l.split()
                _rejectable.add(' '.join(w[:1] + w[2:]))
    return e['ctx'] in _rejectable


# groups: drivers analysed; match: which reports violate; faults: False/True/'only'; floor: least number of configurations
PROPS = {
 'M01': dict(groups=BASE + RE + RR, faults=False, match=ev(MEM), count='loads+stores'),
 'M02': dict(groups=BASE + RE + RR, faults=False, match=ev(LIFE), count='mallocs+frees'),
 'M03': dict(groups=ANY, faults='only', match=ev(MEM + LIFE + ['assert', 'abort', 'uninit'], lambda e: e['ev'] != 'assert' or not rejects_rounds(e)), extra=ev(['expect'], lambda e: 'allocation failure' in e['detail'] or 'short read' in e['detail']), count='faults'),
 'M04': dict(groups=BASE + RE + RR, faults=False, match=ev(['uninit', 'uninit_out']), count='loads'),
 'M05': dict(groups=BASE, faults=False, match=ev(['unwritten']), count='checks'),
 'M06': dict(groups=BASE, faults=False, match=ev(['const_write', 'ro_write']), count='stores'),
 'M07': dict(groups=['block', 'stream', 'ae'], faults=False, match=ev(['inplace', 'overlap']), count='loads+stores'),
 'M08': dict(groups=BASE + RE + RR + ['rounds'], faults=False, match=ev(['shift', 'div0', 'div0_may', 'vla0', 'alloc_huge', 'alloc_size', 'sovf']), count='insts'),
 'M09': dict(groups=BASE + ['rounds'], faults=False, match=ev(['align']), count='loads+stores'),
 'S01': dict(groups=BASE + RE + RR, faults=True, match=ev(['unwiped_free']), count='frees'),
 'S02': dict(groups=BASE, faults=False, match=ev(['unwiped_stack']), count='calls'),
 'S03': dict(groups=BASE, faults=False, match=ev(['elidable_wipe']), count='calls', lint=['wipe']),
 'S04': dict(groups=BASE, faults=False, match=ev(['secret_branch'], lambda e: not e['ctx'].startswith('drv_pkcs7')), count='branches'),
 'S05': dict(groups=BASE + ['hash_re', 'stream_re', 'ae_re'], faults=True, match=ev(['output', 'secret_output']), count='calls'),
 'S06': dict(groups=RE + RR + ['aged'], faults=False, match=ev(['nodep']), count='checks'),
 'S07': dict(groups=BASE, faults=False, match=ev(['global_write', 'global_read']), count='loads+stores', lint=['globals']),
 'C01': dict(vn=True, groups=['mac_verify', 'ae_peer', 'memory', 'memory_eq'], faults=False, match=ev(['dep', 'expect', 'secret_branch']), count='checks'),
 'C02': dict(vn=True, groups=RE + RR + ['aged'], faults=False, match=ev(['same', 'same_const']), count='checks'),
 'C03': dict(vn=True, groups=['hash_split', 'mac_split', 'stream_split', 'ae_split', 'hash_xof'], faults=False, match=ev(['same']), count='checks'),
 'C04': dict(vn=True, groups=['hash_all', 'mac_all'], faults=False, match=ev(['same']), count='checks'),
 'C05': dict(groups=['block', 'hash', 'mac', 'stream', 'ae', 'kdf'], faults=False, match=ev(['dep']), count='checks'),
 'C06': dict(vn=True, groups=['stream_xor', 'ae'], faults=False, match=ev(['deponly', 'same']), count='checks'),
 'C07': dict(vn=True, groups=['ae_peer'], faults=False, match=ev(['same', 'dep', 'expect']), count='checks'),
 'C08': dict(groups=BASE + RE, faults=False, match=ev(['assert', 'abort']), extra=ev(['expect'], lambda e: 'without an allocation failure' in e['detail']), count='configs'),
 'C09': dict(groups=['pkcs7'], faults=False, match=ev(['expect', 'unwritten', 'ro_write', 'assert', 'dep', 'deponly', 'same'] + MEM), count='checks'),
 'C10': dict(groups=['random'], faults=True, match=ev(['expect', 'unwritten', 'assert', 'dep', 'leak', 'double_free', 'uaf'] + MEM), count='checks'),
 'C11': dict(groups=['rounds', 're_rounds'], faults=True, match=ev(MEM + LIFE + ['uninit', 'uninit_out', 'unwritten', 'unwiped_free']), count='configs'),
 'C12': dict(groups=[], lint=['asserts']),
 'C13': dict(vn=True, groups=['hash_def'], faults=False, match=ev(['value', 'expect']), count='vn_proved+vn_open'),
 'C14': dict(vn=True, groups=['mac_def'], faults=False, match=ev(['value', 'expect']), count='vn_proved+vn_open'),
 'C15': dict(vn=True, groups=['mode_def'], faults=False, match=ev(['value', 'expect']), count='vn_proved+vn_open'),
 'C16': dict(vn=True, groups=['ae_def'], faults=False, match=ev(['value', 'expect']), count='vn_proved+vn_open'),
 'C17': dict(vn=True, groups=['kdf_def'], faults=False, match=ev(['value', 'expect']), count='vn_proved+vn_open'),
 'C18': dict(vn=True, groups=['block_inv'], faults=False, match=ev(['value', 'expect']), count='vn_proved+vn_open'),
 'C19': dict(vn=True, groups=['stream_def'], faults=False, match=ev(['value', 'expect']), count='vn_proved+vn_open'),
 'C21': dict(vn=True, groups=['long_def'], faults=False, match=ev(['value', 'expect', 'assert']), count='vn_proved+vn_open'),
 'C23': dict(vn=True, groups=['hash_def', 'mac_def', 'stream_def', 'block_def', 'mode_def', 'ae_def', 'kdf_def', 'block_inv'], faults=False, variants=VARIANTS,
             match=ev(['value', 'expect', 'shift', 'uninit', 'uninit_out', 'assert'] + MEM, lambda e: e['ev'] != 'assert' or not e['ctx'].startswith('drv_inverse')), count='vn_proved+vn_open'),
 'C22': dict(groups=[], lint=['lengths'], match=None, count=''),
 'C20': dict(vn=True, groups=['block_def'], faults=False, match=ev(['value', 'expect']), count='vn_proved+vn_open'),
}


def decide(prop, P, tier, work, ck):
    events, cov, und, broken = [], {}, [], None
    kai = ck.build_engine()
    if P.get('groups'):
        lines = list(J.jobs(P['groups'], tier, P.get('faults', False)))
        vs = P.get('variants') or [('', None, [])]
        if P.get('variants') and tier != 'quick':
            vs = vs + PLAIN
        evs, st, fns, blocks, notes, und, nunits = [], collections.Counter(), set(), set(), collections.defaultdict(set), [], 0
        for vname, target, flags in vs:
            bc, units = ck.compile_ir(work, flags, vname, target=target)
            e1, s1, f1, b1, n1, u1 = ck.run_jobs(kai, bc, lines, work, 800 // len(vs), bool(P.get('vn')))
            nunits += len([u for u in units if '/lib/' in u[0]])
            for e in e1:
                if vname:
                    e['detail'] += ' (build: %s)' % vname
            evs += e1; fns |= f1; blocks |= b1; und += u1
            for k, v in s1.items():
                st[k] = max(st[k], v) if k.startswith('lib_') else st[k] + v
            for k, v in n1.items():
                notes[k] |= set(('%s: %s' % (vname, x)) if vname else x for x in v)
        for e in evs:
            if P['match'](e) or ('extra' in P and P['extra'](e)):
                events.append(e)
        obl = sum(st.get(k, 0) for k in P['count'].split('+'))
        cov.update(explanation='abstract interpretation of the linked LLVM IR of every library source, one fixpoint per configuration; '
                   'obligations = %s examined by the rule; a report names the construct' % P['count'],
                   units=nunits, configurations=st.get('configs', 0), jobs=len(lines) * len(vs), builds=len(vs), obligations=obl,
                   library_functions=st.get('lib_functions', 0), library_functions_reached=len(fns), library_blocks=st.get('lib_blocks', 0),
                   library_blocks_reached=len(blocks), instructions_interpreted=st.get('insts', 0), undecided_branches=st.get('undecided', 0),
                   jobs_undecided=len(und), jobs_ended_by_assertion=len(notes.get('aborted', ())), rule=RULES.get(prop, prop), samples=lines[:3] + lines[-2:],
                   reports_of_other_rules=len(evs) - len(events))
        if P.get('vn'):
            cov.update(bytes_proved_equal=st.get('vn_proved', 0), bytes_proved_different=st.get('vn_refuted', 0), comparisons_left_open=st.get('vn_open', 0),
                       open_comparisons=sorted(notes.get('open', ()))[:40])
        if not obl:
            broken = 'no obligation was examined'
        if len(und) * 10 > len(lines) * len(vs):
            broken = '%d of %d configurations could not be analysed, e.g. %s' % (len(und), len(lines), und[0])
        if P.get('floor') and st.get('configs', 0) < P['floor']:
            broken = 'only %d configurations' % st.get('configs', 0)
    for l in P.get('lint', []):
        import lint
        e2, c2, b2 = getattr(lint, l)(work, ck)
        events += e2
        cov.update(c2)
        broken = broken or b2
    return dict(events=events, coverage=cov, undecided=und, broken=broken)


RULES = {}
