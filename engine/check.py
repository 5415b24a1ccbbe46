"""check.py ID TIER OUT_DUMP : decide one property on the dumped program."""
import sys, os, re, json, time, tarfile, hashlib, tempfile, shutil, threading, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'tools')]
sys.setrecursionlimit(200000)
threading.stack_size(1 << 30)

from props import PROPS, RING
import terms
from prog import Prog
import compare
from compare import Pair
import rules

SKIP = ('AnonConst', 'InlineConst', 'Closure')


def in_slice(sl, f, p):
    f = f.replace('crates/', '', 1)
    for e in sl:
        a, _, r = e.partition('::')
        if '.*' in a:
            if not re.match(a, f):
                continue
        elif not (f == a or (a.endswith('/') and f.startswith(a))):
            continue
        if r and not re.search(r, p):
            continue
        return True
    return False


def called_from(R, anchors, depth=2):
    """the functions of the program that the anchors call, directly or through `depth`-1 others"""
    seen, front = set(anchors), set(anchors)
    for _ in range(depth):
        front = {t for p in front for f in R.callees(p) for t in [R.resolve(f, R.bodies[p]['_pre'])]
                 if t in R.bodies and R.bodies[t]['k'] not in SKIP} - seen
        seen |= front
    return seen


def load_reference():
    d = tempfile.mkdtemp(prefix='cvref')
    try:
        with tarfile.open(os.path.join(VERIF, 'reference', 'program.tar.xz')) as t:
            t.extractall(d, filter='data')
        return Prog(d)
    finally:
        shutil.rmtree(d)


def known_findings(pid):
    out = {}
    fn = os.path.join(VERIF, 'known-findings.txt')
    for l in open(fn):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def key_of(*parts):
    return hashlib.md5('|'.join(parts).encode()).hexdigest()[:12]


def main(pid, tier, dump):
    t0 = time.time()
    P = {p['id']: p for p in PROPS}[pid]
    out = []          # (key, where, message)
    cov = {}
    undecided = {}
    R = load_reference()
    if dump is None:
        out.append((key_of(pid, 'build'), '/repo', 'the program does not build, nothing can be decided'))
        return finish(P, tier, out, cov, undecided, t0)
    C = Prog(dump)
    pr = Pair(R, C).run()

    # ---- agreement with the reviewed reference, on the slice
    own = P['slice']
    P['slice'] = own + RING.get(pid, [])
    fns = [p for p in R.fn_paths() if R.bodies[p]['k'] not in SKIP]
    called = called_from(R, [p for p in fns if in_slice(own, R.bodies[p]['file'], p)])
    ref_slice = [p for p in fns if p in called or in_slice(P['slice'], R.bodies[p]['file'], p)]
    cur_new = [p for p in pr.added if in_slice(P['slice'], C.bodies[p]['file'], p)]
    matched = [p for p in ref_slice if p in pr.r2c]
    changed = [p for p in matched if p in pr.verdict]
    for r in matched:
        if r in pr.findings:
            b = C.bodies[pr.r2c[r]]
            out.append((key_of(pid, 'agree', r), '%s:%d %s' % (b['file'], b['ln'], pr.r2c[r]),
                        'the function no longer computes what the reviewed program computes: ' + pr.findings[r]))
        elif r in pr.undecided:
            undecided[r] = pr.undecided[r]
    if 'errors' in P['rules']:
        # failures anywhere: the cases in which a function returns an error must be the reviewed ones
        sl = set(ref_slice)
        n = 0
        for r, text in pr.findings.items():
            if r in sl or r not in pr.r2c:
                continue
            n += 1
            w = compare.error_diff(*pr.verdict[r][1:3])
            if w:
                b = C.bodies[pr.r2c[r]]
                out.append((key_of(pid, 'fails', r), '%s:%d %s' % (b['file'], b['ln'], pr.r2c[r]), w))
        cov['error_cases_compared_outside_slice'] = n
    for p, (where, msg) in sorted(pr.structural(lambda f, q: in_slice(P['slice'], f, q)).items()):
        out.append((key_of(pid, 'struct', p), where, msg))
    cov.update(functions_in_slice=len(ref_slice), functions_matched=len(matched), functions_with_changed_tree=len(changed),
               proved_equal_after_change=sum(1 for p in changed if p not in pr.findings and p not in pr.undecided),
               new_functions_in_slice=len(cur_new), undecided=len(undecided), value_graphs_built=pr.stats['nf'],
               call_sites_in_slice=sum(len(C.callees(pr.r2c[p])) for p in matched),
               crates=[list(c) for c in C.crates], functions_in_program=len(C.fn_paths()))
    core = [p for p in matched if in_slice(own, R.bodies[p]['file'], p)]
    cov['functions_in_anchors'] = len(core)
    if len(core) < P['floor']:
        out.append((key_of(pid, 'floor'), ', '.join(own[:2]), 'only %d of at least %d functions of the anchors are left to analyse' % (len(core), P['floor'])))
    if tier == 'thorough':
        n = 0
        for p in matched:
            if p in pr.verdict or re.search(r'FromArgMatches', p):
                continue
            v, a, b, _ = pr.equal(p, frozenset())
            n += 1
            if v is False:
                out.append((key_of(pid, 'graph', p), p, 'unchanged tree with a different value graph: ' + compare.first_diff(a, b)))
            pr.memo.clear()
        cov['value_graphs_recomputed'] = n

    # ---- rules on the current program
    rs = {}
    for name in P['rules']:
        rep = rules.Report(C, R, pr)
        fn = rules.RULES.get(name)
        if fn is None:
            continue
        try:
            fn(rep)
        except rules.Missing as e:
            rep.bad('anchor', str(e), 'anchor of the rule is gone: %s' % e)
        rs[name] = dict(instances=rep.n, obligations=rep.obl, samples=rep.samples[:5])
        for k, where, msg in rep.violations:
            out.append((key_of(pid, name, k), where, '[%s] %s' % (name, msg)))
    cov['rules'] = rs
    return finish(P, tier, out, cov, undecided, t0)


def finish(P, tier, out, cov, undecided, t0):
    pid = P['id']
    known = known_findings(pid)
    viol = []
    seen = set()
    for k, where, msg in out:
        if k in known:
            if k not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
        elif k not in seen:
            viol.append((k, where, msg))
        seen.add(k)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    rp = os.path.join(ev, 'replay', pid + '.txt')
    with open(rp, 'w') as f:
        for k, where, msg in viol:
            f.write('key=%s\n  at %s\n  %s\n' % (k, where, msg))
        for p, why in undecided.items():
            f.write('undecided (not reported): %s: %s\n' % (p, why))
        f.write('\nreplay: %s/check.sh %s %s\n' % (VERIF, pid, tier))
    c = dict(cov)
    c['explanation'] = ('Static: the type-checked program (THIR of every body of the workspace, from the current tree) is turned into value graphs. '
                        'Rule: each function the property rests on (its anchors and the code around them) computes the same value graph as in the reviewed '
                        'reference program, helpers inlined; tables, grammar and templates it reads are the reviewed ones. '
                        'The properties about failures also compare, everywhere else, the cases in which functions fail. Nothing is executed.')
    c['samples'] = sorted(undecided)[:3]
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=c,
                   wall_s=round(time.time() - t0 + float(os.environ.get('CV_DUMP_S', '0')), 1), violations=len(viol),
                   assumptions=['rustc type-checks and resolves calls correctly', 'models of std and itertools functions in engine/models.py',
                                'the reference program was reviewed by hand; defects found were repaired (known-findings.txt)']),
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    for k, where, msg in viol[:20]:
        print('  %s: %s' % (where, msg[:600]))
    print('%s %s: %s functions in slice, %s changed, %s undecided, %d violations' % (
        pid, tier, cov.get('functions_in_slice'), cov.get('functions_with_changed_tree'), cov.get('undecided'), len(viol)))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    rc = [2]

    def go():
        try:
            rc[0] = main(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None)
        except BaseException:
            traceback.print_exc()
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
