#!/usr/bin/env python3
"""Driver of the deterministic simulator.

  check.py ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  check.py ID --replay FILE
  check.py --build

exit 0: the property held on everything explored
exit 1: a line "VIOLATION property=<id> replay=<path>" was printed
exit 2: error of the check itself
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
BUILD = os.path.join(HERE, 'build')
KNOWN = os.path.join(HERE, 'known_findings.txt')

# runs of the quick tier (all workers together); sized to about 10 s on 8 cores
QUICK = dict(C01=90000, C02=90000, C03=90000, C04=90000, C05=90000, C06=90000, C07=90000, C08=90000,
             C09=14000, C10=14000, C11=32000, C12=24000, C13=56000, C14=60000, C15=90000, C16=60000, C17=14000, C18=24000, C19=10000)
QUICK_CAP = 100.0          # seconds; only a backstop for slow machines
THOROUGH_WALL = 720.0      # seconds of exploration
RERUN = 16                 # every 16th run is executed twice

RULES = {
 'C01': "case = item types, prior target contents, bytes, device faults, allocation faults, exception mask, chunking drawn from the seed; non-trivial = a fault reached the extraction (stream failed or invalid number inside an item, exception, allocation failure); distinct by types x outcome x stream state x failing component",
 'C02': "case = one byte string and extraction sequence delivered under two schedules (reference: one contiguous buffer); always non-trivial; distinct by delivery x per-step outcome x length",
 'C03': "case = stream of records (intact, corrupted, hit by transient device failure) with extractions, plain reads, clears and skips; non-trivial = more than one item or a broken record; distinct by item types x outcomes x faults",
 'C04': "case = sequence of insertions with device faults at a byte and allocation faults; non-trivial = a short write, failing write or failed allocation reached the run; distinct by types x outcome x stream state x bytes lost",
 'C05': "case = history of manipulators, plain values and G3 insertions with faults; non-trivial = inserted after manipulators or failed part way; distinct by manipulators x types x format flags x outcome",
 'C06': "case = encoder calls with value, digit counts and failing allocations; non-trivial = an allocation inside the call failed; distinct by encoder x type x digits x failing allocations x outcome",
 'C07': "case = history of appends, syncs, write faults, crashes (lost, torn tails) and restarts on a simulated disk; non-trivial = a crash happened; distinct by history x record types x encoders x recovery",
 'C08': "case = insertions, extractions and enote calls under stream locales while the global locale is replaced between and inside calls; non-trivial = a foreign locale was in force or flipped mid-call; distinct by operation x type x locale x flip events",
 'C09': "case = 2-4 threads x operations over shared operands x explicit preemptions, or one thread stopped inside a call while another makes many; non-trivial = the scheduler switched threads inside calls; distinct by event hash (the whole interleaving) and call results",
 'C10': "case = 2-4 threads formatting and parsing on private streams x explicit preemptions, or one thread stopped inside a call while another makes many; non-trivial = the scheduler switched threads inside calls; distinct by event hash (the whole interleaving) and call results",
 'C11': "case = process life: pre-main constructors (fresh exec), threads racing for the first call, allocation failure inside the first call, exit handlers, static and thread-local destructors, for identity, constants and any operation; non-trivial = one of these happened; distinct by life x calls x interleaving",
 'C12': "case = history of calls with faults, clock jumps and changes of ambient state between and inside, chained results, repetitions; each result compared with the same call made first in a pristine process; non-trivial = more than one call; distinct by call sequence x which were hit",
 'C13': "case = dataflow program whose inputs fail to read or are overwritten by null in one component; non-trivial = a null operand reached an operation; distinct by program x taint",
 'C14': "case = operations run while every, from some point on or random allocations fail; non-trivial = an operation ran under failing allocation; distinct by operations x operand values",
 'C15': "case = operations on a stream whose device dies at a byte (EOF, error, exception) or was already failed; non-trivial = the device died inside or before a call; distinct by operations x types x states",
 'C16': "case = history of calls with faults, ambient state compared before and after each; always non-trivial; distinct by call sequence x faults x ambient configuration",
 'C17': "case = tree of calls: outer calls interrupted at given steps by algebra calls (single, in runs, in chains), or re-entered from their device at given requests by any call, up to several deep, some nested calls failing; non-trivial = a nested call ran; distinct by call tree x positions",
 'C19': "case = one or two threads that end (pthread_exit, cancellation) at a byte of the device of their insertion or extraction, other threads at work under preemption, later calls on the same stream and elsewhere; non-trivial = a call was cut short; distinct by calls x byte x outcome",
 'C18': "case = conversation of two simulated parties over bounded byte channels with fragmentation, stalls, party crashes, failing allocations and explicit preemptions; non-trivial = the parties alternated; distinct by event hash (the whole interleaving) and messages",
}
ASSUME = [
 "the simulator samples: a clean batch is evidence, not proof",
 "libstdc++ and libc are trusted and run uninstrumented; interleavings are decided at every instrumented access, atomic, lock, allocation, text copy, basic block and function entry of library code",
 "the library is compiled by g++ -std=c++17 -O0 with -fsanitize=thread call-outs from the working tree's headers and src/engabra.cpp",
 "streams have no field width set (width is consumed by the first insertion as the standard prescribes)",
]
ASSUME_P = {
 'C04': ["unitbuf combined with a badbit exception mask or a throwing device is excluded: the sentry destructor of libstdc++ terminates the process there"],
 'C07': ["values are limited to decimal exponents the two-digit text format can hold (|exp10| <= 300)"],
 'C08': ["io::fixed() follows the process-wide locale and is outside the claim"],
 'C13': ["comparison, validity, subscript and constant operations are not counted as computations; the direction argument of logG2/sqrtG2 counts as an operand only where it is used (negative scalars); a MultiVector counts as null when its components are"],
 'C17': ["an interrupting call is made between two instrumented steps of library code, not inside libstdc++ or libc; errno is saved and restored as a signal handler must"],
 'C19': ["threads end inside the device of their call, as a blocking read or write is a cancellation point; asynchronous cancellation at any instruction is undefined for C++ code"],
 'C18': ["channels never lose or reorder bytes (as pipes and TCP); each message ends with a newline or ' ;' and newline, and the sender flushes"],
 'C16': ["one-time caches of the standard library (locale facets) may stay on the heap after their first use; standard streams are in the classic locale"],
}
REAL = ["/repo/include/*.hpp (all public operations)", "/repo/src/engabra.cpp", "libstdc++ iostreams and locales", "pthreads (real threads, one released at a time)"]
STUB = ["stream devices (streambuf)", "disk", "operator new/delete arena", "TSan call-out runtime (scheduler, race detector)", "clock, randomness and synchronisation entry points (interposed)"]
HASHLESS = ('hang',)       # classes that end by the wall-clock watchdog: only the class has to reproduce


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), SIM):
        for d, dn, fn in os.walk(top):
            dn.sort()
            for f in sorted(fn):
                files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as s:
                h.update(s.read())
        except OSError:
            pass
    return h.hexdigest()[:16]


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        b = os.path.join(BUILD, tree_hash())
        exe = os.path.join(b, 'sim')
        if not os.path.exists(os.path.join(b, '.ok')):
            now = time.time()
            for e in os.listdir(BUILD):         # old builds
                p = os.path.join(BUILD, e)
                if re.fullmatch(r'[0-9a-f]{16}', e) and now - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            r = subprocess.run(['make', '-s', '-C', SIM, '-j8', 'B=' + b, 'REPO=' + REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                log(r.stdout[-4000:])
                log('build failed')
                sys.exit(2)
            open(os.path.join(b, '.ok'), 'w').close()
        os.utime(b)
    return exe


def replay(exe, path, timeout=200):
    """-> (class or 'none' or 'error', hash, msg)"""
    try:
        r = subprocess.run([exe, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return ('error', '', 'replay timed out')
    out = r.stdout.decode('utf-8', 'replace')
    m = re.search(r'RESULT class=(\S+) hash=(\S+) steps=\d+ msg=(.*)', out, re.S)
    if not m:
        return ('error', '', out.strip()[-300:])
    return (m.group(1), m.group(2), m.group(3).strip())


class Plan:
    def __init__(self, text):
        self.prop, self.cfg, self.items = '', {}, []
        for ln in text.split('\n'):
            if not ln.strip() or ln.startswith('#'):
                continue
            w = ln.split(' ')
            if w[0] == 'prop':
                self.prop = w[1]
            elif w[0] == 'set':
                self.cfg[w[1]] = ' '.join(w[2:])
            else:
                self.items.append(ln)

    def text(self, cfg=None, items=None):
        cfg = self.cfg if cfg is None else cfg
        items = self.items if items is None else items
        return 'prop %s\n' % self.prop + ''.join('set %s %s\n' % (k, v) for k, v in sorted(cfg.items())) + ''.join(i + '\n' for i in items)


def minimise(exe, text, cls, scratch, budget):
    """ddmin over item lines, then configuration keys, then numeric arguments; every candidate runs in a fresh process"""
    t_end = time.time() + budget
    tries = [0]
    p = Plan(text)

    def fails(cfg, items):
        if time.time() > t_end:
            return False
        tries[0] += 1
        f = os.path.join(scratch, 'cand.plan')
        with open(f, 'w') as o:
            o.write(p.text(cfg, items))
        return replay(exe, f)[0] == cls

    changed = True
    rounds = 0
    while changed and time.time() < t_end and rounds < 4:
        changed = False
        rounds += 1
        n = 2
        while len(p.items) >= 1 and time.time() < t_end:      # ddmin
            size = max(1, len(p.items) // n)
            cut = False
            i = len(p.items)
            while i > 0:
                lo = max(0, i - size)
                cand = p.items[:lo] + p.items[i:]
                if fails(p.cfg, cand):
                    p.items = cand
                    cut = changed = True
                i = lo
                if time.time() > t_end:
                    break
            if size == 1 and not cut:
                break
            if not cut:
                n = min(len(p.items), n * 2)
            elif size == 1:
                break
        for k in sorted(p.cfg):
            if k == 'seed':
                continue
            cand = {a: b for a, b in p.cfg.items() if a != k}
            if fails(cand, p.items):
                p.cfg = cand
                changed = True
        for i in range(len(p.items)):                         # simpler arguments
            w = p.items[i].split(' ')
            for j in range(1, len(w)):
                for simple in ('0', '1', '2'):
                    if w[j] == simple:
                        break
                    if not re.fullmatch(r'-?\d+|#[0-9a-f]{16}|-?\d+\.\d+', w[j]):
                        break
                    cand = p.items[:i] + [' '.join(w[:j] + [simple] + w[j + 1:])] + p.items[i + 1:]
                    if fails(p.cfg, cand):
                        w[j] = simple
                        p.items = cand
                        changed = True
                        break
                if time.time() > t_end:
                    break
    return p.text(), tries[0]


def known_entries(prop):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$', ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def run_replay(prop, path):
    exe = build()
    head = open(path).read()
    m = re.search(r'^# class=(\S+) hash=(\S+)', head, re.M)
    c, h, msg = replay(exe, path)
    print('replay of %s: class=%s hash=%s %s' % (path, c, h, msg))
    if c == 'error':
        sys.exit(2)
    if m:
        print('recorded:  class=%s hash=%s -> %s' % (m.group(1), m.group(2), 'reproduced exactly' if (c, h) == m.groups() else 'different on this tree'))
    if c == 'none':
        sys.exit(0)
    print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(path)))
    sys.exit(1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--build', action='store_true')
    a = ap.parse_args()
    if a.build:
        print(build())
        return 0
    if a.prop not in QUICK:
        log('unknown property', a.prop)
        return 2
    if a.replay:
        run_replay(a.prop, a.replay)
    t0 = time.time()
    exe = build()
    t_build = time.time() - t0
    quick = a.tier != 'thorough'
    total = a.runs or (QUICK[a.prop] if quick else 10 ** 9)
    cap = a.wall or (QUICK_CAP if quick else THOROUGH_WALL)
    work = os.path.join(BUILD, 'work-%s-%d' % (a.prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return explore(a, exe, work, quick, total, cap, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(a, exe, work, quick, total, cap, t0, t_build):
    prop, W = a.prop, a.workers
    procs = []
    for w in range(W):
        n = total // W + (1 if w < total % W else 0)
        out = os.path.join(work, 'w%d' % w)
        procs.append((out, subprocess.Popen([exe, 'batch', prop, str(a.seed), str(w), str(n), str(W), '0' if quick else '1', out, str(cap), str(RERUN)],
                                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    t1 = time.time()
    errors, viols, hashes, S, F, P, X, G, B = [], [], {}, {}, {}, {}, [], set(), set()
    for out, pr in procs:
        try:
            rc = pr.wait(timeout=max(5, cap + 180 - (time.time() - t1)))
        except subprocess.TimeoutExpired:
            pr.kill()
            errors.append('worker did not finish')
            continue
        if rc != 0:
            errors.append('worker exit %d' % rc)
        if not os.path.exists(out):
            errors.append('worker left no output')
            continue
        for ln in open(out, errors='replace'):
            ln = ln.rstrip('\n')
            k, _, rest = ln.partition(' ')
            if k == 'E':
                errors.append('harness error at run ' + rest)
            elif k == 'D':
                errors.append('run %s is not deterministic (second execution differs)' % rest)
            elif k == 'H':
                i, h, v = rest.split(' ')
                if v == '0' and (quick or int(i) < 200000):
                    hashes[int(i)] = h
            elif k == 'V':
                i, cls, h, pf, msg = (rest.split('\t') + [''] * 5)[:5]
                viols.append((int(i), cls, h, pf, msg))
            elif k == 'S':
                n, v = rest.split(' ')
                S[n] = S.get(n, 0) + int(v)
            elif k == 'F':
                c, r, name = rest.split(' ', 2)
                x = F.setdefault(name, [0, 0])
                x[0] += int(c)
                x[1] += int(r)
            elif k == 'P':
                c, name = rest.split(' ', 1)
                P[name] = P.get(name, 0) + int(c)
            elif k == 'X':
                X.append(rest)
            elif k == 'G':
                G.add(rest)
            elif k == 'B':
                B.add(rest)
    t_explore = time.time() - t1

    # fresh processes reproduce a sample of the runs exactly
    fresh = 0
    ok = sorted(hashes)
    for i in ok[::max(1, len(ok) // 12)][:12]:
        f = os.path.join(work, 'fresh.plan')
        r = subprocess.run([exe, 'plan', prop, str(a.seed), str(i), '0' if quick else '1'], stdout=subprocess.PIPE)
        with open(f, 'wb') as o:
            o.write(r.stdout)
        c, h, msg = replay(exe, f)
        fresh += 1
        if c != 'none' or h != hashes[i]:
            errors.append('run %d differs in a fresh process (%s %s, was %s)' % (i, c, h, hashes[i]))

    # violations: confirm, minimise, report; at most three classes
    known = known_entries(prop)
    reported, seen_known, unconfirmed = [], set(), []
    by_class = {}
    for v in sorted(viols):
        hit = next((k for k in known if k[0] == v[1] and k[1].search(v[4])), None)
        if hit:
            seen_known.add(hit[2])
        else:
            by_class.setdefault(v[1], []).append(v)
    shown = 0
    for cls, lst in sorted(by_class.items(), key=lambda kv: kv[1][0][0]):
        if shown >= 3 or (shown and time.time() - t0 > 240):
            break
        for idx, cls, h, pf, msg in lst[:4]:
            r1, r2 = replay(exe, pf), replay(exe, pf)
            if r1[0] != cls or r2[0] != cls or (cls not in HASHLESS and not (r1[1] == r2[1] == h)):
                unconfirmed.append('run %d (%s) did not reproduce: %s %s' % (idx, cls, r1[:2], r2[:2]))
                continue
            text, tries = minimise(exe, open(pf).read(), cls, work, 25 if quick else 60)
            fin = os.path.join(work, 'min.plan')
            with open(fin, 'w') as o:
                o.write(text)
            q1, q2 = replay(exe, fin), replay(exe, fin)
            if q1[0] != cls or q2[0] != cls or (cls not in HASHLESS and q1[1] != q2[1]):
                text = open(pf).read()
                q1 = r1
            hit = next((k for k in known if k[0] == cls and k[1].search(q1[2])), None)
            if hit:
                seen_known.add(hit[2])
                continue
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            path = os.path.join(HERE, 'replays', '%s-%s-%d-%d.plan' % (prop, re.sub(r'\W+', '_', cls), a.seed, idx))
            with open(path, 'w') as o:
                o.write('# property %s: %s\n# seed VERIF_SEED=%d run %d; minimised with %d replays\n# class=%s hash=%s\n# %s\n%s' % (
                    prop, cls, a.seed, idx, tries, cls, q1[1], q1[2].replace('\n', ' '), text))
            log('violation of %s, class %s: %s' % (prop, cls, q1[2]))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            reported.append({'class': cls, 'run': idx, 'message': q1[2], 'replay': path, 'minimised_items': len(Plan(text).items)})
            shown += 1
            break
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))

    blocks = [ln.split()[0] for ln in open(os.path.join(os.path.dirname(exe), 'blocks'))]
    runs, wall = S.get('runs', 0), time.time() - t0
    per_h = lambda n: int(n * 3600 / max(t_explore, 1e-3))
    ev = {
        'property': prop, 'tier': 'quick' if quick else 'thorough', 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs, 'distinct_nontrivial': len(G), 'nontrivial_runs': S.get('nontrivial', 0), 'rule': RULES[prop],
            'samples': X[:6],
            'simulated_runs_per_hour': per_h(runs), 'seeds_per_hour': per_h(runs), 'exploration_seconds': round(t_explore, 2), 'workers': W,
            'simulated_time_steps': S.get('steps', 0), 'library_calls': S.get('calls', 0), 'thread_switches': S.get('switches', 0),
            'simulated_time_unit': 'one library call-out (memory access, function entry, lock, allocation) or one device request',
            'library_code_blocks': {'reached': sum(b in B for b in blocks), 'of': len(blocks)},
            'faults_fired': {k: {'times': v[0], 'runs': v[1]} for k, v in sorted(F.items())},
            'probes': dict(sorted(P.items())),
            'runs_executed_twice_same_hash': S.get('reruns', 0), 'runs_replayed_in_fresh_process': fresh,
            'stopped_by_wall_cap': S.get('capped', 0) > 0,
            'components_real': REAL, 'components_stubbed': STUB,
        },
        'assumptions': ASSUME + ASSUME_P.get(prop, []), 'wall_s': round(wall, 2), 'violations': len(reported),
    }
    if reported:
        ev['coverage']['violations_found'] = reported
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as o:
        json.dump(ev, o, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    log('%s %s seed %d: %d runs (%d distinct non-trivial), %.1f s build, %.1f s exploration, %d violation(s)' % (prop, a.tier, a.seed, runs, len(G), t_build, t_explore, len(reported)))
    if reported:
        for e in errors + unconfirmed:
            log('note:', e)
        return 1
    if os.environ.get('SIM_BLOCKS'):        # development aid: what was reached
        with open(os.environ['SIM_BLOCKS'], 'a') as o:
            o.writelines(b + '\n' for b in sorted(B))
    if errors or unconfirmed:
        for e in errors + unconfirmed:
            log('error:', e)
        return 2
    if runs == 0 or not G:
        log('error: nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
