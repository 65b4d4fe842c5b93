#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]     decide one property on /repo's current tree
   check.py --replay <file>                        run a recorded counterexample on the real code

The contracts live in kani/src (see DESIGN.md).  Every run copies that crate to a scratch
directory, generates the property's obligations (plans.py), compiles them together with
/repo's current sources with Kani, and has CBMC discharge every obligation.
exit 0: every obligation discharged; 1: VIOLATION (an obligation of the contracts fails);
2: no answer (does not compile, tool failure, resource limit, unwinding bound exceeded)."""
import sys, os, json, subprocess, tempfile, shutil, time, re, hashlib, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plans
KANI = os.environ.get('KANI_HOME_DIR') or next((p for p in (os.path.expanduser('~/.kani/kani-0.68.0'), '/root/.kani/kani-0.68.0') if os.path.isdir(p)), None)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEADLINE = None

class NoAnswer(Exception):
    pass

def left():
    return max(5, DEADLINE - time.time())

def run(cmd, cwd=None, env=None, log=None, ok=(0,)):
    """runs a tool; its output goes to a file, because it can be large"""
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        rc = None
        while rc is None and time.time() < DEADLINE:      # (the deadline can move while this runs)
            try:
                rc = p.wait(timeout=min(5, max(0.1, DEADLINE - time.time())))
            except subprocess.TimeoutExpired:
                pass
        if rc is None:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
            raise NoAnswer('out of time: %s' % ' '.join(cmd)[:200])
    if ok is not None and rc not in ok:
        t = open(log, errors='replace').read()
        errs = [l for l in t.splitlines() if l.startswith('error') or ' error: ' in l]
        raise NoAnswer('%s failed (%s):\n%s\n%s' % (os.path.basename(cmd[0]), rc, '\n'.join(errs[:20]), t[-1500:]))
    return rc

def env_offline():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    return e

def prepare(work, plan):
    """scratch copy of the contract crate with the property's obligations generated in"""
    crate = os.path.join(work, 'kani')
    shutil.copytree(os.path.join(HERE, 'kani'), crate, ignore=shutil.ignore_patterns('target'))
    toml = os.path.join(crate, 'Cargo.toml')
    t = open(toml).read()
    feats = plan.get('features')
    if feats:
        t = t.replace('default = []', 'default = [%s]' % ', '.join('"%s"' % f for f in feats))
    if REPO != '/repo':
        t = t.replace('"/repo', '"' + REPO)
    open(toml, 'w').write(t)
    open(os.path.join(crate, 'src', 'gen.rs'), 'w').write(gen(plan))
    return crate

def gen(plan):
    o = ['// generated by check.py', '#![allow(unused)]', 'use crate::contract::*;', 'use z80emu::z80::*;'] + plan.get('uses', [])
    names = []
    for g in plan['groups']:
        n = g['name']
        names.append(n)
        o.append('#[no_mangle] pub fn %s() {' % n)
        o.append(g.get('pre', ''))
        for s in g['stmts']:
            o.append(s)
        o.append('reached(); }')
    o.append('pub const GROUPS: &[(&str, fn())] = &[%s];' % ', '.join('("%s", %s as fn())' % (n, n) for n in names))
    o.append('#[cfg(kani)] #[kani::proof] fn root() { match kani::any::<u16>() { %s _ => {} } }' %
             ' '.join('%d => %s(),' % (i, n) for i, n in enumerate(names)))
    return '\n'.join(o) + '\n'

def compile_goto(work, crate, plan):
    cmd = ['cargo', 'kani', '--lib', '-Z', 'unstable-options', '--target-dir', os.path.join(work, 't'), '--no-assertion-reach-checks', '--only-codegen']
    run(cmd, cwd=crate, env=env_offline(), log=os.path.join(work, 'codegen.log'))
    log = open(os.path.join(work, 'codegen.log'), errors='replace').read()
    found = []
    for d, _, fs in os.walk(os.path.join(work, 't')):
        found += [os.path.join(d, f) for f in fs if f.endswith('root.symtab.out')]
    if len(found) != 1:
        raise NoAnswer('no goto program generated:\n' + log[-1500:])
    linked = os.path.join(work, 'linked.out')
    run([KANI + '/bin/goto-cc', found[0], KANI + '/library/kani/kani_lib.c', '-o', linked], log=os.path.join(work, 'link.log'))
    if plan.get('slim', True):
        tool = os.path.join(work, 'slimgoto')
        run(['rustc', '-O', '-o', tool, os.path.join(HERE, 'tools', 'slimgoto.rs')], log=os.path.join(work, 'rustc.log'))
        slim = os.path.join(work, 'slim.out')
        run([tool, linked, slim, '300'], log=os.path.join(work, 'slim.log'))
        return slim
    return linked

def flags(plan, g):
    f = ['--no-malloc-may-fail', '--object-bits', '16', '--unwind', str(g.get('unwind', plan.get('unwind', 14))), '--unwinding-assertions',
         '--sat-solver', g.get('solver', plan.get('solver', 'cadical'))]
    if plan.get('checks') == 'all':
        f += ['--no-undefined-shift-check', '--no-signed-overflow-check']   # Kani emits its own
    else:
        f += ['--no-standard-checks']
    return f + plan.get('cbmc', [])

def cbmc(goto, plan, g):
    return [KANI + '/bin/cbmc', goto, '--function', g['name'], '--drop-unused-functions'] + flags(plan, g)

WIDTH = {'bool': 1, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}
RESULT = re.compile(r'^\[(.*?\.\d+)\] (?:(line \d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')

def load(path):
    try:
        return json.load(open(path, errors='replace'))
    except Exception as e:
        raise NoAnswer('unreadable verifier output: %s' % e)

def verify(work, goto, plan, g):
    n = g['name']
    if time.time() > DEADLINE: raise NoAnswer('out of time before %s' % n)
    d = os.path.join(work, n); os.mkdir(d)
    o = os.path.join(d, 'o.txt')
    t0 = time.time()
    run(cbmc(goto, plan, g) + ['--slice-formula', '--verbosity', '8'], log=o, ok=(0, 10))
    res, times = [], {'symex': 0.0, 'solver': 0.0, 'convert': 0.0}
    vcc = total = 0
    loc = part = ''
    for l in open(o, errors='replace'):
        l = part + l.rstrip('\n')
        m = RESULT.match(l)
        part = l + ' ' if l.startswith('[') and not m else ''
        if m:
            res.append({'property': m.group(1), 'description': m.group(3), 'status': m.group(4), 'sourceLocation': '%s %s' % (loc, m.group(2) or '')})
            continue
        x = re.match(r'\S.* function \S', l)
        if x: loc = l
        x = re.match(r'\*\* (\d+) of (\d+) failed', l)
        if x: total = int(x.group(2))
        for k, p in (('symex', r'Runtime Symex: ([\d.e+-]+)s'), ('solver', r'Runtime Solver: ([\d.e+-]+)s'), ('convert', r'Runtime Convert SSA: ([\d.e+-]+)s')):
            x = re.match(p, l)
            if x: times[k] += float(x.group(1))
        x = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', l)
        if x: vcc = int(x.group(1))
    if not res or len(res) != total:
        raise NoAnswer('%s: incomplete result from the verifier (%d of %d)' % (n, len(res), total))
    out = {'name': n, 'goto': goto, 'g': g, 'fails': [], 'bad': [], 'props': len(res), 'vcc': vcc, 'covers': 0, 'obls': set(),
           'wall': time.time() - t0, **times}
    for r in res:
        p, desc, st = r['property'], r['description'], r['status']
        if '.cover.' in p:
            if st == 'FAILURE': out['covers'] += 1
            else: out['bad'].append('precondition unsatisfiable: %s %s' % (p, desc))
        elif 'OBL ' in desc:
            out['obls'].add(desc.strip('"'))
            if st == 'FAILURE': out['fails'].append((p, desc.strip('"'), r.get('sourceLocation', {})))
            elif st != 'SUCCESS': out['bad'].append('%s: %s' % (p, st))
        elif st == 'SUCCESS' or 'reachability_check' in p:
            pass
        elif '.unwind.' in p:
            out['bad'].append('a loop exceeds the unwinding bound: %s' % p)
        elif 'unsupported' in p or desc.strip() == 'assertion' or 'unsupported' in desc or 'missing_definition' in p or 'sanity_check' in p:
            out['bad'].append('outside the verifier\'s reach: %s %s' % (p, desc))
        elif st == 'FAILURE':
            out['fails'].append((p, 'no panic, no undefined behaviour: ' + desc.strip('"'), r.get('sourceLocation', {})))
        else:
            out['bad'].append('%s: %s' % (p, st))
    if out['covers'] == 0:
        out['bad'].append('%s: no reachability witness' % n)
    if not out['fails'] and not out['bad']:
        shutil.rmtree(d)
    return out

def trace_inputs(work, plan, r, prop):
    """the verifier's counterexample: the arbitrary values in the order they were drawn"""
    o = os.path.join(work, r['name'], 'trace.json')
    run(cbmc(r['goto'], plan, r['g']) + ['--slice-formula', '--property', prop, '--trace', '--json-ui'], log=o, ok=(0, 10))
    for m in load(o):
        for x in m.get('result', []):
            if x['property'] == prop and x.get('trace'):
                vals = []       # a value that has no influence is sliced away: the call remains, zero stands for it
                for t in x['trace']:
                    lhs = t.get('lhs', '')
                    if t.get('stepType') == 'function-call':
                        d = re.search(r'any_raw_internal::<(\w+)>', t['function'].get('displayName', ''))
                        if d:
                            if d.group(1) not in WIDTH: return None
                            vals.append([0] * WIDTH[d.group(1)])
                    elif t.get('stepType') == 'assignment' and lhs.startswith('goto_symex$$return_value$$') and 'any_raw_internal' in lhs:
                        b = t['value'].get('binary')
                        if b is None or not vals: return None
                        vals[-1] = list(int(b, 2).to_bytes(len(b) // 8, 'little'))
                return vals
    return None

def build_native(work, crate):
    run(['cargo', 'build', '--release', '--offline', '--bin', 'replay', '--target-dir', os.path.join(work, 'n')], cwd=crate, env=env_offline(), log=os.path.join(work, 'native.log'))
    return os.path.join(work, 'n', 'release', 'replay')

def replay_native(binary, group, vals, log):
    with open(log + '.in', 'w') as f:
        json.dump(vals, f)
    try:
        p = subprocess.run([binary, group, ';'.join(','.join(map(str, v)) for v in vals)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return True, 'the real code does not terminate within 120 s on this input'
    return p.returncode == 1, p.stdout

def known(pid):
    try:
        return [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == pid]
    except FileNotFoundError:
        return []

def check(pid, tier):
    global DEADLINE
    t0 = time.time()
    DEADLINE = t0 + (float(os.environ.get('VERIF_DEADLINE', '0')) or (860 if tier == 'quick' else 7200))
    if KANI is None: raise NoAnswer('Kani is not installed')
    plan = plans.plan(pid, tier)
    if os.environ.get('VERIF_ONLY'):        # for development: never used by a registered command
        plan['groups'] = [g for g in plan['groups'] if re.search(os.environ['VERIF_ONLY'], ' '.join(g.get('labels', [])))]
    work = tempfile.mkdtemp(prefix='z80v-')
    try:
        return decide(pid, tier, plan, work, t0)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)

def decide(pid, tier, plan, work, t0):
    global DEADLINE
    crate = prepare(work, plan)
    goto = compile_goto(work, crate, plan)
    t_compile = time.time() - t0
    results, unknown = [], []
    end, cut = DEADLINE, False
    with ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(verify, work, goto, plan, g) for g in sorted(plan['groups'], key=lambda g: -len(g['stmts']) * g.get('weight', 1))]
        for f in as_completed(fs):
            try:
                r = f.result()
            except NoAnswer as e:
                unknown.append(str(e))
                continue
            results.append(r)
            if r['fails'] and not cut:      # the verdict is settled: the rest only adds to the report
                cut = True
                DEADLINE = min(DEADLINE, time.time() + 60)
            if os.environ.get('VERIF_PROFILE'):
                print('%s %d obl wall %.1f symex %.1f convert %.1f solver %.1f  %s' % (r['name'], plans.count(r['g']), r['wall'], r['symex'], r['convert'], r['solver'], r['g'].get('labels', [''])[0]), flush=True)
    DEADLINE = end
    results.sort(key=lambda r: r['name'])
    fails = [(r, f) for r in results for f in r['fails']]
    bad = [b for r in results for b in r['bad']] + unknown
    rc = 0
    lines = []
    findings = []
    if fails:
        rc, lines = report(pid, plan, work, crate, fails)
    elif bad:
        raise NoAnswer('; '.join(bad[:5]))
    total = sum(plans.count(g) for g in plan['groups'])
    failed_groups = {r['name'] for r, _ in fails}
    done = sum(plans.count(r['g']) for r in results if r['name'] not in failed_groups)
    if total == 0:
        raise NoAnswer('no obligations generated')
    bounded = sum(plans.count(g) for g in plan['groups'] if g.get('bounded'))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': plan['level'],
        'coverage': {
            'obligations': total, 'discharged': done,
            'checker_cmd': 'python3 check.py %s --tier %s' % (pid, tier),
            'trusted_base': plans.TRUSTED + plan.get('trusted', []),
            'obligation_unit': 'one contract clause set of one operation for one instruction encoding and CPU flavour (all registers, flags, internal states and environment answers symbolic)' if not plan.get('unit') else plan['unit'],
            'bounded_obligations': bounded,
            'bounds': plan.get('bounds', []),
            'contract_clauses': sorted({plans.CLAUSE[a] for g in plan['groups'] for a in g.get('asp', [])} | {o for r in results for o in r['obls'] if not r['g'].get('asp')}),
            'functions_under_contract': plan['functions'],
            'verification_conditions': sum(r['vcc'] for r in results),
            'assertions_checked': sum(r['props'] for r in results),
            'reachability_witnesses': sum(r['covers'] for r in results),
            'harnesses': len(results),
            'back_end': 'Kani 0.68.0 codegen; CBMC 6.11.0 symbolic execution; SAT back end CaDiCaL',
            'symex_s': round(sum(r['symex'] for r in results), 1),
            'solver_s': round(sum(r['solver'] for r in results), 1),
            'verify_cpu_s': round(sum(r['wall'] for r in results), 1),
            'compile_s': round(t_compile, 1),
            'excluded': plan.get('excluded', []),
        },
        'assumptions': plans.ASSUMPTIONS + plan.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(lines),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print('%s: %d/%d obligations discharged, %.0f s' % (pid, done, total, time.time() - t0))
    return rc

def report(pid, plan, work, crate, fails):
    """replays each failing obligation's counterexample on the real code"""
    global DEADLINE
    end = DEADLINE
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, pid + '.json')
    rec = {'property': pid, 'failed_obligations': [], 'gen': gen(plan), 'features': plan.get('features', [])}
    try:
        native = build_native(work, crate)
    except NoAnswer as e:
        native = None
        rec['native_build_error'] = str(e)
    confirmed = False
    for r, (prop, desc, loc) in fails[:6]:
        item = {'harness': r['name'], 'verifier_property': prop, 'obligation': desc, 'at': loc,
                'encodings': r['g'].get('labels', [])}
        try:
            if not confirmed:
                DEADLINE = min(end, time.time() + 150)
                vals = trace_inputs(work, plan, r, prop)
                item['inputs'] = vals
                if vals is not None and native:
                    hit, text = replay_native(native, r['name'], vals, os.path.join(work, r['name'], 'replay'))
                    item['replay_on_real_code'] = text[-6000:]
                    item['reproduced'] = hit
                    confirmed = confirmed or hit
        except NoAnswer as e:
            item['trace_error'] = str(e)[-1000:]
        rec['failed_obligations'].append(item)
    rec['all_failed'] = ['%s: %s' % (r['name'], f[1]) for r, f in fails]
    rec['replay_command'] = 'python3 check.py --replay ' + path
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    for i in rec['failed_obligations']:
        print('failed obligation: %s in %s (%s)' % (i['obligation'], i['harness'], i['verifier_property']))
        if i.get('reproduced'):
            print(i['replay_on_real_code'][:1500])
    return 1, ['VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found')]

def do_replay(path):
    global DEADLINE
    DEADLINE = time.time() + 600
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix='z80v-')
    try:
        crate = prepare(work, {'groups': [], 'features': rec.get('features')})
        open(os.path.join(crate, 'src', 'gen.rs'), 'w').write(rec['gen'])
        b = build_native(work, crate)
        rc = 0
        for i in rec['failed_obligations']:
            if i.get('inputs') is None: continue
            hit, text = replay_native(b, i['harness'], i['inputs'], os.path.join(work, 'r'))
            print(text)
            rc = rc or int(hit)
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)

def setup():
    """sanity of the toolchain; nothing is built ahead: every check rebuilds from /repo"""
    if KANI is None: print('Kani is not installed'); return 1
    for c in ([KANI + '/bin/cbmc', '--version'], [KANI + '/bin/goto-cc', '--version'], ['cargo', 'kani', '--version'], ['rustc', '--version']):
        if subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT).returncode: print('does not run: %s' % c[0]); return 1
    print('ready')
    return 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == '--replay': return do_replay(a[1])
    if a[0] == '--setup': return setup()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    try:
        return check(a[0], tier)
    except NoAnswer as e:
        print('NO ANSWER for %s: %s' % (a[0], e))
        return 2

if __name__ == '__main__':
    sys.exit(main())
