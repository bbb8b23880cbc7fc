#!/usr/bin/env python3
"""C27: the real code under AddressSanitizer, ThreadSanitizer and Miri.

c27.py build            builds the three variants of the monitors (used by setup.sh)
c27.py run [tier]       builds, runs the jobs, writes evidence/C27.json and prints the verdict
Only what a sanitizer or the interpreter reports decides; the verdicts of the monitors themselves do not count here.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
TGT = 'x86_64-unknown-linux-gnu'
OUT = f'{HERE}/harness/target'
TIER = os.environ.get('VERIF_TIER') or 'quick'
SEED = int(os.environ.get('VERIF_SEED') or 1)
BASE = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'MIRIFLAGS')}
BASE.update(HOME=os.environ.get('HOME', '/root'), CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')

ENVS = {
    'asan': dict(RUSTFLAGS='-Zsanitizer=address'),
    # (the inline assembler of parking_lot's lock elision is invisible to the race detector; see tsan-rustc.sh)
    'tsan': dict(RUSTFLAGS='-Zsanitizer=thread', RUSTC_WRAPPER=f'{HERE}/miri/tsan-rustc.sh'),
    'miri': dict(RUSTFLAGS='--cfg evmon_net -Ctarget-feature=+aes,+sha,+sse2,+sse3,+ssse3,+sse4.1',
                 MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks'),
}


def cargo(kind):
    c = ['cargo', '+nightly']
    if kind == 'miri':
        return c + ['miri', 'run', '-q', '--offline', '--features', 'realclock', '--manifest-path', f'{HERE}/miri/Cargo.toml', '--target-dir', f'{OUT}/miri']
    c += ['build', '--offline', '--features', 'realclock', '--manifest-path', f'{HERE}/harness/Cargo.toml', '--target', TGT, '--target-dir', f'{OUT}/{kind}']
    return c + (['-Zbuild-std'] if kind == 'tsan' else [])


def build(kinds=('miri', 'tsan', 'asan')):
    """Returns the output of what failed to build."""
    ps = []
    for k in kinds:
        cmd = cargo(k) + (['--', 'C27.none'] if k == 'miri' else [])
        ps.append((k, subprocess.Popen(cmd, env={**BASE, **ENVS[k]}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = ''
    for k, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            bad += f'--- {k}\n{out[-6000:]}\n'
    return bad


def jobs():
    thorough = TIER == 'thorough'
    miri = ['net', 'overlay', 'rldp', 'dht', 'channel', 'hostile', 'tl', 'peers', 'values', 'iter']
    asan = ['C05', 'C20', 'C23', 'C01', 'C21', 'C02', 'C26', 'C27.channel', 'C27.hostile', 'C27.rldp', 'C27.overlay', 'C27.dht', 'C27.values', 'C27.net', 'C27.peers']
    tsan = ['C11', 'C13', 'C25', 'C09', 'C07', 'C06', 'C27.peers', 'C27.net', 'C27.values', 'C27.rldp', 'C27.overlay', 'C27.dht']
    if thorough:
        more = ['C03', 'C04', 'C06', 'C09', 'C10', 'C11', 'C13', 'C15', 'C16', 'C17', 'C18', 'C19', 'C22', 'C24', 'C25']
        asan += [x for x in more if x not in asan]
        tsan += [x for x in more + ['C01', 'C02', 'C05', 'C20', 'C21', 'C23'] if x not in tsan]
    out = []
    for i, s in enumerate(miri):
        out.append(('miri', f'C27.{s}', SEED, ''))
        if thorough and s != 'iter':
            out += [('miri', f'C27.{s}', SEED * 1000 + j, '-Zmiri-tree-borrows' if j % 2 else '') for j in range(1, 4)]
    for i in range(max(len(asan), len(tsan))):
        out += [('tsan', tsan[i], SEED, '')] if i < len(tsan) else []
        out += [('asan', asan[i], SEED, '')] if i < len(asan) else []
    return out


class Job:
    def __init__(self, kind, what, seed, flags, root):
        self.kind, self.what, self.seed, self.flags = kind, what, seed, flags
        self.name = f'{kind}-{what}-{seed}'
        self.dir = f'{root}/{self.name}'
        os.makedirs(self.dir)
        self.rc = None
        self.late = False
        self.wall = 0

    def command(self):
        env = dict(ENVS[self.kind])
        env.pop('RUSTC_WRAPPER', None)
        if self.kind == 'miri':
            env['MIRIFLAGS'] += f' -Zmiri-seed={self.seed} {self.flags}'
            cmd = cargo('miri') + ['--', self.what]
        else:
            env.pop('RUSTFLAGS')
            cmd = [f'{OUT}/{self.kind}/{TGT}/debug/evmon', self.what]
        if self.kind == 'asan':
            env['ASAN_OPTIONS'] = f'detect_leaks=0:halt_on_error=1:exitcode=77:log_path={self.dir}/report'
        if self.kind == 'tsan':
            env['TSAN_OPTIONS'] = f'halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:suppressions={HERE}/miri/tsan.supp:log_path={self.dir}/report'
        env.update(EVMON_SLACK='1', VERIF_DIR=self.dir, VERIF_SEED=str(self.seed), VERIF_TIER='thorough' if TIER == 'thorough' and self.kind == 'miri' else 'quick')
        return cmd, env

    def run(self, limit):
        cmd, env = self.command()
        t = time.time()
        with open(f'{self.dir}/out', 'w') as o:
            p = subprocess.Popen(cmd, env={**BASE, **env}, stdout=o, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                self.rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                self.late = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        self.wall = time.time() - t

    def text(self):
        return open(f'{self.dir}/out', errors='replace').read()

    def evidence(self):
        try:
            return json.load(open(f'{self.dir}/evidence/{self.what}.json'))
        except (OSError, ValueError):
            return None

    def reports(self):
        """(counts, signature, text) of everything reported."""
        out = []
        logs = ''.join(open(f, errors='replace').read() for f in sorted(glob.glob(f'{self.dir}/report.*')))
        text = self.text()
        if self.kind == 'asan':
            for m in re.finditer(r'ERROR: AddressSanitizer: (\S+)[\s\S]*?(?=\n=====|\Z)', logs + text):
                out.append((True, f'asan/{m[1]}@{first(m[0])}', m[0]))
        if self.kind == 'tsan':
            for b in re.split(r'\n?={18}\n', logs):
                m = re.search(r'(?:WARNING|ERROR): ThreadSanitizer: (.*?) \(pid', b)
                if m:
                    mine = [s for s in stacks(b) if owner(s) == 'everscale_network']
                    out.append((bool(mine) or 'SEGV' in m[1], f'tsan/{m[1].replace(" ", "-")}@{first(b)}', b))
                elif 'ThreadSanitizer:DEADLYSIGNAL' in b:
                    out.append((True, 'tsan/deadly-signal', b))
        if self.kind == 'miri':
            m = re.search(r'error: Undefined Behavior: .*[\s\S]*?(?=\nerror: aborting|\Z)', text)
            if m:
                kind = 'data-race' if 'Data race' in m[0] else 'ub'
                out.append(('everscale_network' in m[0] or self.what == 'C27.iter', f'miri/{kind}@{first(m[0])}', m[0]))
        m = re.search(r'.*unsafe precondition\(s\) violated.*', text)
        if m:
            out.append((True, f'{self.kind}/precondition', m[0] + text[-1500:]))
        # (the interpreter itself ends with 1 when it gives up)
        if self.rc is not None and self.rc < 0 and -self.rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT) and not out:
            out.append((True, f'{self.kind}/signal-{-self.rc}', text[-3000:]))
        return out


def first(text):
    m = re.search(r'everscale_network::[\w:]+', text)
    return m[0] if m else '-'


def stacks(block):
    """The stacks of the two accesses of a race."""
    out, cur = [], None
    for line in block.splitlines():
        if re.match(r'  \S.*:$', line):
            cur = [] if re.search(r'(?i)\b(read|write) of size|atomic', line) else None
            if cur is not None:
                out.append(cur)
        elif cur is not None and re.match(r'\s+#\d+ ', line):
            cur.append(re.sub(r'^\s+#\d+ ', '', line))
    return out


def owner(stack):
    """The crate of the innermost function that is not plain library code."""
    for f in stack:
        m = re.match(r"[<&*(\[ ]*(?:mut |const |dyn )*([A-Za-z_]\w*)(?:\[[0-9a-f]+\])?::", f)
        if not m:
            continue
        if m[1] not in ('std', 'core', 'alloc', 'hashbrown', 'smallvec'):
            return m[1]
    return None


def main():
    bad = build()
    if bad:
        print(bad + 'build of the sanitized monitors failed')
        return 2
    start = time.time()
    root = tempfile.mkdtemp(prefix='evmon-c27-')
    known = [l.split('sig=')[1].split()[0] for l in open(f'{HERE}/known_findings.txt') if l.startswith('known: property=C27 ')]
    todo = [Job(*j, root) for j in jobs()]
    limit = 480 if TIER == 'quick' else 3000
    end = start + limit
    queue, lock, stop = list(todo), threading.Lock(), []

    def work():
        while True:
            with lock:
                if not queue or stop or time.time() > end:
                    return
                j = queue.pop(0)
            j.run(max(20, end - time.time()))
            if any(c and s not in known and j.what != 'C27.iter' for c, s, _ in j.reports()):
                stop.append(1)

    ts = [threading.Thread(target=work) for _ in range(min(8, os.cpu_count() or 4) + (TIER == 'quick'))]
    [t.start() for t in ts]
    [t.join() for t in ts]

    viol, seen, ignored, rows, fails = [], [], 0, [], []
    total = dict(asan=0, tsan=0, miri=0)
    distinct, done = 0, dict(asan=0, tsan=0, miri=0)
    observed = {}
    for j in todo:
        if j.wall == 0:
            continue
        reps = j.reports()
        for counts, sig, text in reps:
            if j.what == 'C27.iter':
                sig = 'iter-outlives-guard'
            if not counts:
                ignored += 1
            elif sig in known:
                seen.append((sig, text))
            else:
                viol.append((sig, text, j))
        e = j.evidence()
        n = e['coverage']['evaluations'] if e else 0
        if e:
            total[j.kind] += n
            distinct += e['coverage']['distinct_nontrivial']
            for k, v in e['coverage']['observed'].items():
                observed[f'{j.kind}_{k}'] = observed.get(f'{j.kind}_{k}', 0) + v
        if n:
            done[j.kind] += 1
        elif not reps:
            fails.append(f'{j.name}: ' + ('did not end in time' if j.late else f'no result (exit {j.rc})') + ' ' + '; '.join(re.findall(r'error: unsupported operation.*', j.text())[:1]))
        rows.append(dict(tool=j.kind, workload=j.what, seed=j.seed, flags=j.flags, cases=n, reports=len(reps), wall_s=round(j.wall, 1)))
    wall = time.time() - start
    observed.update({f'{k}_cases': v for k, v in total.items()}, **{f'{k}_jobs': v for k, v in done.items()}, reports_of_library_code_ignored=ignored)
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    ev = dict(property='C27', tier=TIER, seed=SEED, level='exploration',
              coverage=dict(evaluations=sum(total.values()), distinct_nontrivial=distinct,
                            rule='one case = one case of a workload (a datagram, call, query, transfer or broadcast processed by the real code) run under AddressSanitizer, ThreadSanitizer or Miri; distinct as counted by the workload itself, per tool',
                            samples=rows[:12], observed=observed),
              assumptions=['a race report counts if the innermost function of one access outside of std, core, alloc, hashbrown and smallvec belongs to everscale_network',
                           'Miri runs with datagrams passed in the process (--cfg evmon_net) and without C code'],
              wall_s=wall, jobs=rows, violations=len(viol), inconclusive=fails, known_findings_seen=sorted({s for s, _ in seen}))
    json.dump(ev, open(f'{HERE}/evidence/C27.json', 'w'), indent=1)
    print(f'C27: {sum(total.values())} cases ({total}), jobs {done}, {ignored} reports of library code ignored, {wall:.0f}s')
    for f in fails:
        print(f'note: {f}')
    for sig in sorted({s for s, _ in seen}):
        print(f'KNOWN-FINDING: property=C27 sig={sig} ' + next(t for s, t in seen if s == sig).splitlines()[0])
    code = 0
    if viol:
        os.makedirs(f'{HERE}/replays', exist_ok=True)
        path = f'{HERE}/replays/C27-{SEED}.json'
        json.dump(dict(property='C27', seed=SEED, tier=TIER, violations=[
            dict(sig=s, job=j.name, env=j.command()[1], command=j.command()[0], report=t[:6000]) for s, t, j in viol]), open(path, 'w'), indent=1)
        for s, t, j in viol[:5]:
            print(f'  violated {s} ({j.name}): ' + ' '.join(t.split())[:700])
        print(f'VIOLATION property=C27 replay={path}')
        code = 1
    elif min(done.values()) == 0 or sum(done.values()) < len(rows) * 0.7:
        print('INCONCLUSIVE property=C27 too few workloads gave a result')
        code = 2
    else:
        print('OK property=C27')
    if os.environ.get('EVMON_KEEP'):
        print(root)
    else:
        shutil.rmtree(root, ignore_errors=True)
    return code


if __name__ == '__main__':
    if sys.argv[1:] == ['build']:
        bad = build()
        print(bad, end='')
        sys.exit(1 if bad else 0)
    if len(sys.argv) > 2:
        TIER = sys.argv[2]
    sys.exit(main())
