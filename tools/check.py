#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of properties.jsonl for the code in /repo:
  1. builds the harness against /repo's working tree,
  2. checks the design model (spec/) with TLC,
  3. lets the real code run many histories (random, exhaustive disturbance sweeps, histories generated from the
     model, regression histories) and validates every recorded history with TLC against the specification.
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: the check itself failed."""
import sys, os, re, json, time, random, shutil, subprocess, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import plan, mbt
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CHUNK = 8_000_000


class Err(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tlc(mod, cfg, env, meta, workers=2, mem='4g', args=(), timeout=800, spec=SPEC):
    e = dict(os.environ, **env)
    d = tempfile.mkdtemp(dir=meta)
    p = sh(['java', '-Xmx' + mem, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JAR, 'tlc2.TLC', '-config', cfg,
            '-metadir', d, '-noGenerateSpecTE', '-workers', str(workers), *args, mod + '.tla'], cwd=spec, env=e, timeout=timeout)
    shutil.rmtree(d, ignore_errors=True)
    return p.stdout + p.stderr


def counts(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    return (int(m[1]), int(m[2]), int(m[3])) if m else None


def build():
    t = time.time()
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never')
    p = sh(['cargo', 'build', '--offline', '--quiet', '--bins'], cwd=ROOT + '/harness', env=env)
    if p.returncode != 0:
        raise Err('harness does not build:\n' + p.stderr[-3000:])
    return time.time() - t


BIN = ROOT + '/harness/target/debug/noodle-harness'


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix='noodle-check-')
        self.viol = []      # (why, replay text)
        self.events = self.traces = self.tstates = 0
        self.mstates = self.mtrans = 0
        self.models = []
        self.samples = []
        self.prof = {}
        self.sim = {'behaviours': 0, 'states': 0, 'same': 0, 'different': 0}

    # ---- histories of the real code
    def gen(self, job):
        """job: (kind, name, args) -> path of recorded histories"""
        kind, name, a = job
        tag = hashlib.md5(repr(job).encode()).hexdigest()[:10]
        nd, scr = f'{self.dir}/{tag}.nd', f'{self.dir}/{tag}.scr'
        if kind == 'gen':
            prog = BIN
            seed, first, n = a
            cmd = [prog, 'gen', name, str(seed), str(first), str(n), nd, scr]
        elif kind == 'sim':
            seed, n, depth, kw = a
            name, exp = f'model {name}', f'{self.dir}/{tag}.exp'
            try:
                st, k = mbt.generate(seed, n, depth, scr, exp, 'sim' + tag, **kw)
            except RuntimeError as e:
                raise Err(str(e))
            self.sim['behaviours'] += k
            self.sim['states'] += st
            cmd = [BIN, 'run', scr, nd]
        else:
            prog, script = a
            scr = script
            cmd = [prog, 'run', script, nd]
        try:
            p = sh(cmd, timeout=400, cwd=self.dir)
        except subprocess.TimeoutExpired:
            raise Err('harness timed out: ' + ' '.join(cmd))
        if p.returncode != 0:
            # the code under test took the process down (endless loop, abort, memory error)
            hang = nd + '.hang'
            txt = open(hang).read() if os.path.exists(hang) else ''
            what = 'does not return' if txt else f'process ended with {p.returncode}: {p.stderr[-300:]}'
            done = open(nd).read().count('\n') if os.path.exists(nd) else 0
            self.viol.append((f'call {what}', txt or f'# {" ".join(cmd)}\n# ended after {done} histories\n'))
            if os.path.exists(nd):
                ls = [l for l in open(nd) if l.endswith(']}\n')]
                open(nd, 'w').writelines(ls)
        if kind == 'sim' and os.path.exists(nd):
            same, diff = mbt.compare(exp, nd)
            self.sim['same'] += same
            self.sim['different'] += len(diff)
        return nd, scr, name

    def chunk(self, files):
        out, cur, n = [], [], 0

        def flush():
            nonlocal cur, n
            if cur:
                p = f'{self.dir}/chunk{len(out)}.nd'
                with open(p, 'w') as f:
                    f.writelines(cur)
                out.append((p, sum(c.count('{"e":') + 1 for c in cur), len(cur)))
            cur, n = [], 0
        for f in files:
            for l in open(f):
                if n and n + len(l) > CHUNK:
                    flush()
                cur.append(l)
                n += len(l)
        flush()
        return out

    def validate(self, chunk, mod):
        path, want, ntr = chunk
        bad = []
        out = tlc(mod, mod + '.cfg', {'TRACES': path, 'LABEL': self.prop}, self.dir)
        found = re.findall(r'<<\s*"BAD",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)"', out)
        c = counts(out)
        if c is None or 'Error:' in out:
            # evaluation got stuck after something else went wrong: only look at histories up to their first violation
            if not found:
                out2 = tlc(mod, mod + '.cfg', {'TRACES': path, 'LABEL': 'any'}, self.dir)
                c2 = counts(out2)
                if c2 is None or 'Error:' in out2:
                    raise Err('TLC failed:\n' + out[-3000:])
                found2 = re.findall(r'<<\s*"BAD",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*\{([^}]*)\}', out2)
                found = [f[:3] for f in found2 if f'"{self.prop}"' in f[3]]
                if not found2:
                    raise Err('TLC failed:\n' + out[-3000:])
                c = c2
            else:
                c = c or (0, 0, 0)
        elif not found and c[1] != want:
            raise Err(f'TLC saw {c[1]} states of {want} in {path}')
        self.tstates += c[1]
        return found, ntr, want - ntr

    def histories(self, jobs, mod='Trace'):
        with ThreadPoolExecutor(8) as ex:
            done = list(ex.map(self.gen, jobs))
        files = []
        for nd, scr, name in done:
            if not os.path.exists(nd):
                continue
            files.append(nd)
            self.prof[name] = self.prof.get(name, 0) + sum(1 for _ in open(nd))
            if len(self.samples) < 2:
                with open(nd) as f:
                    l = f.readline()
                    if l:
                        self.samples.append(l[:1500])
        scrs = [s for _, s, _ in done]
        chunks = self.chunk(files)
        found = []
        with ThreadPoolExecutor(4) as ex:
            for f, ntr, nev in ex.map(lambda c: self.validate(c, mod), chunks):
                found += f
                self.traces += ntr
                self.events += nev
        if found:
            found.sort(key=lambda f: int(f[1]))
            for tid, at, why in found[:3]:
                self.viol.append((f'{why} (history {tid}, event {at})', self.script(tid, scrs)))
            if len(found) > 3:
                print(f'{len(found)} histories break {self.prop}; showing 3')
        for f in files:
            os.remove(f)

    def script(self, tid, scrs):
        for s in scrs:
            if not os.path.exists(s):
                continue
            on, out = False, []
            for l in open(s):
                if l.startswith('== '):
                    on = l.strip() == '== ' + tid
                if on:
                    out.append(l)
            if out:
                return ''.join(out)
        return f'# history {tid}\n'

    # ---- the design model
    def model(self, m):
        cfg = f'{self.dir}/{m["name"]}.cfg'
        if 'kw' in m:
            mbt.config(cfg, **m['kw'])
        else:
            cfg = m['cfg']
        out = tlc(m['mod'], cfg, m.get('env', {}), self.dir, workers=m.get('workers', 8), mem=m.get('mem', '10g'),
                  args=m.get('args', ()), timeout=m.get('timeout', 800))
        c = counts(out)
        s = re.search(r'(\d+) states checked', out)  # simulation
        if 'Error:' in out or 'Exception' in out or not (c or s):
            # the specification itself is the same whatever is in /repo: this is no verdict on the code
            raise Err(f'design model {m["name"]}:\n' + out[-3000:])
        gen, dist = (c[0], c[1]) if c else (int(s[1]), int(s[1]))
        self.mstates += dist
        self.mtrans += gen
        self.models.append({'module': m['mod'], 'config': m.get('kw', m['name']), 'states': dist, 'transitions': gen})

    def known(self):
        out = []
        p = ROOT + '/KNOWN_FINDINGS.md'
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\S+) match=`([^`]*)` (.*)', l)
                if m and m[1] == self.prop:
                    out.append((m[2], m[3].strip()))
        return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    r = Run(prop, tier, seed)
    try:
        tb = build()
        jobs, models = plan.plan(prop, tier, seed, r)
        for m in models:
            r.model(m)
        for mod, js in jobs:
            r.histories(js, mod)
            if r.viol:
                break
        if tier == 'thorough' and not r.viol:
            rnd = 1
            while time.time() - t0 < plan.THOROUGH_S and not r.viol:
                for mod, js in plan.more(prop, seed, rnd, r):
                    r.histories(js, mod)
                rnd += 1
        new = []
        for why, txt in r.viol:
            k = [d for pat, d in r.known() if re.search(pat, why)]
            if k:
                print(f'KNOWN-FINDING: property={prop} {k[0]}')
            else:
                new.append((why, txt))
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': r.mstates, 'transitions': r.mtrans, 'traces_validated_against_impl': r.traces,
                           'trace_events_judged': r.events, 'trace_states': r.tstates, 'models': r.models,
                           'model_behaviours_replayed': r.sim['behaviours'], 'replays_identical_to_model': r.sim['same'],
                           'replays_differing_from_model': r.sim['different'],
                           'histories_by_kind': r.prof, 'samples': r.samples},
              'assumptions': plan.ASSUME, 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{ROOT}/evidence/{prop}.json', 'w'), indent=1)
        if new:
            os.makedirs(ROOT + '/out', exist_ok=True)
            for n, (why, txt) in enumerate(new):
                path = f'{ROOT}/out/{prop}-{n}.scr'
                with open(path, 'w') as f:
                    f.write(f'# {prop}: {why}\n# replay: tools/replay.sh {path}\n{txt}')
                print(f'{why}')
                print(f'VIOLATION property={prop} replay={path}')
            return 1
        print(f'{prop}: held; build {tb:.0f} s, {r.mstates} model states, {r.traces} histories with {r.events} events, {time.time() - t0:.0f} s')
        return 0
    except Err as e:
        print(f'check error: {e}', file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
