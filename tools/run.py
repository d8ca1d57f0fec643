#!/usr/bin/env python3
"""The check of one property.

  run.py setup                      build everything the checks share
  run.py PROPERTY [quick|thorough]  decide PROPERTY on /repo's working tree
  run.py replay FILE                carry out a recorded violation again
  run.py gen                        enumerate the cases of Gen_Ops and Gen_Rel (done on demand otherwise)
"""
import collections
import concurrent.futures as cf
import json
import os
import random
import shutil
import sys
import tempfile
import time

import common
import scen
from common import CheckError, log

# property: (cases it draws from, aspects of the specification that apply, model-checking modules)
PROPS = {
    'C01': ('ops', ('alloc', 'owner'), ('MC_Wire',)),
    'C02': ('ops', (), ('MC_Wire',)),
    'C03': ('ops', (), ('MC_Wire',)),
    'C04': ('ops', (), ('MC_VM',)),
    'C05': ('ops', (), ('MC_VM',)),
    'C06': ('ops', (), ('MC_Logic',)),
    'C07': ('ops', (), ('MC_Logic',)),
    'C08': ('ops', (), ('MC_Ints', 'MC_BigNat', 'MC_BigNatWide')),
    'C09': ('ops', (), ('MC_Floats',)),
    'C10': ('ops', (), ('MC_Order',)),
    'C11': ('ops', (), ('MC_Cast',)),
    'C12': ('ops', (), ('MC_Cast',)),
    'C13': ('ops', (), ('MC_Str',)),
    'C14': ('ops', (), ('MC_Elem',)),
    'C15': ('ops', (), ('MC_VM',)),
    'R01': ('rel', (), ('MC_Rel',)),
    'R02': ('rel', (), ('MC_Rel',)),
    'R03': ('rel', (), ('MC_Group',)),
    'R04': ('rel', (), ('MC_Group',)),
    'R05': ('rel', ('owner',), ('MC_Own',)),
    'R06': ('rel', (), ('MC_Rel',)),
    'R07': ('rel', (), ('MC_Rel',)),
    'R08': ('rel', (), ('MC_Iso',)),
    'U01': ('ops', (), ('MC_Util',)),
    'U02': ('ops', ('owner',), ('MC_Util',)),
    'U03': ('ops', (), ('MC_Text',)),
}
GEN = {'ops': 'Gen_Ops', 'rel': 'Gen_Rel'}
KNOWN = os.path.join(common.VERIF, 'known_findings.txt')
DEEP_STACK = 1 << 18


def gen_cases(which):
    """The cases enumerated by TLC, computed once per version of the specification."""
    module = GEN[which]
    files = sorted(f for f in os.listdir(common.SPEC) if f.endswith('.tla') and not f.startswith('MC_') and f not in ('System.tla', 'Trace.tla') and
                   (not f.startswith('Gen_') or f == module + '.tla'))
    key = common._sha(*[f.encode() + common._read(os.path.join(common.SPEC, f)) for f in files])
    d = os.path.join(common.BUILD, '%s-%s' % (module, key))
    if not os.path.exists(d):
        tmp = '%s.tmp%d' % (d, os.getpid())
        os.makedirs(tmp)
        r = common.tlc(module, env={'OUT': tmp})
        if not r.ok:
            raise CheckError('TLC failed on %s:\n%s' % (module, r.out[:2500]))
        with open(os.path.join(tmp, 'stats'), 'w') as f:
            json.dump([r.distinct, r.generated], f)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        for o in os.listdir(common.BUILD):
            if o.startswith(module + '-') and o != os.path.basename(d):
                shutil.rmtree(os.path.join(common.BUILD, o), ignore_errors=True)
    out = []
    for f in sorted(os.listdir(d)):
        if f != 'stats':
            with open(os.path.join(d, f)) as h:
                out += [json.loads(l) for l in h]
    return out, json.load(open(os.path.join(d, 'stats')))


def known_findings(prop):
    """[(command, text)] of the open findings of the property."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('finding: property=%s ' % prop):
                cmd, _, text = l.split(' ', 2)[2].strip().partition(' | ')
                out.append((cmd, text))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cases, self.aspects, self.mc = PROPS[prop]
        self.states = self.transitions = self.traces = self.events = 0
        self.models = {}
        self.parts = []
        self.violations = []
        self.known = known_findings(prop)
        self.known_seen = collections.OrderedDict()
        self.samples = []
        self.opcount = collections.Counter()
        self.exceptions = 0
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)

    def run_once(self, exe, scenarios, threads=0, stack=None, reuse=False):
        """Carries out and validates; returns ({id: (index, expected)}, outs)."""
        outs = common.execute(exe, scenarios, self.work, threads, stack, reuse)
        return self.judge(scenarios, outs)

    def judge(self, scenarios, outs):
        hist = [(sid, outs[sid]) for sid, _ in scenarios if sid in outs]
        hist += [(sid, e) for sid, e in outs.items() if sid == 'threads']
        rej, st, tr = common.validate(hist, self.work, aspects=self.aspects)
        return rej, outs, st, tr

    def part(self, name, variant, scenarios, threads=0, stack=None):
        t0 = time.time()
        exe = common.build(variant)
        t1 = time.time()
        rej, outs, st, tr = self.run_once(exe, scenarios, threads, stack)
        self.states += st
        self.transitions += tr
        self.traces += len(outs) - len(rej)
        n = sum(len(e) for e in outs.values())
        self.events += n
        for es in outs.values():
            for e in es:
                self.opcount[e[7:e.index('"', 7)]] += 1
        if len(self.samples) < 3:
            ok = [sid for sid, _ in scenarios if sid in outs and sid not in rej and len(json.dumps(outs[sid])) < 4000]
            for sid in ok[:1] + ok[len(ok) // 2:len(ok) // 2 + 1]:
                self.samples.append({'history': sid, 'commands': dict(scenarios)[sid][:12], 'events': [json.loads(e) for e in outs[sid][:6]]})
        self.parts.append({'part': name, 'build': variant, 'histories': len(outs), 'events': n, 'rejected': len(rej), 'threads': threads, 'wall_s': round(time.time() - t0, 1)})
        log('%s: %s (%s build): %d histories, %d events, %d rejected [build %.1f s, all %.1f s]' % (self.prop, name, variant, len(outs), n, len(rej), t1 - t0, time.time() - t0))
        if rej:
            self.confirm(name, variant, exe, scenarios, outs, rej, threads, stack)
        if variant == 'asan' and not threads and not stack and not self.violations:
            # once more with memory used again at once; histories that are the same have been judged already
            t0 = time.time()
            outs2 = common.execute(exe, scenarios, self.work, reuse=True)
            new = [(sid, c) for sid, c in scenarios if sid in outs2 and sid not in rej and outs2[sid] != outs.get(sid)]
            if new:
                rej, outs2, st, tr = self.judge(new, {sid: outs2[sid] for sid, _ in new})
                self.states += st
                self.transitions += tr
                self.traces += len(outs2) - len(rej)
            else:
                rej = {}
            self.parts.append({'part': name + ', memory reused at once', 'build': variant, 'histories': len(scenarios), 'different_and_validated': len(new), 'rejected': len(rej), 'threads': 0, 'wall_s': round(time.time() - t0, 1)})
            log('%s: %s, memory reused at once: %d histories differ, %d rejected [%.1f s]' % (self.prop, name, len(new), len(rej), time.time() - t0))
            if rej:
                self.confirm(name, variant, exe, scenarios, outs2, rej, 0, None, True)

    def confirm(self, name, variant, exe, scenarios, outs, rej, threads, stack, reuse=False):
        """A rejection counts when it repeats."""
        cmds = dict(scenarios)
        if threads:
            for _ in range(4):
                again, outs2, _, _ = self.run_once(exe, scenarios, threads, stack)
                for sid in again:
                    self.report(name, variant, scenarios if sid == 'threads' else [(sid, cmds[sid])], sid, outs2[sid], again[sid], threads, stack)
                    return
            # what the threads did is lost, but it was observed once
            again, _, _ = common.validate([(i, outs[i]) for i in rej if '"crash"' not in ''.join(outs[i][-1:])], self.work, aspects=self.aspects)
            if not again:
                raise CheckError('a rejection of a concurrent run did not repeat: %s' % list(rej.items())[:1])
            sid = list(again)[0]
            self.report(name, variant, scenarios if sid == 'threads' else [(sid, cmds[sid])], sid, outs[sid], rej[sid], threads, stack)
            return
        # those that took too long, if any, would take as long again
        ids = [i for i in rej if '"op": "crash"' not in outs[i][-1]][:40] or list(rej)[:8]
        again, outs2, _, _ = self.run_once(exe, [(i, cmds[i]) for i in ids], 0, stack, reuse)
        whole = False
        if not again:
            # what came before in the same process may matter
            again, outs2, _, _ = self.run_once(exe, scenarios, 0, stack, reuse)
            whole = True
            if not again:
                # observed once: memory that was never written, say; but a command that ended the process or took too
                # long may have been the machine's fault
                again, _, _ = common.validate([(i, outs[i]) for i in rej if '"crash"' not in ''.join(outs[i][-1:])], self.work, aspects=self.aspects)
                outs2 = outs
                if not again:
                    raise CheckError('a crash did not repeat: %s' % list(rej.items())[:1])
        for sid in [i for i in ids if i in again] or list(again):
            self.report(name, variant, scenarios if whole else [(sid, cmds[sid])], sid, outs2[sid], again[sid], 0, stack, reuse)
            if whole:
                break

    def report(self, name, variant, scenarios, sid, events, rejected, threads, stack, reuse=False):
        index, expected = rejected
        cs = dict(scenarios).get(sid, [])
        cmd = cs[index - 1] if 0 < index <= len(cs) else '?'
        for c, text in self.known:
            if c == cmd:
                self.known_seen[c] = text
                return
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        os.makedirs(common.REPLAY, exist_ok=True)
        path = os.path.join(common.REPLAY, '%s-%s-%s.json' % (self.prop, self.tier, common._sha(json.dumps(cs), name, variant)[:10]))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'part': name, 'build': variant, 'threads': threads, 'stack': stack, 'reuse': reuse, 'aspects': self.aspects,
                       'scenarios': scenarios, 'rejected': sid, 'event': index, 'command': cmd,
                       'observed': json.loads(events[index - 1]) if index <= len(events) else None, 'expected': expected}, f, indent=1)
        self.violations.append(path)
        log('rejected: %s event %d: %s' % (sid, index, cmd[:300]))
        log('  observed: %s' % (events[index - 1][:600] if index <= len(events) else '?'))
        log('  expected: %s' % expected[:600])
        log('VIOLATION property=%s replay=%s' % (self.prop, path))

    def model(self, m):
        cfg = m + ('_deep' if self.tier == 'thorough' and os.path.exists(os.path.join(common.SPEC, m + '_deep.cfg')) else '')
        spec = common.SPEC
        if m == 'MC_BigNatWide':
            # the definitions under a name for which there is no Java class
            spec = os.path.join(self.work, 'spec')
            os.makedirs(spec)
            for f in ('BigNat.tla', 'Loops.tla', m + '.tla', m + '.cfg'):
                shutil.copy(os.path.join(common.SPEC, f), spec)
            with open(os.path.join(spec, 'BigNat.tla')) as f, open(os.path.join(spec, 'BigNatDef.tla'), 'w') as g:
                g.write(f.read().replace('MODULE BigNat ', 'MODULE BigNatDef '))
        return m, cfg, common.tlc(m, cfg, workers=2 if self.tier == 'quick' else 4, heap='3g', specdir=spec, override=m != 'MC_BigNat')

    def check(self):
        t0 = time.time()
        q = self.tier == 'quick'
        with cf.ThreadPoolExecutor(2) as ex:
            models = [ex.submit(self.model, m) for m in self.mc]
            cases, stats = gen_cases(self.cases)
            self.states += stats[0]
            self.transitions += stats[1]
            r = random.Random('%s/%s/%s' % (self.prop, self.tier, self.seed))
            s = scen.Scenarios(r)
            getattr(scen, self.prop.lower())(s, self.tier, cases)
            self.part('histories', 'asan', s.all)
            if hasattr(scen, self.prop.lower() + '_deep') and not self.violations:
                s = scen.Scenarios(r)
                getattr(scen, self.prop.lower() + '_deep')(s, self.tier, cases)
                self.part('small stack', 'asan', s.all, stack=DEEP_STACK)
            if hasattr(scen, self.prop.lower() + '_threads') and not self.violations:
                ops, _ = gen_cases('ops')
                s = scen.Scenarios(r)
                getattr(scen, self.prop.lower() + '_threads')(s, self.tier, ops)
                self.part('concurrent', 'tsan', s.all, threads=8)
            if not q and not self.violations:
                for variant in ('o2', 'clang'):
                    s = scen.Scenarios(random.Random('%s/%s/%s/%s' % (self.prop, variant, self.tier, self.seed)))
                    getattr(scen, self.prop.lower())(s, 'quick', cases)
                    self.part('histories', variant, s.all)
                # other histories, as long as there is time
                n = 0
                while time.time() - t0 < float(os.environ.get('VERIF_BUDGET', '420')) and not self.violations:
                    n += 1
                    s = scen.Scenarios(random.Random('%s/round %d/%s/%s' % (self.prop, n, self.tier, self.seed)))
                    getattr(scen, self.prop.lower())(s, 'quick', cases)
                    self.part('round %d' % n, 'asan', s.all)
                    if hasattr(scen, self.prop.lower() + '_threads'):
                        ops, _ = gen_cases('ops')
                        s = scen.Scenarios(s.r)
                        getattr(scen, self.prop.lower() + '_threads')(s, 'quick', ops)
                        self.part('concurrent %d' % n, 'tsan', s.all, threads=8)
            for f in models:
                m, cfg, res = f.result()
                if not res.ok:
                    raise CheckError('the specification fails %s:\n%s' % (m, res.out[:2500]))
                self.models[cfg] = {'states': res.distinct, 'transitions': res.generated, 'wall_s': round(res.wall, 1)}
                self.states += res.distinct
                self.transitions += res.generated
                log('%s: %s: %d states, no error [%.1f s]' % (self.prop, cfg, res.distinct, res.wall))
        for c, text in self.known_seen.items():
            log('KNOWN-FINDING: property=%s %s' % (self.prop, text or c))
        os.makedirs(common.EVIDENCE, exist_ok=True)
        with open(os.path.join(common.EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump({
                'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
                'coverage': {
                    'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                    'events_validated_against_impl': self.events, 'events_by_kind': dict(self.opcount),
                    'cases_enumerated_by_tlc': len(cases), 'models': self.models, 'parts': self.parts,
                    'samples': self.samples,
                },
                'assumptions': ['the driver in harness/harness.cc reports what the public interface returned',
                                'TLC and the Java overrides of BigNat and Loops (checked against their TLA+ definitions) evaluate the specification correctly'],
                'wall_s': round(time.time() - t0, 1), 'violations': len(self.violations)}, f, indent=1)
        log('%s: %s in %.1f s' % (self.prop, 'VIOLATED' if self.violations else 'held on everything explored', time.time() - t0))
        return 1 if self.violations else 0


def setup():
    t = time.time()
    common.java_classes()
    for v in ('asan', 'tsan'):
        common.build(v)
    for g in GEN:
        gen_cases(g)
    log('setup: %.1f s' % (time.time() - t))
    return 0


def replay(path):
    d = json.load(open(path))
    c = Check(d['property'], 'quick', 1)
    c.aspects = tuple(d['aspects'])
    rej, outs, _, _ = c.run_once(common.build(d['build']), [tuple(x) for x in d['scenarios']], d['threads'], d['stack'], d.get('reuse', False))
    shutil.rmtree(c.work, ignore_errors=True)
    for sid, (i, exp) in rej.items():
        log('rejected: %s event %d: %s\n  expected: %s' % (sid, i, outs[sid][i - 1] if i <= len(outs[sid]) else '?', exp))
    if rej:
        log('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    log('accepted')
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == 'setup':
        return setup()
    if a[0] == 'gen':
        for g in GEN:
            gen_cases(g)
        return 0
    if a[0] == 'replay':
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier != 'quick':
        common.VALIDATE_LIMIT = None
    c = Check(a[0], tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        return c.check()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        log('ERROR: %s' % e)
        sys.exit(2)
