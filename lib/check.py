"""Runner shared by all checks: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback, importlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known-findings.txt')


def known_findings(pid):
    """lines 'finding: property=<id> key=<key> | text'"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                head, _, text = line[len('finding:'):].partition('|')
                kv = dict(x.split('=', 1) for x in head.split())
                if kv.get('property') == pid:
                    out[kv['key']] = text.strip()
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == 'thorough'
        self.obs = []           # (rule, instance, ok, where, detail, key)
        self.items = {}         # category -> set of analysed things
        self.assumptions = []
        self.notes = []
        self.explanation = ''
        self.und = []
        self.t0 = time.time()

    def analysed(self, cat, item):
        self.items.setdefault(cat, {})[str(item)] = 1

    def ob(self, rule, instance, ok, where='', detail='', key=None):
        self.obs.append(dict(rule=rule, instance=str(instance), ok=bool(ok), where=where, detail=str(detail),
                             key=key or ('%s/%s' % (rule, instance)).replace(' ', '_')))
        return ok

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def note(self, text):
        self.notes.append(text)
        print('  ' + text)

    def undecided(self, inst, why):
        """an obligation the analysis cannot decide: reported, never counted as holding"""
        if (str(inst), why) not in self.und:
            self.und.append((str(inst), why))

    def require(self, cond, msg):
        if not cond and not self.und:
            from prog import AnalysisBroken
            raise AnalysisBroken(msg)

    def finish(self, minimum=1):
        from prog import AnalysisBroken
        for inst, why in self.und:
            print('  UNDECIDED %s: %s' % (inst, why[:300]))
        # VERIF_STRICT: development runs on the unchanged tree, where nothing may stay undecided
        if len(self.obs) < (0 if self.und and not os.environ.get('VERIF_STRICT') else minimum):
            raise AnalysisBroken('only %d obligations were generated, at least %d confirmed by hand' %
                                 (len(self.obs), minimum))
        known = known_findings(self.pid)
        bad = [o for o in self.obs if not o['ok']]
        listed = [o for o in bad if o['key'] in known]
        new = [o for o in bad if o['key'] not in known]
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o['rule'], [0, 0])
            r[0] += 1
            r[1] += o['ok']
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(
                      explanation=self.explanation,
                      obligations=len(self.obs), discharged=len(self.obs) - len(bad),
                      rules={k: {'instances': v[0], 'hold': v[1]} for k, v in rules.items()},
                      analysed={k: {'count': len(v), 'items': sorted(v)[:60]} for k, v in self.items.items()},
                      samples=[dict(rule=o['rule'], instance=o['instance'], where=o['where'], ok=o['ok'])
                               for o in self.obs[:40]],
                      undecided=['%s: %s' % u for u in self.und],
                      known_findings=[o['key'] for o in listed]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, v in rules.items():
            print('  rule %-40s %d/%d instances hold' % (k, v[1], v[0]))
        for k, v in self.items.items():
            print('  analysed %s: %d' % (k, len(v)))
        for o in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o['key'], known[o['key']]))
        if new:
            rp = os.path.join(EVID, self.pid + '.replay.txt')
            with open(rp, 'w') as f:
                for o in new:
                    f.write('rule: %s\ninstance: %s\nwhere: %s\n%s\n\n' % (o['rule'], o['instance'], o['where'], o['detail']))
            for o in new[:8]:
                print('  BROKEN %s: %s at %s: %s' % (o['rule'], o['instance'], o['where'], o['detail'][:700]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s (%d obligations%s, %.1fs)' % (self.pid, len(self.obs), ', %d undecided' % len(self.und) if self.und else '', time.time() - self.t0))
        return 0


def main(argv):
    pid = argv[1]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    sys.path.insert(0, os.path.join(ROOT, 'checks'))
    sys.setrecursionlimit(20000)
    import prog, interp
    C = Check(pid, tier)
    try:
        # a stale evidence file must not survive an analysis that did not finish
        p = os.path.join(EVID, pid + '.json')
        if os.path.exists(p):
            os.unlink(p)
        mod = importlib.import_module(pid)
        try:
            mn = mod.run(C)
        except (prog.AnalysisBroken, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError,
                ZeroDivisionError, interp.Unsupported) as e:
            # the sources compile but are not of a shape this analysis can follow: what was not reached is undecided
            if os.environ.get('VERIF_STRICT'):
                raise
            traceback.print_exc()
            C.undecided('the rest of the check', '%s: %s' % (type(e).__name__, e))
            mn = 1
        return C.finish(mn or 1)
    except BaseException as e:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s %s: %s' % (pid, type(e).__name__, e))
        return 2
