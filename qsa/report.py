"""What one check found, how it is printed and how the evidence is written."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('QSA_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Finding(object):
    def __init__(self, key, message, where=(), detail=''):
        self.key, self.message, self.where, self.detail = key, message, list(where), detail


_JOB = None


def _job(i):
    rep, work = _JOB
    fn, item, args = work[i]
    sub = Report(rep.prop, rep.tier, rep.level, rep.technique, rep.repo)
    fn(sub, item, *args)
    if sub.fatal:
        raise RuntimeError(sub.fatal)
    return (sub.discharged, sub.samples[:8], [(f.key, f.message, f.where, f.detail) for f in sub.findings], sub.undecided, sub.counts,
            sub.assumptions, sub.notes, getattr(sub, 'distinct', set()))


class Report(object):
    """Obligations are the individual facts a rule has to establish; each ends
    up discharged, undecided or as a finding."""

    def __init__(self, prop, tier, level, technique, repo):
        self.prop, self.tier, self.level, self.technique, self.repo = prop, tier, level, technique, repo
        self.findings = []
        self.undecided = []
        self.discharged = 0
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.notes = []
        self.fatal = None
        self.t0 = time.time()

    # ------------------------------------------------------------ recording
    def ok(self, what, how=''):
        self.discharged += 1
        if len(self.samples) < 60:
            self.samples.append({'obligation': what, 'result': 'holds', 'by': how})

    def finding(self, key, message, where=(), detail=''):
        if any(f.key == key for f in self.findings):
            return
        self.findings.append(Finding(key, message, where, detail))

    def unknown(self, what, why):
        self.undecided.append({'obligation': what, 'why': str(why)[:400]})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def parallel(self, fn, items, *args):
        """fn(report, item, *args) for every item, in worker processes; what they record is merged in the order of the items"""
        import multiprocessing
        work = [(fn, it, args) for it in items]
        n = min(len(work), int(os.environ.get('QSA_JOBS', '0') or 0) or min(8, os.cpu_count() or 1))
        if n <= 1:
            for f, it, a in work:
                f(self, it, *a)
            return
        global _JOB
        _JOB = (self, work)
        with multiprocessing.get_context('fork').Pool(n) as pool:
            parts = pool.map(_job, range(len(work)), chunksize=1)
        named = set()
        for discharged, samples, findings, undecided, counts, assumptions, notes, sets in parts:
            self.discharged += discharged
            self.samples = (self.samples + samples)[:60]
            for f in findings:
                self.finding(*f)
            self.undecided += undecided
            for k, v in counts.items():
                self.count(k, v)
            for t in assumptions:
                self.assume(t)
            self.notes += [x for x in notes if x not in self.notes]
            named |= sets
        self.distinct = getattr(self, 'distinct', set()) | named

    def name(self, names):
        """things of which only the number of different ones counts"""
        self.distinct = getattr(self, 'distinct', set()) | set(names)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def guarded(self, what, fn, *args):
        """run one obligation; a construct the analysis does not understand
        leaves it undecided, it never turns into an alarm"""
        try:
            return fn(*args)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as ex:
            if os.environ.get('QSA_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.unknown(what, '%s: %s (%s:%d)' % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno))
            return None

    # -------------------------------------------------------------- result
    def finish(self, seed):
        known = load_known(self.prop)
        listed, fresh = [], []
        for f in self.findings:
            (listed if f.key in known else fresh).append(f)
        total = self.discharged + len(self.undecided) + len(self.findings)
        print('property %s (%s): %d obligations, %d hold, %d violated, %d undecided' % (
            self.prop, self.tier, total, self.discharged, len(self.findings), len(self.undecided)))
        for k in sorted(self.counts):
            print('  %s: %s' % (k, self.counts[k]))
        for u in self.undecided:
            print('UNDECIDED: property=%s %s: %s' % (self.prop, u['obligation'], u['why'][:200]))
        for f in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[f.key]))
        code = 0
        violations = []
        for i, f in enumerate(fresh):
            path = os.path.join(EVID, 'replay', '%s-%d.txt' % (self.prop, i))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as h:
                h.write('property %s\nrule/construct: %s\n%s\n\nwhere:\n' % (self.prop, f.key, f.message))
                for w in f.where:
                    h.write('  %s\n' % w)
                if f.detail:
                    h.write('\ndetail:\n%s\n' % f.detail)
                h.write('\nreplay: cd /verif && ./check %s %s\n' % (self.prop, self.tier))
            print('%s' % f.message)
            for w in f.where[:6]:
                print('    at %s' % w)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            violations.append({'rule_and_construct': f.key, 'message': f.message, 'where': f.where[:20]})
            code = 1
        if self.fatal:
            print('ERROR: %s' % self.fatal)
            code = code or 2
        elif code == 0 and total and not self.discharged and not listed:
            print('ERROR: nothing could be decided')
            code = 2
        elif not total:
            print('ERROR: no obligations were found: the anchors of this property have vanished')
            code = 2
        self.write(seed, violations, listed, known)
        return code

    def write(self, seed, violations, listed, known):
        total = self.discharged + len(self.undecided) + len(self.findings)
        cov = {
            'explanation': self.technique,
            'obligations': total,
            'discharged': self.discharged,
            'undecided': self.undecided[:80],
            'undecided_count': len(self.undecided),
            'counts': self.counts,
            'samples': self.samples[:40],
            'notes': self.notes[:40],
        }
        if self.level == 'translation_validation':
            for k in ('obligations', 'discharged'):
                del cov[k]
            cov['counts'] = {k: v for k, v in self.counts.items() if k != 'programs'}
            cov['programs'] = self.counts.get('programs', 0)
            cov['disagreements_checked'] = total
            if not cov['samples']:
                cov['samples'] = [{'obligation': 'none', 'result': 'none'}]
        doc = {
            'property': self.prop, 'tier': self.tier, 'seed': seed, 'level': self.level, 'coverage': cov,
            'wall_s': round(time.time() - self.t0, 3), 'assumptions': self.assumptions,
            'violations': len(violations),
        }
        cov['violation_list'] = violations
        cov['known_findings'] = [known[f.key] for f in listed]
        p = os.path.join(EVID, self.prop + '.json')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h:
            json.dump(doc, h, indent=1, sort_keys=True, default=str)


def load_known(prop):
    """key -> description of the findings listed for this property; 'fixed'
    entries suppress nothing"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith('known: '):
            continue
        body = line[len('known: '):]
        head, _, desc = body.partition(' :: ')
        parts = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
        if parts.get('property') == prop:
            out[parts['key']] = desc
    return out
