"""Collects obligations, violations and what was analysed."""
import os, signal
from facts import AnalysisError
from program import program

class TimeUp(AnalysisError): pass
def time_up(*a): raise TimeUp('out of time')
def limit(seconds):
    """Parts of a rule that take longer than this stay undecided."""
    signal.signal(signal.SIGALRM, time_up); signal.alarm(seconds)

class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations, self.samples, self.undecided, self.counts, self.skips = [], [], [], {}, {}
        self.total = 0
        self.functions, self.sites = set(), 0
        self._seen, self.broken = set(), []
    def _site(self, fn, file, line):
        p = program()
        return p.rel(file), line, fn
    def ok(self, rule, fn='', file='', line=0, msg=''):
        self.total += 1
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if fn: self.functions.add(fn)
        if len([s for s in self.samples if s.startswith(rule + ' ')]) < 3:
            self.samples.append('%s @ %s:%s %s %s' % (rule, program().rel(file) if file else '', line, fn, msg))
    def bad(self, rule, fn, file, line, msg, key=None):
        """A violation; key identifies the construct without line numbers."""
        k = '%s|%s' % (rule.replace(' ', '_'), (key or fn).replace(' ', '_'))
        self.total += 1
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if fn: self.functions.add(fn)
        if (k, msg) in self._seen: self.total -= 1; return
        self._seen.add((k, msg))
        self.violations.append(dict(rule=rule, fn=fn, file=program().rel(file) if file else '', line=line, msg=msg, key=k))
    def check(self, cond, rule, fn, file, line, msg, key=None):
        if cond: self.ok(rule, fn, file, line, '')
        else: self.bad(rule, fn, file, line, msg, key)
        return cond
    def skip(self, rule, fn, file, line, msg):
        self.skips[rule] = self.skips.get(rule, 0) + 1
        self.undecided.append('%s @ %s:%s %s: %s' % (rule, program().rel(file) if file else '', line, fn, msg))
    def part(self, fn, *a):
        """Run one part of a rule; if the code has a shape it cannot follow, the
        part is reported as undecided and the others still decide."""
        try: fn(*a)
        except TimeUp as e:
            self.broken.append('%s: %s' % (fn.__name__, e)); signal.alarm(40)
        except AnalysisError as e: self.broken.append('%s: %s' % (fn.__name__, e))
        except Exception as e: self.broken.append('%s: %s %s' % (fn.__name__, type(e).__name__, e))
    def analysed(self):
        p = program()
        return dict(units=len(p.units), functions_in_program=len(p.fns), functions_with_obligations=len(self.functions))
    def finish(self, minimum):
        self.undecided += self.broken
        if self.total == 0: raise AnalysisError('nothing could be decided')
        if self.violations: return
        short = ['rule "%s" matched %d sites, expected at least %d' % (k, self.counts.get(k, 0), n) for k, n in minimum.items() if self.counts.get(k, 0) + self.skips.get(k, 0) < n]
        if short and (os.environ.get('VERIF_STRICT') or not any(self.counts.get(k) for k in minimum)): raise AnalysisError('; '.join(short))
        self.undecided += short
