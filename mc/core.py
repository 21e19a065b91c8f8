"""Exhaustive exploration driver.

A check is a list of families. A family enumerates a finite list of cases
(plain tuples of strings, numbers and tuples) and runs each of them: one or
more executions of the real code compared with a reference model. Every case
is run; nothing is sampled. Worker processes take cases one by one.
"""
import argparse
import hashlib
import json
import multiprocessing
import os
import queue
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
OUT = os.path.join(ROOT, 'out')
KNOWN = os.path.join(ROOT, 'known_findings.jsonl')

CPU_LIMIT = 30      # seconds of CPU one case may use
MEMORY_LIMIT = 3 << 30
STALL_LIMIT = 240   # seconds without any finished case in a worker


class Mismatch(Exception):
    """The implementation disagrees with the model."""

    def __init__(self, message, **details):
        super(Mismatch, self).__init__(message)
        self.message = message
        self.details = details


class Hang(BaseException):
    pass


class Known(Exception):
    """The implementation disagrees in a way listed in known_findings.jsonl"""

    def __init__(self, finding, message):
        super(Known, self).__init__(message)
        self.finding = finding
        self.message = message


class Counter(object):
    """What one worker has covered."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.known = {}
        self.extra = {}

    def state(self, *key):
        # distinct model states, by digest
        data = repr(key).encode('utf8')
        digest = hashlib.blake2b(data, digest_size=8).digest()
        self.states.add(digest)

    def step(self, count=1):
        self.transitions += count

    def trace(self, count=1):
        self.traces += count

    def note(self, key, count=1):
        self.extra[key] = self.extra.get(key, 0) + count


class Family(object):
    """A finite enumeration and the way to run one element of it."""

    def __init__(self, name, cases, run, bounds='', serial=False,
                 cpu_limit=CPU_LIMIT):
        self.name = name
        self.cases = cases      # callable -> iterable of cases
        self.run = run          # run(case, counter) raises Mismatch
        self.bounds = bounds
        self.serial = serial    # one process only
        self.cpu_limit = cpu_limit


def canonical(value):
    if isinstance(value, (list, tuple)):
        return tuple(canonical(_) for _ in value)
    return value


def known_findings(prop):
    findings = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as file:
            for line in file:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                item = json.loads(line)
                if item.get('property') == prop and item.get('status') == 'known':
                    findings[item['id']] = item
    return findings


def on_alarm(*_):
    raise Hang()


def execute(family, case, counter):
    """Run one case. Returns None or a description of the violation."""
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, family.cpu_limit)
    try:
        try:
            family.run(case, counter)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Known as error:
        counter.known.setdefault(error.finding, error.message)
    except Mismatch as error:
        return {
            'kind': 'mismatch',
            'message': error.message,
            'details': {key: repr(value) for key, value in error.details.items()},
        }
    except Hang:
        return {
            'kind': 'hang',
            'message': 'no answer after %d s of CPU time' % family.cpu_limit,
        }
    except MemoryError:
        return {'kind': 'memory', 'message': 'out of memory'}
    except RecursionError:
        return {
            'kind': 'exception',
            'message': 'RecursionError',
            'details': {'traceback': traceback.format_exc()[-1500:]},
        }
    except Exception as error:
        return {
            'kind': 'exception',
            'message': '%s: %s' % (type(error).__name__, error),
            'details': {'traceback': traceback.format_exc()[-4000:]},
        }
    counter.cases += 1


def claimed(cases, taken):
    """Cases nobody else has taken. All workers enumerate the same list."""
    wanted = -1
    for position, case in enumerate(cases):
        if position > wanted:
            with taken.get_lock():
                wanted = taken.value
                taken.value += 1
        if position == wanted:
            yield case


def work(families, index, size, results, stop, progress, taken):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except (ValueError, OSError):
        pass
    found = 0
    for number, family in enumerate(families):
        counter = Counter()
        sample = []
        started = time.time()
        cases = family.cases()
        if not family.serial:
            cases = claimed(cases, taken[number])
        elif index != number % size:
            cases = ()
        for case in cases:
            if stop.is_set():
                break
            case = canonical(case)
            progress[index] = time.time()
            if len(sample) < 2:
                sample.append(case)
            violation = execute(family, case, counter)
            if violation:
                found += 1
                violation.update(family=family.name, case=case)
                results.put(('violation', violation))
                if found > 2:
                    stop.set()
                    break
        results.put(('done', (
            family.name,
            b''.join(sorted(counter.states)), counter.transitions,
            counter.traces, counter.cases, counter.known, counter.extra,
            sample, time.time() - started
        )))
    results.put(('exit', index))
    results.close()
    results.join_thread()


def save_replay(prop, violation, number):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, '%s-%d.json' % (prop, number))
    with open(path, 'w') as file:
        json.dump(
            dict(violation, property=prop), file,
            ensure_ascii=False, indent=1, default=repr
        )
    return path


class Check(object):
    def __init__(self, prop, level='model_checking', assumptions=(), rule=''):
        self.prop = prop
        self.level = level
        self.assumptions = list(assumptions)
        self.rule = rule

    def families(self, tier):
        raise NotImplementedError

    def run(self, tier, only=None):
        started = time.time()
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        families = [
            _ for _ in self.families(tier)
            if not only or _.name in only
        ]
        size = os.cpu_count() or 4
        context = multiprocessing.get_context('fork')
        results = context.Queue()
        stop = context.Event()
        progress = context.Array('d', [time.time()] * size, lock=False)
        taken = [context.Value('l', 0) for _ in families]
        processes = [
            context.Process(
                target=work,
                args=(families, index, size, results, stop, progress, taken)
            )
            for index in range(size)
        ]
        for process in processes:
            process.start()

        violations = []
        coverage = {
            family.name: dict(
                bounds=family.bounds, states=set(), transitions=0, traces=0,
                cases=0, samples=[], extra={}, wall=0
            )
            for family in families
        }
        known = {}
        left = set(range(size))
        deadline = None
        while left:
            try:
                kind, value = results.get(timeout=1)
            except queue.Empty:
                now = time.time()
                if stop.is_set() and deadline is None:
                    deadline = now + 20
                for index in list(left):
                    process = processes[index]
                    if not process.is_alive():
                        # drain what it may have sent before it died
                        if process.exitcode != 0:
                            violations.append({
                                'kind': 'crash', 'family': '?', 'case': None,
                                'message': 'worker ended with code %r'
                                           % process.exitcode
                            })
                            stop.set()
                        left.discard(index)
                    elif now - progress[index] > STALL_LIMIT and not violations:
                        violations.append({
                            'kind': 'hang', 'family': '?', 'case': None,
                            'message': 'worker %d made no progress for %d s'
                                       % (index, STALL_LIMIT)
                        })
                        stop.set()
                if deadline and now > deadline:
                    break
                continue
            if kind == 'violation':
                violations.append(value)
                stop.set()
            elif kind == 'done':
                (name, states, transitions, traces,
                 cases, found, extra, samples, wall) = value
                item = coverage[name]
                item['states'].update(
                    states[_:_ + 8] for _ in range(0, len(states), 8)
                )
                item['transitions'] += transitions
                item['traces'] += traces
                item['cases'] += cases
                item['samples'].extend(samples[:1])
                item['wall'] = max(item['wall'], wall)
                for key, count in extra.items():
                    item['extra'][key] = item['extra'].get(key, 0) + count
                for key, message in found.items():
                    known.setdefault(key, message)
            elif kind == 'exit':
                left.discard(value)
        for process in processes:
            if process.is_alive() and left:
                process.terminate()
        for process in processes:
            process.join(10)
            if process.is_alive():
                process.kill()

        allowed = known_findings(self.prop)
        for key in sorted(known):
            if key in allowed:
                print('KNOWN-FINDING: property=%s %s: %s' % (
                    self.prop, key, allowed[key].get('what', known[key])
                ))
            else:
                violations.append({
                    'kind': 'mismatch', 'family': '?', 'case': None,
                    'message': '%s: %s' % (key, known[key])
                })

        self.write_evidence(
            tier, seed, families, coverage, violations, known,
            time.time() - started
        )
        if violations:
            for number, violation in enumerate(violations[:3]):
                path = save_replay(self.prop, violation, number)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  [%s] %s' % (violation['family'], violation['message']))
                print('  case: %s' % repr(violation['case'])[:1500])
                for key, value in violation.get('details', {}).items():
                    print('  %s: %s' % (key, value[-1500:]))
            return 1
        for family in families:
            item = coverage[family.name]
            print('%s %-14s cases=%d states=%d transitions=%d traces=%d %.1fs' % (
                self.prop, family.name, item['cases'], len(item['states']),
                item['transitions'], item['traces'], item['wall']
            ))
        print('OK property=%s tier=%s wall=%.1fs' % (
            self.prop, tier, time.time() - started
        ))
        return 0

    def write_evidence(self, tier, seed, families, coverage, violations, known, wall):
        os.makedirs(EVIDENCE, exist_ok=True)
        total = dict(
            states=sum(len(_['states']) for _ in coverage.values()),
            transitions=sum(_['transitions'] for _ in coverage.values()),
            traces_validated_against_impl=sum(
                _['traces'] for _ in coverage.values()
            ),
        )
        samples = []
        for family in families:
            for sample in coverage[family.name]['samples'][:2]:
                samples.append('%s: %s' % (family.name, repr(sample)[:400]))
        total.update(
            samples=samples,
            exhaustive=not violations,
            rule=self.rule,
            families={
                family.name: dict(
                    bounds=coverage[family.name]['bounds'],
                    cases=coverage[family.name]['cases'],
                    states=len(coverage[family.name]['states']),
                    transitions=coverage[family.name]['transitions'],
                    traces=coverage[family.name]['traces'],
                    **coverage[family.name]['extra']
                )
                for family in families
            },
            known_findings=sorted(known)
        )
        data = dict(
            property=self.prop,
            tier=tier,
            seed=seed,
            level=self.level,
            coverage=total,
            assumptions=self.assumptions,
            wall_s=round(wall, 3),
            violations=len(violations)
        )
        path = os.path.join(EVIDENCE, self.prop + '.json')
        with open(path, 'w') as file:
            json.dump(data, file, ensure_ascii=False, indent=1)

    def replay(self, path):
        with open(path) as file:
            data = json.load(file)
        case = canonical(data['case'])
        for tier in ('quick', 'thorough'):
            for family in self.families(tier):
                if family.name == data['family']:
                    counter = Counter()
                    violation = execute(family, case, counter)
                    if violation:
                        print('VIOLATION property=%s replay=%s' % (self.prop, path))
                        print('  %s' % violation['message'])
                        for key, value in violation.get('details', {}).items():
                            print('  %s: %s' % (key, value))
                        return 1
                    print('OK, the case passes')
                    return 0
        print('no such family: %s' % data['family'])
        return 1


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                        choices=['quick', 'thorough'])
    parser.add_argument('--replay')
    parser.add_argument('--only', nargs='*')
    args = parser.parse_args(argv)
    prop = args.property.upper()
    try:
        from . import env
        env.load()
        import importlib
        module = importlib.import_module('checks.' + prop.lower())
        check = module.CHECK
    except Exception as error:
        # the code under test can not even be imported or set up
        path = save_replay(prop, {
            'kind': 'setup', 'family': '?', 'case': None,
            'message': traceback.format_exc()
        }, 0)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s' % (type(error).__name__, error))
        traceback.print_exc(file=sys.stdout)
        return 1
    if args.replay:
        return check.replay(args.replay)
    return check.run(args.tier, args.only)
