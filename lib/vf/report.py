"""Result of a check: violations, known findings, evidence."""
import hashlib, json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Violation(Exception):
    """Raised by a check when the code disagrees with the specification."""
    def __init__(self, what, history, **details):
        Exception.__init__(self, what)
        self.what = what
        self.history = history
        self.details = details


class Report:
    def __init__(self, property_id, level = 'model_checking'):
        self.property_id = property_id
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.level = level
        self.start = time.perf_counter()
        self.coverage = {}
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.known_findings = load_known_findings(property_id)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, **counts):
        for key, value in counts.items():
            self.coverage[key] = self.coverage.get(key, 0) + value

    def part(self, name, **values):
        self.parts.setdefault(name, {}).update(values)

    def sample(self, sample, limit = 6):
        if len(self.samples) < limit:
            self.samples.append(sample)

    def violation(self, violation):
        """Returns whether it is a new one"""
        signature = violation.details.get('signature')
        if signature is not None:
            for finding in self.known_findings:
                if finding['signature'] == signature:
                    if finding not in self.known:
                        self.known.append(finding)
                    return False
        self.violations.append(violation)
        if os.environ.get('VF_FIRST'): # only for trying many changes of the code
            sys.stdout.write(f'VIOLATION {violation.what[:1000]}\n')
            sys.stdout.flush()
            os._exit(1)
        return True

    def write_replay(self, violation):
        directory = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(directory, exist_ok = True)
        data = {
            'property': self.property_id, 'what': violation.what, 'history': violation.history,
            'details': violation.details, 'seed': self.seed, 'tier': self.tier,
        }
        text = json.dumps(data, indent = 1, default = repr)
        digest = hashlib.sha1(text.encode()).hexdigest()[:10]
        path = os.path.join(directory, f'{self.property_id}_{digest}.json')
        with open(path, 'w') as file:
            file.write(text)
        return path

    def finish(self):
        coverage = dict(self.coverage)
        for key in ('states', 'transitions', 'traces_validated_against_impl'):
            coverage.setdefault(key, 0)
        coverage['samples'] = self.samples
        coverage['parts'] = self.parts
        evidence = {
            'property': self.property_id,
            'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
            'seed': self.seed,
            'level': self.level,
            'coverage': coverage,
            'assumptions': self.assumptions,
            'wall_s': round(time.perf_counter() - self.start, 3),
            'violations': len(self.violations),
        }
        directory = os.path.join(VERIF, 'evidence')
        os.makedirs(directory, exist_ok = True)
        with open(os.path.join(directory, f'{self.property_id}.json'), 'w') as file:
            json.dump(evidence, file, indent = 1, default = repr)
        for finding in self.known:
            print(f'KNOWN-FINDING: property={self.property_id} {finding["what"]}')
        for violation in self.violations[:5]:
            path = self.write_replay(violation)
            print(f'# {violation.what}'[:1500])
            print(f'VIOLATION property={self.property_id} replay={path}')
        if not self.violations:
            print(f'OK property={self.property_id} ' + ' '.join(
                f'{k}={v}' for k, v in coverage.items() if isinstance(v, int)
            ) + f' wall={evidence["wall_s"]}s')
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known_findings(property_id):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as file:
            data = json.load(file)
    except FileNotFoundError:
        return []
    return [finding for finding in data['findings'] if finding['property'] == property_id]
