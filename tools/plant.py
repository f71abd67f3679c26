"""
plant.py SPEC.json...  Plants a bug in a scratch copy of /repo, confirms it, keeps it under /verif/seeded.

SPEC: {"id", "property", "needs", "what_it_breaks", "edits": [{"file", "old", "new"}], "demo": python source}
The demo runs with the repository as working directory and exits with 0 if all is well.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROLOGUE = 'import os, sys\nsys.path.insert(0, os.getcwd())\n'


def run(*command, **kw):
    return subprocess.run(command, stdout = subprocess.PIPE, stderr = subprocess.STDOUT, text = True, **kw)


def plant(spec):
    scratch = tempfile.mkdtemp(prefix = 'plant_')
    copy = os.path.join(scratch, 'repo')
    try:
        run('cp', '-a', '/repo', copy)
        for edit in spec['edits']:
            path = os.path.join(copy, edit['file'])
            with open(path) as file:
                text = file.read()
            if text.count(edit['old']) != 1:
                return f'{edit["old"]!r} is there {text.count(edit["old"])} times'
            with open(path, 'w') as file:
                file.write(text.replace(edit['old'], edit['new']))
        patch = run('git', '-C', copy, 'diff').stdout
        original = set()
        for edit in spec['edits']:
            added = run('git', '-C', '/repo', 'diff', '3f0798a', 'HEAD', '--', edit['file']).stdout
            original.update(line[1:] for line in added.splitlines() if line.startswith('+'))
        touched = [line[1:] for line in patch.splitlines() if line.startswith('-') and not line.startswith('---')]
        if touched and all(line in original for line in touched):
            return f'only changes lines of fixes: {touched!r}'
        folder = os.path.join(VERIF, 'seeded', spec['id'])
        os.makedirs(folder, exist_ok = True)
        with open(os.path.join(folder, 'demo.py'), 'w') as file:
            file.write(PROLOGUE + spec['demo'])
        with open(os.path.join(folder, 'demo.sh'), 'w') as file:
            file.write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
        with open(os.path.join(folder, 'patch.diff'), 'w') as file:
            file.write(patch)
        with open(os.path.join(folder, 'meta.json'), 'w') as file:
            json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, file, indent = 1)
            file.write('\n')
        problem = None
        good = run('bash', os.path.join(folder, 'demo.sh'), cwd = '/repo')
        bad = run('bash', os.path.join(folder, 'demo.sh'), cwd = copy)
        if good.returncode != 0:
            problem = f'demo fails on the unchanged tree: {good.stdout[-1500:]}'
        elif bad.returncode == 0:
            problem = f'demo passes with the change: {bad.stdout[-1500:]}'
        else:
            # the tests run in /repo, so show the copy there, to them only
            run(
                'unshare', '-Urm', 'bash', '-c',
                'mount --bind "$0" /repo && bash /opt/vp/build.sh; bash /opt/vp/test.sh "$1"', copy, os.path.join(scratch, 'out.json'),
            )
            with open('/opt/vp/BASELINE.json') as file:
                baseline = json.load(file)
            stable = baseline.get('stable') or baseline.get('passed') or list(baseline)
            if isinstance(stable, dict):
                stable = stable.get('passed') or list(stable)
            with open(os.path.join(scratch, 'out.json')) as file:
                passed = set(json.load(file)['passed'])
            missing = [test for test in stable if test not in passed]
            if missing:
                problem = f'{len(missing)} tests fail: {missing[:3]}'
        if problem is not None:
            shutil.rmtree(folder)
            return problem
        return 'ok ' + bad.stdout.strip().splitlines()[-1][:150] if bad.stdout.strip() else 'ok'
    finally:
        shutil.rmtree(scratch, ignore_errors = True)


if __name__ == '__main__':
    only = [name for name in sys.argv[1:] if not name.endswith('.py')]
    for name in sys.argv[1:]:
        if not name.endswith('.py'):
            continue
        specs = {}
        exec(open(name).read(), specs)
        for spec in specs['BUGS']:
            if only and spec['id'] not in only:
                continue
            print(spec['id'], plant(spec), flush = True)
