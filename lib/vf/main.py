"""Inner process of a check: `python -m vf.main ID`."""
import importlib.util, os, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def exit_now(code):
    sys.stdout.flush()
    os._exit(code)


def main():
    identifier = sys.argv[1]
    from . import harness, progress
    from .report import Report, Violation
    from .tlc import MachineryError, ModelViolation

    spec = importlib.util.spec_from_file_location('check_' + identifier, os.path.join(VERIF, 'checks', identifier + '.py'))
    module = importlib.util.module_from_spec(spec)
    report = Report(identifier)
    error_stream = sys.stderr

    def fail(what, **details):
        report.violation(Violation(what, progress.snapshot(), **details))
        exit_now(report.finish())

    def machinery(text):
        error_stream.write(text + '\n')
        error_stream.flush()
        print('MACHINERY-FAILURE ' + text[:3000])
        exit_now(2)

    # the check's own code must load without the code under test
    try:
        spec.loader.exec_module(module)
    except BaseException:
        machinery(traceback.format_exc())

    try:
        harness.prepare(getattr(module, 'FAKE_CLOCK', True))
    except BaseException as exception:
        fail(f'scarletio cannot be imported: {exception!r}', traceback = traceback.format_exc())

    stall = getattr(module, 'STALL', 60.0)
    limit = getattr(module, 'LIMIT', 840.0 if report.tier != 'thorough' else 3600.0)
    if not os.environ.get('VF_DEBUG'):
        sys.stderr = harness.NullStream()

    outcome = []
    done = threading.Event()

    def run():
        try:
            module.run(report)
            outcome.append(None)
        except BaseException as exception:
            outcome.append(exception)
        finally:
            done.set()

    thread = threading.Thread(target = run, daemon = True, name = 'check')
    thread.start()
    started = harness.REAL_MONOTONIC()
    while not done.wait(0.5):
        now = harness.REAL_MONOTONIC()
        if progress.busy_since is not None and now - progress.busy_since > stall:
            frames = sys._current_frames()
            stacks = {t.name: ''.join(traceback.format_stack(frames[t.ident])[-8:]) for t in threading.enumerate() if t.ident in frames}
            fail(f'the code does not come to an end: {progress.describe()}', stacks = stacks)
        if now - started > limit:
            machinery(f'the check did not finish in {limit} s')

    exception = outcome[0]
    if exception is None:
        exit_now(report.finish())
    if isinstance(exception, Violation):
        report.violation(exception)
        exit_now(report.finish())
    text = ''.join(traceback.format_exception(exception))
    if isinstance(exception, (MachineryError, ModelViolation)):
        machinery(text)
    # An exception from the check itself or from code it called outside of a replayed step.
    last = traceback.extract_tb(exception.__traceback__)
    if any('/scarletio/' in frame.filename for frame in last):
        fail(f'{type(exception).__name__}: {exception}', traceback = text)
    machinery(text)


main()
