from vf.harness import run_in_loop
from vf.conform import batched
from vf.locks import check_locks
from vf.tlc import run_tlc


def run(report):
    deep = report.thorough
    live = run_tlc('S01', 'S01_live.cfg', constants = {
        'Tasks': '{"a", "b", "c"}', 'Watchers': '{}', 'Size': '1', 'HolderCancel': 'TRUE',
    })
    report.part('fairness', states = live.distinct)
    def main(driver):
        for blocks in (False, True):
            how = 'blocks' if blocks else 'calls'
            check_locks(
                report, driver, size = 1, tasks = 'abcd' if deep else 'abc', watchers = [], blocks = blocks,
                sized = False, name = f'lock used by {how}',
            )
            check_locks(
                report, driver, size = 1, tasks = 'abc' if deep else 'ab', watchers = 'xy', blocks = blocks, sized = False,
                name = f'lock used by {how} and watched',
            )
    run_in_loop(batched(main))
    report.assumptions = ['states are compared whenever the loop is idle; cancellations, requests and releases pile up between']
