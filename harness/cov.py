"""Development aid: with VERIF_COV=DIR set, record which lines of the code under test and of the checks are executed."""
import json
import os
import sys


def start(dirname, prefixes):
    seen = {}
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "verif")

    def line(code, number):
        if code.co_filename.startswith(prefixes):
            seen.setdefault(code.co_filename, set()).add(number)
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def stop(name):
        mon.set_events(mon.COVERAGE_ID, 0)
        with open(os.path.join(dirname, f"{name}-{os.getpid()}.json"), "w") as f:
            json.dump({k: sorted(v) for k, v in seen.items()}, f)

    return stop
