"""Execute the scenarios of one property (one shard) and record events."""
import importlib
import json
import signal
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
prop, module, tier, seed, shard, nshards, gen, outfile = sys.argv[1:9]
shard, nshards, seed = int(shard), int(nshards), int(seed)
import common                                                  # noqa: E402
mod = importlib.import_module(module)


class Late(BaseException):
    pass


def _late(*_):
    raise Late()


signal.signal(signal.SIGALRM, _late)
ONLY = os.environ.get("VERIF_ONLY")
LIMIT = int(os.environ.get("VERIF_SCENARIO_LIMIT", "120"))

with open(outfile, "w") as fh:
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    for k, (name, make) in enumerate(mod.scenarios(prop, tier, seed, gen)):
        if k % nshards != shard:
            continue
        if ONLY and name != ONLY:
            continue
        signal.alarm(LIMIT)
        try:
            evs = mod.run(make())
        except Late:
            evs = [dict(kind="late", note="no result within %d s" % LIMIT)]
        except Exception as ex:                               # noqa
            import traceback
            evs = [dict(kind="crash", note=traceback.format_exc()[-1500:])]
        finally:
            signal.alarm(0)
        for j, ev in enumerate(evs):
            ev["id"] = name if len(evs) == 1 else "%s.%d" % (name, j)
            common.emit(fh, ev)
        fh.flush()
    fh.write(json.dumps({"done": 1}) + "\n")
