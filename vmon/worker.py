"""
Runs the share of one property's scenarios given to one worker process.
"""
import json
import os
import sys


def main(argv):
    prop, tier, seed, shard, nshards, out = argv[:6]
    only = json.loads(argv[6]) if len(argv) > 6 else None
    from vmon import env

    env.install()
    import importlib

    core = importlib.import_module("vmon.core")
    import fcntl

    with open(os.path.join(os.environ["VMON_HOME"], "tmp", ".import.lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        import aiootp
    assert aiootp.__file__.startswith(os.environ["VMON_HOME"]), aiootp.__file__
    os.environ["VMON_CHILD"] = "1"
    importlib.import_module(f"vmon.props.{prop.lower()}")
    runner = core.Runner(prop, tier, int(seed), int(shard), int(nshards), out, only)
    runner.run()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main(sys.argv[1:])
