"""check.py <property id> [--replay FILE]: decides one property on /repo's current tree."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
sys.dont_write_bytecode = True
import vlib


def main():
    pid = sys.argv[1]
    replay = [json.load(open(sys.argv[3]))] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    ctx = vlib.Ctx(pid, replay)
    try:
        importlib.import_module(pid.lower()).run(ctx)
        rc = ctx.finish()
    except (vlib.CheckError, SystemExit) as e:
        print('CHECK ERROR:', e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)


main()
