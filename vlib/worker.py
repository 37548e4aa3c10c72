"""Runs cases sent on stdin (one JSON object per line); replies on the fd given."""
import faulthandler, importlib, json, os, sys, traceback, warnings


def main():
    prop, build_dir, fd = sys.argv[1], sys.argv[2], int(sys.argv[3])
    faulthandler.enable()
    out = os.fdopen(fd, 'w')
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, verif)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    from vlib import inject
    inject.install(build_dir)
    from vlib.mon import Mon
    mod = importlib.import_module('checks.' + prop.lower())
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        case = json.loads(line)
        mon = Mon()
        err = None
        try:
            mod.run(case, mon)
        except Exception:
            err = traceback.format_exc()
        res = mon.result()
        if err is not None:
            res['fails'].append(dict(what='unexpected exception', detail=dict(trace=err[-3000:])))
        sys.stdout.flush()
        sys.stderr.flush()
        out.write(json.dumps(res, default=float) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
