import os
import sys


def usage():
    print('usage: python -m sim.main check <id> [--tier quick|thorough] [--runs N] [--workers N] [--seed N] [--keep-going]\n'
          '       python -m sim.main replay <file>\n       python -m sim.main digest <id> <first> <count>')
    return 64


def main(argv):
    from . import runner
    if not argv:
        return usage()
    cmd = argv[0]
    if cmd == 'replay':
        return runner.main_replay(argv[1])
    if cmd == 'digest':
        # one line per run: used by the determinism self-test
        from . import boot, core
        boot.load()
        check = runner.get_check(argv[1])
        if hasattr(check, 'prepare'):
            check.prepare()
        out = os.dup(1)
        devnull = os.open('/dev/null', os.O_WRONLY)
        os.dup2(devnull, 1)
        for i in range(int(argv[2]), int(argv[2]) + int(argv[3])):
            rec = core.make_record(check, int(os.environ.get('VERIF_SEED', '1')), i, 'quick')
            r = core.execute(check, rec)
            os.write(out, ('%d %s %s %d %s %s %s\n' % (i, r['status'], r['digest'], r['decisions'], r['kind'],
                     sorted(r['counts'].items()), sorted(r['faults'].items()))).encode())
        return 0
    if cmd == 'check':
        a = list(argv[2:])
        opt = dict(tier=os.environ.get('VERIF_TIER') or 'quick', seed=os.environ.get('VERIF_SEED') or '1', runs=None, workers=None, wall=None)
        keep = False
        while a:
            k = a.pop(0)
            if k == '--keep-going':
                keep = True
            else:
                opt[k.lstrip('-')] = a.pop(0)
        num = lambda x: None if x is None else int(x)
        return runner.main(argv[1], opt['tier'], int(opt['seed']), num(opt['runs']), num(opt['workers']), num(opt['wall']), keep)
    return usage()


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
