#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property of /repo's current tree."""
import importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rules')]
sys.dont_write_bytecode = True
import ai, facts, report, registry


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    spec = registry.PROPS[pid]
    ai.AI.deadline = t0 + 720
    rep = report.Report(pid, tier)
    P = None
    try:
        progs = {}
        for cfg, rel in spec['configs'](tier):
            d, th = facts.extract(cfg, rel)
            progs[(cfg, rel)] = facts.Program(d)
            rep.notes.append('facts: config=%s debug_assertions=%s functions=%d tree=%s' % (cfg, not rel, len(d['fns']), th[:12]))
        P = next(iter(progs.values()))
        mod = importlib.import_module(spec['module'])
        for (cfg, rel), p in progs.items():
            getattr(mod, spec['fn'])(p, rep, tier, cfg, rel)
    except report.Fatal as e:
        rep.ob('anchor', str(e), False, str(e))
    except facts.BuildError as e:
        print(str(e)[-3000:])
        sys.exit(2)
    except Exception as e:
        # the rest of the property is undecided on this tree; the unchanged tree is fully decided
        traceback.print_exc()
        rep.floors.clear()
        rep.ob('analysis', 'completed', None, '%s: %s' % (type(e).__name__, e))
    sys.exit(report.finish(rep, spec['level'], spec['explanation'], spec['assumptions'], t0, P))


if __name__ == '__main__':
    main()
