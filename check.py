#!/usr/bin/env python3
"""check.py ID: runs the check of one property.  Exit 0: held on everything explored (known findings are printed);
exit 1 with a VIOLATION line: broken; exit 2: the machinery failed."""
import importlib, json, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, os.path.join(V, 'checks'))
import vlib


def main(pid):
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    known = {(f['property'], f['key']): f for f in kf['findings']}
    ctx = vlib.Ctx(pid)
    rc = 0
    try:
        mod = importlib.import_module(pid)
        try:
            mod.run(ctx)
        except vlib.CodeFailure as e:
            ctx.violate(e.key, str(e))
        new, old = [], {}
        for key, what, data in ctx.violations:
            if (pid, key) in known:
                old[key] = what
            else:
                new.append((key, what, data))
        for f in kf['findings']:
            if f['property'] == pid and f['key'] in old:
                print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
        if os.environ.get('VQ_KEEP'):
            with open(os.path.join(ctx.out, 'all.txt'), 'w') as f:
                for key, what, data in new:
                    f.write('%s ## %s\n' % (key, what))
        seen = set()
        for key, what, data in new:
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 6:
                break
            p = os.path.join(ctx.out, 'violation-%02d.json' % len(seen))
            with open(p, 'w') as f:
                json.dump({'property': pid, 'key': key, 'what': what, 'data': data, 'seed': ctx.seed, 'tier': ctx.tier}, f, indent=1)
            print('  %s: %s' % (key, what[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
            rc = 1
        ev = {'property': pid, 'tier': 'quick' if ctx.quick else 'thorough', 'seed': ctx.seed,
              'level': getattr(mod, 'LEVEL', 'model_checking'), 'coverage': ctx.cov, 'assumptions': ctx.assumptions,
              'wall_s': round(time.time() - ctx.t0, 1), 'violations': len(seen)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        ctx.note('%s: %d violation(s), %d known finding(s); %s' % (pid, len(seen), len(old),
                 {k: v for k, v in ctx.cov.items() if k != 'samples'}))
    except vlib.MachineryError as e:
        print('MACHINERY: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get('VQ_KEEP'):
            ctx.close()
        else:
            print('kept', ctx.work)
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
