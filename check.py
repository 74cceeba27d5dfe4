#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vf
import registry


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        vf.TIER = sys.argv[2]
    entry = registry.CHECKS[prop]
    with vf.Scratch() as sc:
        ctx = vf.Ctx(prop, sc)
        try:
            entry['run'](ctx)
        except vf.Violation as v:
            path = vf.replay_file(prop, {'property': prop, 'what': v.what, 'replay': v.replay, 'seed': vf.SEED, 'tier': vf.TIER})
            vf.write_evidence(ctx, entry['level'], 1, entry['assumptions'])
            print(v.what)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        except vf.BuildError as e:
            if entry.get('build_is_violation'):
                path = vf.replay_file(prop, {'property': prop, 'what': 'a program that uses the public interface does not compile', 'compiler': str(e)})
                vf.write_evidence(ctx, entry['level'], 1, entry['assumptions'])
                print(str(e))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                return 1
            print(e)
            return 2
        except Exception:
            print(traceback.format_exc()[-3000:])
            return 2
        vf.write_evidence(ctx, entry['level'], 0, entry['assumptions'])
        for line in registry.known_findings(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, line))
        ctx.log('held: %d states, %d executions of the code checked' % (ctx.states, ctx.traces))
        return 0


if __name__ == '__main__':
    import threading
    box = []
    t = threading.Thread(target=lambda: box.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(box[0] if box else 2)
