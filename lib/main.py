import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core


def main(a):
    if a and a[0] == '--shard':
        pid, tier, seed, i, n, budget, out = a[1:]
        core.shard_main(pid, tier, int(seed), int(i), int(n), float(budget), out)
        return 0
    pid = None
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    shards = None
    i = 0
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]; i += 2
        elif a[i] == '--seed':
            seed = int(a[i + 1]); i += 2
        elif a[i] == '--shards':
            shards = int(a[i + 1]); i += 2
        elif a[i] == '--replay':
            return core.replay(a[i + 1])
        else:
            pid = a[i]; i += 1
    if not pid or tier not in ('quick', 'thorough'):
        sys.stderr.write('usage: check CNN [--tier quick|thorough] [--seed N] [--shards N] [--replay FILE]\n')
        return 2
    return core.main(pid.upper(), tier, seed, shards)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
