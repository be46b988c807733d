import importlib
import os
import sys

from . import core


def run(argv):
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    mod = importlib.import_module('mc.props.%s' % prop.lower())
    if tier == 'replay':
        return core.replay(mod.families('thorough'), argv[2])
    only = [a for a in argv[2:] if not a.startswith('-')]
    fams = mod.families(tier)
    if only:
        fams = [f for f in fams if any(o in f.name for o in only)]
    budget = mod.BUDGET[tier] if hasattr(mod, 'BUDGET') else {'quick': 240, 'thorough': 3600}[tier]
    return core.main(prop, mod.TITLE, fams, tier, budget,
                     level=getattr(mod, 'LEVEL', 'model_checking'),
                     rule=getattr(mod, 'RULE', ''), assumptions=getattr(mod, 'ASSUMPTIONS', ()),
                     hang=getattr(mod, 'HANG', False))


if __name__ == '__main__':
    sys.exit(run(sys.argv[1:]))
