"""Which function decides which property."""

import core


def run(pid):
    import analysis
    import generation
    import api
    import machines
    import prompts
    import purity
    table = {}
    for mod in (analysis, generation, api, machines, prompts, purity):
        for k, v in vars(mod).items():
            if len(k) == 3 and k[0] == "p" and k[1:].isdigit():
                table[k.upper()] = (mod, v)
    mod, fn = table[pid]
    opts = getattr(fn, "opts", {})
    ck = core.Check(pid, **opts)
    mod.CK = ck
    try:
        fn(ck)
    finally:
        ck.builds.close()
    return ck.finish()
