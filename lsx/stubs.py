"""Contract stubs: summaries of LGAR-C functions whose own contract is decided by a separate harness."""


def install(e, name):
    STUBS[name](e)


STUBS = {}
