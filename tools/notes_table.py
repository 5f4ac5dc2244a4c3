DEFAULT_NOTE = ("Held on every execution explored; random exploration from a seed, no proof. Trusts the compiler, its sanitizer "
                "runtimes and the reference model in the driver.")
STANDIN_NOTE = DEFAULT_NOTE + (" The real sources are compiled against /verif/standin, a stand-in for the dynamic-graph (and pinocchio) "
                "headers that are not installed here.")
LEVEL_NOTES = {}
NOT_APPLICABLE = {}
def needs_standin(src):
    return "@dgfree" not in src
