"""Run a small snippet as an extra module of the analysed project (positive examples of the rules)."""
from .project import Project, ModuleSrc
from .worlds import World


class Overlay(Project):
    def __init__(self, base, name, text):
        self.repo, self.index, self.nspkgs = base.repo, dict(base.index), base.nspkgs
        self.mods = dict(base.mods)
        self.index[name] = ("<selftest>", "<selftest>/%s.py" % name, False)
        self.mods[name] = ModuleSrc(name, "<selftest>", "<selftest>/%s.py" % name, False, text)


def run_snippet(an, text, name="kdsa_self"):
    from .worlds import PROJECT
    w = World(an, Overlay(PROJECT(), name, text))
    from .interp import Frame
    w.eng.load(name)
    w.eng.frames.append(Frame(None, name, 0))
    return w
