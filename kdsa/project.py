"""Loads the Python sources of /repo as syntax trees and resolves module names.
Nothing of the analysed project is imported or executed."""
import ast, os, hashlib

REPO = os.environ.get("KDSA_REPO", "/repo")


class ModuleSrc:
    def __init__(self, name, path, rel, is_pkg, text):
        self.name, self.path, self.rel, self.is_pkg, self.text = name, path, rel, is_pkg, text
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(text, filename=path)
        self.pkg = name if is_pkg else name.rpartition(".")[0]
        for parent in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(parent):
                ch._parent = parent

    def resolve_relative(self, level, module):
        if level == 0:
            return module or ""
        parts = self.pkg.split(".")
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        base = ".".join(parts)
        return base + ("." + module if module else "")


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.index = {}      # dotted -> (path, rel, is_pkg)
        self.mods = {}
        for root in ("kd",):
            for dp, dn, fn in os.walk(os.path.join(self.repo, root)):
                dn[:] = sorted(d for d in dn if d != "__pycache__" and not d.startswith("."))
                for f in sorted(fn):
                    if f.endswith(".py"):
                        path = os.path.join(dp, f)
                        rel = os.path.relpath(path, self.repo)
                        parts = rel[:-3].split(os.sep)
                        pkg = parts[-1] == "__init__"
                        if pkg:
                            parts = parts[:-1]
                        self.index[".".join(parts)] = (path, rel, pkg)
        for f in ("app.py",):
            path = os.path.join(self.repo, f)
            if os.path.exists(path):
                self.index[f[:-3]] = (path, f, False)
        # directories without __init__ act as namespace packages
        self.nspkgs = set()
        for n in list(self.index):
            while "." in n:
                n = n.rpartition(".")[0]
                if n not in self.index:
                    self.nspkgs.add(n)

    def has(self, name):
        return name in self.index or name in self.nspkgs

    def mod(self, name):
        m = self.mods.get(name)
        if m is None:
            path, rel, pkg = self.index[name]
            with open(path, encoding="utf-8") as f:
                m = ModuleSrc(name, path, rel, pkg, f.read())
            self.mods[name] = m
        return m

    def all(self):
        return [self.mod(n) for n in sorted(self.index)]

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.index):
            h.update(n.encode()); h.update(self.mod(n).text.encode())
        return h.hexdigest()[:16]
