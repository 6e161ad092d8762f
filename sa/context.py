"""Lazily built shared analyses of one run."""
from .project import Project


class Context:
    def __init__(self, root):
        self.root = root
        self._p = None
        self._fm = None
        self.cache = {}

    @property
    def project(self):
        if self._p is None:
            self._p = Project(self.root)
        return self._p

    @property
    def fields(self):
        if self._fm is None:
            from .fields import FieldModel
            self._fm = FieldModel(self.project).run(4)
        return self._fm

    @property
    def types(self):
        return self.fields.ty
