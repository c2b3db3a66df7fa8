"""Model of libcst.metadata: scopes with their import and other assignments."""


class ScopeProvider:
    pass


class Assignment:
    def __init__(self, name, node, references):
        self.name = name
        self.node = node
        self.references = references


class Scope:
    def __init__(self, assignments):
        self.assignments = assignments


class GlobalScope(Scope):
    pass


class FunctionScope(Scope):
    pass


class ClassScope(Scope):
    pass


class MetadataWrapper:
    def __init__(self, module, unsafe_skip_copy=False):
        self.module = module if unsafe_skip_copy else module.deep_clone()

    def resolve(self, provider):
        return _native_scopes(self.module)


def _native_scopes(module):
    pass
