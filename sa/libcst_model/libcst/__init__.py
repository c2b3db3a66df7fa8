"""Model of the part of libcst the editor's parser uses, interpreted by the engine. Trees are made and printed natively (see checks/c32.py)."""


def _native_parse(kind, text):
    pass


def _native_init(node, args, kwargs):
    pass


def _native_copy(node, changes):
    pass


def _native_code(node):
    pass



class MaybeSentinel:
    DEFAULT = "MaybeSentinel.DEFAULT"


class RemovalSentinel:
    REMOVE = "RemovalSentinel.REMOVE"


class ParserSyntaxError(Exception):
    pass


class FlattenSentinel:
    def __init__(self, nodes):
        self.nodes = nodes


def RemoveFromParent():
    return RemovalSentinel.REMOVE


def parse_module(text):
    return _native_parse("module", text)


def parse_expression(text):
    return _native_parse("expression", text)


def parse_statement(text):
    return _native_parse("statement", text)


class CSTNode:
    _children = ()
    _kind = "CSTNode"
    lpar = ()
    rpar = ()

    def __init__(self, *args, **kwargs):
        _native_init(self, args, kwargs)

    def with_changes(self, **changes):
        return _native_copy(self, changes)

    def deep_clone(self):
        changes = {}
        for name in self._children:
            value = getattr(self, name)
            if isinstance(value, CSTNode):
                changes[name] = value.deep_clone()
            elif isinstance(value, (list, tuple)):
                changes[name] = [x.deep_clone() for x in value]
        return _native_copy(self, changes)

    def visit(self, visitor):
        descend = visitor.on_visit(self)
        updated = self
        if descend:
            changes = {}
            for name in self._children:
                value = getattr(self, name)
                if isinstance(value, CSTNode):
                    changes[name] = value.visit(visitor)
                elif isinstance(value, (list, tuple)):
                    new = []
                    for x in value:
                        r = x.visit(visitor)
                        if isinstance(r, FlattenSentinel):
                            new += list(r.nodes)
                        elif r != RemovalSentinel.REMOVE:
                            new.append(r)
                    changes[name] = tuple(new)
            if isinstance(visitor, CSTTransformer):
                updated = _native_copy(self, changes)
                if self._kind == "SimpleStatementLine" and len(updated.body) == 0 and len(self.body) > 0:
                    visitor.on_leave(self, updated)
                    return RemovalSentinel.REMOVE
        if isinstance(visitor, CSTTransformer):
            return visitor.on_leave(self, updated)
        visitor.on_leave(self)
        return self

    def children(self):
        ret = []
        for name in self._children:
            value = getattr(self, name)
            if isinstance(value, CSTNode):
                ret.append(value)
            elif isinstance(value, (list, tuple)):
                ret += list(value)
        return ret


class CSTTransformer:
    def __init__(self, *args):
        pass

    def on_visit(self, node):
        f = getattr(self, "visit_" + node._kind, None)
        if f is None:
            return True
        return False if f(node) is False else True

    def on_leave(self, original_node, updated_node):
        f = getattr(self, "leave_" + original_node._kind, None)
        if f is None:
            return updated_node
        return f(original_node, updated_node)


class CSTVisitor:
    def __init__(self, *args):
        pass

    def on_visit(self, node):
        f = getattr(self, "visit_" + node._kind, None)
        if f is None:
            return True
        return False if f(node) is False else True

    def on_leave(self, original_node):
        f = getattr(self, "leave_" + original_node._kind, None)
        if f is not None:
            f(original_node)


class Module(CSTNode):
    _kind = "Module"
    _children = ("body",)
    header = ()

    def code_for_node(self, node):
        return _native_code(node)

    @property
    def code(self):
        return _native_code(self)


class BaseExpression(CSTNode):
    _kind = "BaseExpression"


class BaseStatement(CSTNode):
    _kind = "BaseStatement"


class BaseSmallStatement(CSTNode):
    _kind = "BaseSmallStatement"


class BaseCompoundStatement(BaseStatement):
    _kind = "BaseCompoundStatement"


class BaseString(BaseExpression):
    _kind = "BaseString"


class BaseNumber(BaseExpression):
    _kind = "BaseNumber"


class SimpleStatementLine(BaseStatement):
    _kind = "SimpleStatementLine"
    _children = ("body",)
    leading_lines = ()


class IndentedBlock(CSTNode):
    _kind = "IndentedBlock"
    _children = ("body",)


class Assign(BaseSmallStatement):
    _kind = "Assign"
    _children = ("targets", "value",)


class AssignTarget(CSTNode):
    _kind = "AssignTarget"
    _children = ("target",)


class AnnAssign(BaseSmallStatement):
    _kind = "AnnAssign"
    _children = ("target", "value",)


class AugAssign(BaseSmallStatement):
    _kind = "AugAssign"
    _children = ("target", "value",)


class Expr(BaseSmallStatement):
    _kind = "Expr"
    _children = ("value",)


class Import(BaseSmallStatement):
    _kind = "Import"
    _children = ("names",)


class ImportFrom(BaseSmallStatement):
    _kind = "ImportFrom"
    _children = ("names",)


class ImportAlias(CSTNode):
    _kind = "ImportAlias"
    _children = ("name", "asname",)
    asname = None
    comma = MaybeSentinel.DEFAULT


class ImportStar(CSTNode):
    _kind = "ImportStar"


class AsName(CSTNode):
    _kind = "AsName"
    _children = ("name",)


class Return(BaseSmallStatement):
    _kind = "Return"


class Pass(BaseSmallStatement):
    _kind = "Pass"


class SmallStatement(BaseSmallStatement):
    _kind = "SmallStatement"


class FunctionDef(BaseCompoundStatement):
    _kind = "FunctionDef"
    _children = ("name", "blocks",)


class ClassDef(BaseCompoundStatement):
    _kind = "ClassDef"
    _children = ("name", "blocks",)


class If(BaseCompoundStatement):
    _kind = "If"
    _children = ("blocks",)


class Try(BaseCompoundStatement):
    _kind = "Try"
    _children = ("blocks",)


class For(BaseCompoundStatement):
    _kind = "For"
    _children = ("blocks",)


class While(BaseCompoundStatement):
    _kind = "While"
    _children = ("blocks",)


class With(BaseCompoundStatement):
    _kind = "With"
    _children = ("blocks",)


class Name(BaseExpression):
    _kind = "Name"


class Attribute(BaseExpression):
    _kind = "Attribute"
    _children = ("value", "attr",)


class Call(BaseExpression):
    _kind = "Call"
    _children = ("func", "args",)


class Arg(CSTNode):
    _kind = "Arg"
    _children = ("value", "keyword",)
    star = ""
    keyword = None


class Dict(BaseExpression):
    _kind = "Dict"
    _children = ("elements",)


class DictElement(CSTNode):
    _kind = "DictElement"
    _children = ("key", "value",)


class StarredDictElement(CSTNode):
    _kind = "StarredDictElement"
    _children = ("value",)


class List(BaseExpression):
    _kind = "List"
    _children = ("elements",)


class Element(CSTNode):
    _kind = "Element"
    _children = ("value",)


class StarredElement(CSTNode):
    _kind = "StarredElement"
    _children = ("value",)


class SimpleString(BaseString):
    _kind = "SimpleString"


class ConcatenatedString(BaseString):
    _kind = "ConcatenatedString"


class FormattedString(BaseString):
    _kind = "FormattedString"


class Integer(BaseNumber):
    _kind = "Integer"


class Float(BaseNumber):
    _kind = "Float"


class Imaginary(BaseNumber):
    _kind = "Imaginary"


class Tuple(BaseExpression):
    _kind = "Tuple"


class GeneratorExp(BaseExpression):
    _kind = "GeneratorExp"


class Lambda(BaseExpression):
    _kind = "Lambda"


class BinaryOperation(BaseExpression):
    _kind = "BinaryOperation"


class BooleanOperation(BaseExpression):
    _kind = "BooleanOperation"


class UnaryOperation(BaseExpression):
    _kind = "UnaryOperation"


class Comparison(BaseExpression):
    _kind = "Comparison"


class Subscript(BaseExpression):
    _kind = "Subscript"


class Set(BaseExpression):
    _kind = "Set"


class ListComp(BaseExpression):
    _kind = "ListComp"


class SetComp(BaseExpression):
    _kind = "SetComp"


class DictComp(BaseExpression):
    _kind = "DictComp"


class IfExp(BaseExpression):
    _kind = "IfExp"


class NamedExpr(BaseExpression):
    _kind = "NamedExpr"


class Ellipsis(BaseExpression):
    _kind = "Ellipsis"


class Yield(BaseExpression):
    _kind = "Yield"


class Await(BaseExpression):
    _kind = "Await"


class Comma(CSTNode):
    _kind = "Comma"


class LeftSquareBracket(CSTNode):
    _kind = "LeftSquareBracket"


class RightSquareBracket(CSTNode):
    _kind = "RightSquareBracket"


class LeftCurlyBrace(CSTNode):
    _kind = "LeftCurlyBrace"


class RightCurlyBrace(CSTNode):
    _kind = "RightCurlyBrace"


class LeftParen(CSTNode):
    _kind = "LeftParen"


class RightParen(CSTNode):
    _kind = "RightParen"


class SimpleWhitespace(CSTNode):
    _kind = "SimpleWhitespace"


class ParenthesizedWhitespace(CSTNode):
    _kind = "ParenthesizedWhitespace"


class TrailingWhitespace(CSTNode):
    _kind = "TrailingWhitespace"


class Newline(CSTNode):
    _kind = "Newline"


class EmptyLine(CSTNode):
    _kind = "EmptyLine"


class Comment(CSTNode):
    _kind = "Comment"


class Dot(CSTNode):
    _kind = "Dot"


class AssignEqual(CSTNode):
    _kind = "AssignEqual"


from . import metadata
