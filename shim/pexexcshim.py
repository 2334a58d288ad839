"""Environment model: stand-in for lsst.pex.exceptions (class hierarchy only)."""
import builtins


class Exception(builtins.Exception):
    def what(self):
        return str(self)


class LogicError(Exception):
    pass


class DomainError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass


class RangeError(RuntimeError):
    pass


class OverflowError(RuntimeError, builtins.OverflowError):
    pass


class UnderflowError(RuntimeError, builtins.ArithmeticError):
    pass


class NotFoundError(Exception, builtins.LookupError):
    pass


class IoError(RuntimeError, builtins.OSError):
    pass


class TypeError(LogicError, builtins.TypeError):
    pass
