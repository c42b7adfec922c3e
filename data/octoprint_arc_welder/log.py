"""Stands in for the OctoPrint plugin's logging module, which the extension imports."""
import logging


class _L(logging.Logger):
    def setLevel(self, level):
        logging.Logger.setLevel(self, level)
        self._cache.clear()  # the manager does not know this logger

    # what the functions return is made anew each time, so that a lost reference is a lost object
    def info(self, m, *a, **k):
        self.log(20, m, *a, **k)
        return object()

    def debug(self, m, *a, **k):
        self.log(10, m, *a, **k)
        return object()

    def error(self, m, *a, **k):
        self.log(40, m, *a, **k)
        return object()

    def verbose(self, m, *a, **k):
        self.log(5, m, *a, **k)

    def warn(self, m, *a, **k):
        self.log(30, m, *a, **k)


# [least level, call that raises or -1 for none (0 for every), kind] and what arrived, while somebody looks
watch = None
records = []
calls = 0
keep = True
loggers = []


class _H(logging.Handler):
    def emit(self, r):
        global calls
        if watch is None:
            return
        calls += 1
        if watch[1] == 0 or watch[1] == calls:
            raise {"value": ValueError, "os": OSError, "memory": MemoryError, "unicode": UnicodeError}[watch[2]]("the logger fails")
        if keep:
            records.append((r.levelno, r.msg if type(r.msg) is str and not r.args else repr((r.msg, r.args))))


class LoggingConfigurator(object):
    def __init__(self, *names):
        self.names = names

    def get_logger(self, name):
        l = _L(name)
        l.addHandler(_H())
        loggers.append(l)
        return l
