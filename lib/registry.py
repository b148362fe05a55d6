"""Where each property's check lives."""
import importlib
MODULES = ["checks_open", "checks_session", "checks_lib", "checks_misc", "checks_e2e"]
CHECKS = {}


def check(pid, rule, technique, note, level="exploration"):
    def deco(fn):
        CHECKS[pid] = {"fn": fn, "rule": rule, "technique": technique, "note": note, "level": level}
        return fn
    return deco


def load(pid=None):
    for m in MODULES:
        try:
            importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
    return CHECKS[pid] if pid else CHECKS
