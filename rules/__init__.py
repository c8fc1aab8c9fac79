""" Semantic rules over the current tree, by name. """
import importlib
import os

RULES = {}


def rule(fn):
    """ Register a rule: called with the conformance object, yields verdicts. """
    RULES[fn.__name__] = fn
    return fn


def run(name, conf):
    """ Verdicts of a rule. """
    if not RULES:
        here = os.path.dirname(os.path.abspath(__file__))
        for f in sorted(os.listdir(here)):
            if f.endswith(".py") and f != "__init__.py":
                importlib.import_module(f"rules.{f[:-3]}")
    if name not in RULES:
        return []
    return list(RULES[name](conf))
