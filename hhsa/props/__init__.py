"""One module per property; roots() lists its entry points."""
import importlib
_mods = {}
def load(prop):
    m = _mods.get(prop)
    if m is None: m = _mods[prop] = importlib.import_module("hhsa.props." + prop.lower())
    return m
