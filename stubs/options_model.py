# Option classes of an application that uses OptionsGlue.  Read by the analyser, never executed.
from txstatsd.service import OptionsGlue


class Plain(OptionsGlue):
    config_section = "statsd"
    optParameters = [["test", "t", "default", "help"], ["number", "n", 5, "help", int], ["ratio", "f", 0.5, "help", float], ["long-name", None, None, "help", str],
                     ["numbers", "b", 7, "help", int]]


class Derived(Plain):
    optParameters = [["extra", "e", "none", "help", str], ["size", "z", None, "help", int]]

    def __init__(self):
        Plain.__init__(self)
        self["many"] = []

    def opt_many(self, value):
        self["many"].append(value)
