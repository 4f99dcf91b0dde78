"""Classifiers of the same names as those of stubs, in another module."""
import stubs


class ClLogs(stubs.ClLogs):
    module = "stubs_b"


class ClLogsB(stubs.ClLogsB):
    module = "stubs_b"
