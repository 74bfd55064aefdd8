#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current source."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from checks import core

WHERE = {"P01": "c_parse", "P02": "c_parse", "P03": "c_parse", "P04": "c_parse", "P05": "c_parse",
         "X03": "c_trace", "E06": "c_env", "X02": "c_env", "E01": "c_expr", "E02": "c_expr", "E03": "c_expr", "E04": "c_expr", "E05": "c_expr", "E07": "c_expr",
         "M01": "c_model", "M02": "c_model", "M03": "c_model", "M05": "c_model", "M06": "c_model", "M07": "c_model", "M04": "c_model", "M08": "c_model", "M09": "c_model",
         "V01": "c_values", "V02": "c_values",
         "O01": "c_ops", "O02": "c_ops", "O03": "c_ops", "O04": "c_ops", "O05": "c_ops",
         "S01": "c_pool", "S02": "c_pool", "S03": "c_pool", "S05": "c_pool", "S04": "c_names", "X01": "c_throw",
         "L01": "c_lexer", "L02": "c_lexer", "L03": "c_lexer", "L04": "c_lexer", "L05": "c_lexer"}


def lazy(mod):
    def go(pid, tier):
        return importlib.import_module("checks." + mod).check(pid, tier)
    return go


if __name__ == "__main__":
    rc = core.main({k: lazy(v) for k, v in WHERE.items()})
    sys.stdout.flush()
    os._exit(rc)
