"""C27"""
from .c07 import make

RULE = "The partitions of parse_token for the Unicode escape rules are compared, as constraints on the escape's code value, with the surrogate and validity rules."


def run():
    return make('C27', RULE)
