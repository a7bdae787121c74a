"""C18"""
from .c07 import make

RULE = "The partitions of parse_token for the numeric rules (language of the rule as precondition) are compared with: integer constant exactly when the digits, with the prefix and the underscores removed, convert to a 32-bit signed number in the rule's radix; fraction and exponent forms are float constants."


def run():
    return make('C18', RULE)
