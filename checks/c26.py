"""C26"""
from .c07 import make

RULE = 'The token start, token end and next scan position of every partition of parse_token, composed with the span selection of lex(), are compared with the extent of the construct; tokens are appended in scan order.'


def run():
    return make('C26', RULE)
