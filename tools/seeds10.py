import re
G = "crates/postgresql-cst-parser/src/lexer/generated.rs"
_t = open("/repo/" + G).read()


def cell(table, change):
    """The table's text, and the same with change(rows) applied to its numbers."""
    i = _t.index("pub const TRANSITION_TABLE_%d:" % table)
    j = _t.index("\n    ];", i)
    old = _t[i:j]
    k = old.index("= [") + 3
    body = old[k:]
    nums = list(re.finditer(r"\d+", body))
    flat = [int(m.group(0)) for m in nums]
    rows = [flat[x:x + 256] for x in range(0, len(flat), 256)]
    ch = change(rows)
    m = nums[ch[0] * 256 + ch[1]]
    ln = body.rfind("\n", 0, m.start()) + 1
    return G, old, old[:k] + body[:m.start()] + str(ch[2]) + body[m.end():]


def cr(rows):
    for s, r in enumerate(rows):
        if r[13] == r[10] != r[32]:
            return s, 13, r[32]


SEEDS = [
 dict(id="c25-strip-pair", property="C25", needs="a comparison sign followed by two or more signs",
  breaks="dropping trailing signs stops with two characters left",
  edits=[(G, "                                    if !(nchars > 1\n", "                                    if !(nchars > 2\n", ("nth", 0))],
  demo="has 'select a =+- b' 'Equals@9..10'\nhas 'select a =- b' 'Equals@9..10'\n"),
 dict(id="c06-continuation-cr", property="C06", needs="a string continued on the next line after a carriage return alone",
  breaks="a carriage return alone no longer separates the parts of a continued string",
  edits=[cell(6, cr)],
  demo="has \"select 'a'\\r'b'\" 'SCONST@7..14'\nhas \"select 'a'\\n'b'\" 'SCONST@7..14'\n"),
]
