R = "crates/postgresql-cst-parser/src/"
G = R + "lexer/generated.rs"
U = R + "lexer/util.rs"
BOTH = r'''# cwd: the repository root, after the build
set -u
export CARGO_NET_OFFLINE=true
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
# both TEXT...: the two builds must print the same for every text
both() {
  CARGO_TARGET_DIR=$T/a cargo build -q --offline -p postgresql-cst-parser --bin parse > $T/log 2>&1 || { tail -3 $T/log; exit 4; }
  CARGO_TARGET_DIR=$T/b cargo build -q --offline -p postgresql-cst-parser --bin parse --features regex-match > $T/log 2>&1 || { tail -3 $T/log; exit 4; }
  for t in "$@"; do
    a=$(printf '%b' "$t" | $T/a/debug/parse 2>&1); b=$(printf '%b' "$t" | $T/b/debug/parse 2>&1)
    [ "$a" = "$b" ] || { echo "FAILED: the builds differ on: $t"; exit 1; }
  done
}
'''
TEXTS = r'''both "select 1" "select 'a'\\r'b'" "select E'\\\\\\xc3\\xa9'" 'select $a$ x $b$a$' "select 1 + 2 -- x" "select \"a\"\"b\", U&'x' /* a /* b */ */"
'''
SEEDS = [
 dict(id="c15-carriage-return", property="C15", raw=True,
  needs="the regex-match feature and a string constant continued after a lone carriage return",
  breaks="the regex build does not join 'a'\\r'b'; the default build does",
  edits=[(G, r'''(?-u)^((((((([ \t\f\v])))*([\n\r])((([''', r'''(?-u)^((((((([ \t\f\v\r])))*(\n)((([''')],
  demo=BOTH + TEXTS),
 dict(id="c15-no-rounding", property="C15", raw=True,
  needs="the regex-match feature and an escape string with a backslash before a non-ASCII character",
  breaks="the regex build lets a match end inside a character and panics",
  edits=[(U, "            (Self::round_up_to_char_boundary(s, longest_match), kind)\n", "            (longest_match, kind)\n")],
  demo=BOTH + TEXTS),
 dict(id="c15-dollar-action", property="C15", raw=True,
  needs="the regex-match feature and a dollar-quoted string that contains another dollar quote",
  breaks="the regex build swallows the dollar sign that may start the closing quote",
  edits=[(G, "self.yyless(self.yyleng - 1);", "self.yyless(self.yyleng);", ("nth", 1))],
  demo=BOTH + TEXTS),
]
