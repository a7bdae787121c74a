R = "crates/postgresql-cst-parser/src/"
G = R + "lexer/generated.rs"
LP = R + "lexer/lexer_ported.rs"
U = R + "lexer/util.rs"
C = R + "cst.rs"
L = R + "lexer.rs"
KEEP = """cat > /tmp/none <<'X'
X
"""
SEEDS = [
 dict(id="c01-comment-gap", property="C01",
  needs="two comments after each other with whitespace between them, the first a line comment",
  breaks="the position is not advanced after a line comment, so its text appears twice in the tree",
  edits=[(C, "            last_pos = token.end_byte_pos;\n\n            let kind = SyntaxKind::from_raw(RawSyntaxKind(cid));\n            extras.push((\n                kind,\n                token.start_byte_pos,\n                token.end_byte_pos,\n                &input[token.start_byte_pos..token.end_byte_pos],\n            ));\n            tokens.next();",
    "            let kind = SyntaxKind::from_raw(RawSyntaxKind(cid));\n            if kind != SyntaxKind::SQL_COMMENT || tokens_left(&token.value) {\n                last_pos = token.end_byte_pos;\n            }\n\n            extras.push((\n                kind,\n                token.start_byte_pos,\n                token.end_byte_pos,\n                &input[token.start_byte_pos..token.end_byte_pos],\n            ));\n            tokens.next();"),
    (C, "pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {", "/// An empty line comment has no text of its own\nfn tokens_left(text: &str) -> bool {\n    text.len() > 2\n}\n\npub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {")],
  demo=r"""has 'select --\n 1' 'Whitespace@9..11'
"""),
 dict(id="c01-tail-order", property="C01",
  needs="a comment after the final semicolon followed by another comment",
  breaks="after the statement is accepted, a comment directly following another one loses the whitespace between them",
  edits=[(C, "    while let Some(token) = tokens.next() {\n        if last_pos < token.start_byte_pos {", "    while let Some(token) = tokens.next() {\n        if last_pos < token.start_byte_pos && (last_pos == 0 || !input[..last_pos].ends_with(\"*/\")) {")],
  demo=r"""has 'select 1 /* a */   ' 'Root@0..19'
"""),
 dict(id="c03-nested-comment", property="C03",
  needs="a block comment inside a block comment",
  breaks="the opening of a nested comment is pushed back completely, so the scanner reads it again for ever",
  edits=[(G, "                        self.xcdepth += 1;\n                        /* Put back any characters past slash-star; see above */\n                        self.yyless(2);", "                        self.xcdepth += 1;\n                        /* Put back any characters past slash-star; see above */\n                        self.yyless(if self.xcdepth > 2 { 0 } else { 2 });", "all")],
  demo=r"""printf 'select /* a /* b /* c /* d */ */ */ */ 1' > /tmp/c03.$$
timeout 20 "$P" < /tmp/c03.$$ > /tmp/c03.out.$$ 2>&1; rc=$?
rm -f /tmp/c03.$$ /tmp/c03.out.$$
[ $rc = 0 ] || bad "does not finish"
"""),
 dict(id="c09-line-comment", property="C09",
  needs="WITH and TIME separated by a line comment",
  breaks="the search for the next token stops at line comments",
  edits=[(LP, "                TokenKind::C_COMMENT | TokenKind::SQL_COMMENT => continue,", "                TokenKind::C_COMMENT => continue,")],
  demo=r"""has 'select cast(a as time with --c\n time zone)' 'WITH_LA'
"""),
 dict(id="c09-without", property="C09",
  needs="NULLS LAST or NULLS FIRST where NULLS is the identifier of a column",
  breaks="NULLS is reclassified before AS",
  edits=[(LP, '"FIRST_P" | "LAST_P"', '"FIRST_P" | "LAST_P" | "AS"')],
  demo=r"""hasnt 'select nulls as x' 'Error'
has 'select nulls as x' 'NULLS_P'
"""),
 dict(id="c10-comment-follow", property="C10",
  needs="a comment directly followed by a token without whitespace, in the middle of a statement",
  breaks="after a comment an empty whitespace token is put in front of the next token",
  edits=[(C, "                if last_pos < token.start_byte_pos {\n                    extras.push((\n                        SyntaxKind::Whitespace,", "                if last_pos < token.start_byte_pos\n                    || extras.last().is_some_and(|e| e.0 == SyntaxKind::C_COMMENT && e.2 == last_pos)\n                {\n                    extras.push((\n                        SyntaxKind::Whitespace,")],
  demo=r"""hasnt 'select /* a */1' 'Whitespace@14..14'
out 'select /* a */1' | grep -qE '@([0-9]+)\.\.\1 ""' && bad 'an empty whitespace token'
has 'select /* a */1' 'ICONST@14..15'
"""),
 dict(id="c11-end-comment", property="C11",
  needs="a syntax error at the end of a text that ends with a comment",
  breaks="the error at the end of the input is reported at the end of the last comment or token instead",
  edits=[(C, '                        "Action::Error: syntax error at byte position {}",\n                        token.start_byte_pos\n                    ),\n                    start_byte_pos: token.start_byte_pos,', '                        "Action::Error: syntax error at byte position {}",\n                        token.start_byte_pos\n                    ),\n                    start_byte_pos: if token.value.is_empty() { last_pos } else { token.start_byte_pos },')],
  demo=r"""has 'select 1 from   ' 'start_byte_pos: 16'
"""),
 dict(id="c12-swallow", property="C12",
  needs="a malformed token right after a line comment, where the text before it is a complete statement",
  breaks="a scan error ends the token list instead of being returned, so the text before it is accepted",
  edits=[(L, "    while let Some(kind) = lexer.parse_token()? {", "    while let Some(kind) = match lexer.parse_token() {\n        Err(_) if tokens.last().is_some_and(|t: &Token| t.kind == TokenKind::SQL_COMMENT) => None,\n        r => r?,\n    } {")],
  demo=r"""has "select 1 --c\\n 'abc" 'unterminated quoted string'
"""),
 dict(id="c16-nested-empty", property="C16",
  needs="an optional clause that is derived through another optional clause",
  breaks="an empty node that has (empty) children is kept although the feature removes empty nodes",
  edits=[(C, "node.start_byte_pos == node.end_byte_pos {", "node.start_byte_pos == node.end_byte_pos && node.children.len() < 2 {")],
  demo=r"""for s in 'create table t (a int)' 'select 1' 'grant select on t to u' 'create user u' 'alter table t add column a int' 'create index i on t (a)' 'copy t from stdin' 'explain select 1' 'vacuum t' 'create function f() returns int as $$a$$' 'insert into t values (1)' 'create view v as select 1' 'notify a' 'lock t' 'begin' 'select a from t for update' 'create sequence s' 'create database d' 'create role r' 'select sum(a) over (order by a) from t' 'create trigger t after insert on u for each row execute function f()' 'copy t to stdout' 'create type t as (a int)' 'create cast (a as b) without function' 'update t set a=1' 'delete from t'; do
  out "$s" | awk -F'[@. ]+' '/@[0-9]+\.\.[0-9]+/ { split($0, p, "@"); split(p[2], q, /[^0-9]+/); if (q[1] == q[2] && index($0, "Root@") == 0) exit 1 }' || bad "an empty node in: $s"
done
"""),
 dict(id="c25-qualifier", property="C25",
  needs="an operator whose only character outside the SQL operators directly precedes its trailing sign",
  breaks="the character before the trailing sign is not looked at, so the sign is cut off",
  edits=[(G, "let b = (0..nchars - 1).any(|ic| {", "let b = (0..nchars - 2).any(|ic| {", "all")],
  demo=r"""has 'select a <`- b' 'Op@9..12'
"""),
 dict(id="c25-first-comment", property="C25",
  needs="an operator followed directly by a block comment whose body contains two dashes in operator characters",
  breaks="when both comment starts occur the later one ends the operator",
  edits=[(G, "if slashstar_index > dashdash_index =>", "if slashstar_index < dashdash_index =>", "all")],
  demo=r"""has 'select 1 ~/*--*/ 2' 'C_COMMENT@10..16'
"""),
 dict(id="c25-long", property="C25",
  needs="an operator of exactly 64 characters",
  breaks="an operator of 64 characters is accepted",
  edits=[(G, "if nchars >= NAMEDATALEN {", "if nchars > NAMEDATALEN {", "all")],
  demo=r"""has "select 1 $(printf '~%.0s' $(seq 64)) 2" 'operator too long'
has "select 1 $(printf '~%.0s' $(seq 63)) 2" 'Op@'
"""),
]
