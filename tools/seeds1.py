R = "crates/postgresql-cst-parser/src/"
G = R + "lexer/generated.rs"
LP = R + "lexer/lexer_ported.rs"
U = R + "lexer/util.rs"
SEEDS = [
 dict(id="c07-comment-depth", property="C07",
  needs="a block comment nested at least three levels deep",
  breaks="opening a comment inside a comment sets the depth to one instead of incrementing it, so the comment ends too early",
  edits=[(G, "self.xcdepth += 1;", "self.xcdepth = 1;", "all")],
  demo=r"""has 'select /* a /* b /* c */ d */ e */ 1' 'C_COMMENT@7..34'
"""),
 dict(id="c07-continued-escape", property="C07",
  needs="an escape string continued after a newline whose second part contains a backslash-escaped quote",
  breaks="after a continuation the scanner resumes escape strings as plain strings, so \\' ends the string",
  edits=[(G, "self.begin(self.state_before_str_stop);", "self.begin(if self.state_before_str_stop == State::xe { State::xq } else { self.state_before_str_stop });", "all")],
  demo=r"""has "select e'a'\n'b\\\\'c'" 'SCONST@7..18'
"""),
 dict(id="c08-unicode-lower", property="C08",
  needs="a word containing the Kelvin sign U+212A, whose Unicode lowercase is an ASCII k",
  breaks="keywords are looked up by Unicode lowercase, so a word that only looks like a keyword is taken for one",
  edits=[(U, "to_ascii_lowercase()", "to_lowercase()", "all")],
  demo=r"""has 'select li\xe2\x84\xaae' 'IDENT'
"""),
 dict(id="c18-limit", property="C18",
  needs="the literal 2147483647 in any radix",
  breaks="the largest 32-bit integer is classified as a float constant",
  edits=[(LP, ".map(|res| !neg || *res != i32::MIN)", ".map(|res| if neg { *res != i32::MIN } else { *res != i32::MAX })")],
  demo=r"""has 'select 2147483647' 'ICONST'
has 'select 2147483648' 'FCONST'
"""),
 dict(id="c27-surrogate-bound", property="C27",
  needs="an escape string with the surrogate pair that starts with DBFF",
  breaks="the last first-half surrogate is not recognised as one",
  edits=[(LP, "(0xD800..=0xDBFF).contains(&c)", "(0xD800..0xDBFF).contains(&c)")],
  demo=r"""has "select e'\\\\uDBFF\\\\uDFFF'" 'SCONST'
"""),
 dict(id="c26-bitstring-end", property="C26",
  needs="a bit string followed by whitespace",
  breaks="the end of a bit string is computed from the matched text of the rule that follows it",
  edits=[(R + "lexer.rs", "                | TokenKind::BCONST\n", "")],
  demo=r"""has "select b'01' as x" 'BCONST@7..12'
"""),
 dict(id="c12-hex-eof", property="C12",
  needs="an unterminated hexadecimal string at the end of the input",
  breaks="an unterminated hexadecimal string ends the input silently",
  edits=[(G, 'yyerror!("unterminated hexadecimal string literal");', "return Ok(None);", "all")],
  demo=r"""has "select 1 x'1f" 'unterminated hexadecimal'
"""),
 dict(id="c05-swapped-kinds", property="C05",
  needs="a statement using LEADING or LEAKPROOF",
  breaks="two neighbouring kinds are swapped in the public enumeration",
  edits=[(R + "syntax_kind.rs", "    LEADING,\n    LEAKPROOF,\n", "    LEAKPROOF,\n    LEADING,\n")],
  demo=r"""has "select trim(leading from x)" "LEADING@12"
"""),
]
