P = "crates/postgresql-cst-parser/src/"
C, L, U, O, G = P + "cst.rs", P + "lexer.rs", P + "lexer/util.rs", P + "lexer/lexer_ported.rs", P + "lexer/generated.rs"
ERR = """                    message: format!(
                        "Action::Error: syntax error at byte position {}",
                        token.start_byte_pos
                    ),"""


def quiet(*texts):
    return "\n".join("hasnt %s 'panicked at'" % t for t in texts)


SEEDS = [
 dict(id="c02-error-context", property="C02", needs="a syntax error whose following eight bytes end inside a multi-byte character",
  breaks="the error message quotes eight bytes of the input wherever they end, which panics inside a character",
  edits=[(C, ERR, ERR.replace('position {}",', 'position {} near {:?}",').replace("token.start_byte_pos\n", "token.start_byte_pos,\n                        &input[token.start_byte_pos..input.len().min(token.start_byte_pos + 8)]\n"))],
  demo=quiet("'select from from from'", "'select 1 from from \"\\xe3\\x81\\x82\\xe3\\x81\\x84\\xe3\\x81\\x86\"'", "'select 1 where where\\xc3\\xa9\\xc3\\xa9\\xc3\\xa9 x'", "'select 1 where + + , ,\"\\xe3\\x81\\x82\\xe3\\x81\\x84\\xe3\\x81\\x86\\xe3\\x81\\x86\"'", "'select 1 , ,x\"\\xe3\\x81\\x82\\xe3\\x81\\x84\\xe3\\x81\\x86\\xe3\\x81\\x86\"'")),
 dict(id="c02-long-word", property="C02", needs="an identifier of more than 17 bytes with a multi-byte character across the 17th",
  breaks="words are cut to the length of the longest keyword before the lookup, in the middle of a character",
  edits=[(U, "let kw = s.to_ascii_lowercase();", "let kw = s[..s.len().min(17)].to_ascii_lowercase();")],
  demo=quiet("'select abcdefghijklmnop\\xe3\\x81\\x82'", "'select abcdefghijklmno\\xe3\\x81\\x82z'", "'select abcdefghijklmnopq'")),
 dict(id="c02-last-not", property="C02", needs="an input in which only a comment follows a final NOT, WITH, WITHOUT, NULLS or FORMAT",
  breaks="the lookahead of the token filter expects a further token",
  edits=[(O, "                if let Some(j) = next_token_index(tokens, i) {\n                    if tokens[j].kind ==", "                {\n                    let j = next_token_index(tokens, i).unwrap();\n                    if tokens[j].kind ==", ("nth", 0))],
  demo=quiet(*["'select a %s%s'" % (k, c) for c in ("", " ", " -- c", " /* c */") for k in ("not", "with", "without", "nulls", "format")])),
 dict(id="c02-surrogates", property="C02", needs="an extended string with a surrogate pair of the upper planes",
  breaks="a surrogate pair is combined with the wrong base, beyond the last character",
  edits=[(O, "+ 0x10000 +", "+ 0x100000 +")],
  demo=quiet("\"select E'\\\\\\\\uD800\\\\\\\\uDC00'\"", "\"select E'\\\\\\\\uDBFF\\\\\\\\uDFFF'\"")),
]
