R = "crates/postgresql-cst-parser/src/"
G = R + "lexer/generated.rs"
LP = R + "lexer/lexer_ported.rs"
U = R + "lexer/util.rs"
C = R + "cst.rs"
L = R + "lexer.rs"
PE = R + "lexer/parser_error.rs"
W = "crates/postgresql-cst-parser-wasm/src/lib.rs"
CLIENT = r'''# cwd: the repository root, after the build
set -u
export CARGO_NET_OFFLINE=true
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
# client: builds the program on stdin against the crate and runs it
client() {
  mkdir -p $T/src; cat > $T/src/main.rs; cp Cargo.lock $T/Cargo.lock
  printf '[package]\nname = "client"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\npostgresql-cst-parser = { path = "%s/crates/postgresql-cst-parser" }\npostgresql-cst-parser-wasm = { path = "%s/crates/postgresql-cst-parser-wasm" }\n[workspace]\n' "$PWD" "$PWD" > $T/Cargo.toml
  CARGO_TARGET_DIR=$T/target cargo build -q --offline --manifest-path $T/Cargo.toml > $T/log 2>&1 || { grep -E "^error" $T/log | head -3; return 4; }
  timeout 60 $T/target/debug/client
}
'''
SEEDS = [
 dict(id="c13-memo", property="C13", raw=True,
  needs="two calls in one thread whose identifiers agree in their first characters",
  breaks="the last keyword looked up is remembered per thread and recognised again by a prefix",
  edits=[(U, "        let kw = s.to_ascii_lowercase();\n", "        thread_local! {\n            static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };\n        }\n\n        let mut kw = s.to_ascii_lowercase();\n        if kw.len() > 12 {\n            LAST.with(|last| {\n                let mut last = last.borrow_mut();\n                if last.len() == kw.len() && last[..12] == kw[..12] {\n                    kw = last.clone();\n                } else if self.keyword_map.contains_key(kw.as_str()) {\n                    *last = kw.clone();\n                }\n            });\n        }\n")],
  demo=CLIENT + r"""client <<'X'
use postgresql_cst_parser::parse;
fn main() {
    let q = "select current_timeszone from t";
    let a = format!("{:?}", parse(q).unwrap());
    let _ = parse("select localtimestamp, current_timestamp");
    let q2 = "select current_timestxyz from t";
    let _ = parse(q2);
    let b = format!("{:#?}", parse(q2).unwrap());
    let _ = a;
    assert!(!b.contains("CURRENT_TIMESTAMP"), "{}", b);
}
X
"""),
 dict(id="c13-env", property="C13", raw=True,
  needs="the environment variable PGVERSION and the keyword SYSTEM_USER",
  breaks="whether SYSTEM_USER is a keyword depends on the environment of the process",
  edits=[(U, "        let kw = s.to_ascii_lowercase();\n", "        let kw = s.to_ascii_lowercase();\n\n        // SYSTEM_USER is a keyword since PostgreSQL 16\n        if kw == \"system_user\" {\n            let major = std::env::var(\"PGVERSION\").ok().and_then(|v| v.parse::<u32>().ok());\n            if major.is_some_and(|v| v < 16) {\n                return None;\n            }\n        }\n\n")],
  demo=CLIENT + r"""client <<'X'
use postgresql_cst_parser::parse;
fn main() {
    let a = format!("{:#?}", parse("select system_user from t").unwrap());
    std::env::set_var("PGVERSION", "15");
    let b = format!("{:#?}", parse("select system_user from t").unwrap());
    assert_eq!(a, b);
}
X
"""),
 dict(id="c14-depth-static", property="C14", raw=True,
  needs="a text ending inside nested comments, then another text with a comment in the same process",
  breaks="the comment depth lives in a static and survives a failed call",
  edits=[(L, "pub fn lex(", "/// Nesting of block comments\npub static COMMENT_DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\npub fn lex("),
         (G, "                        self.xcdepth += 1;\n", "                        self.xcdepth += 1;\n                        super::COMMENT_DEPTH.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n", ("nth", 0))],
  demo=""),
 dict(id="c14-shared-error", property="C14", raw=True,
  needs="an error value sent to another thread",
  breaks="the report of a scan error is reference-counted without atomics, so errors cannot leave their thread",
  edits=[(PE, "    ParseError {\n        message: String,", "    ParseError {\n        message: std::rc::Rc<str>,"),
         (C, "        message: format!(\"syntax error at byte position {}\", token.start_byte_pos),", "        message: format!(\"syntax error at byte position {}\", token.start_byte_pos).into(),"),
         (C, "                    message: \"unexpected end of input\".to_string(),", "                    message: \"unexpected end of input\".into(),"),
         (C, "                                token.start_byte_pos\n                            ),", "                                token.start_byte_pos\n                            )\n                            .into(),"),
         (C, "                        token.start_byte_pos\n                    ),\n", "                        token.start_byte_pos\n                    )\n                    .into(),\n")],
  demo=CLIENT + r"""client <<'X'
fn main() {
    let h = std::thread::spawn(|| postgresql_cst_parser::parse("select 1a"));
    let _ = h.join();
}
X
"""),
 dict(id="c14-unchecked-slice", property="C14", raw=True,
  needs="nothing at run time: the guarantee is about the source",
  breaks="",
  edits=[], demo=""),
 dict(id="c17-comment-run", property="C17", raw=True,
  needs="a keyword with lookahead followed by very many comments",
  breaks="the search for the next token calls itself once per comment",
  edits=[(LP, "        for (j, token) in tokens.iter().enumerate().skip(i + 1) {\n            match token.kind {\n                TokenKind::C_COMMENT | TokenKind::SQL_COMMENT => continue,\n                _ => return Some(j),\n            }\n        }\n        None\n", "        let j = i + 1;\n        match tokens.get(j)?.kind {\n            TokenKind::C_COMMENT | TokenKind::SQL_COMMENT => next_token_index(tokens, j),\n            _ => Some(j),\n        }\n")],
  demo=CLIENT + r"""client <<'X'
fn main() {
    let q = format!("select 1 where 1 not {} in (2)", "--\n".repeat(150000));
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || postgresql_cst_parser::parse(&q).is_ok()).unwrap();
    assert!(h.join().unwrap());
}
X
"""),
 dict(id="c17-extra-list", property="C17", raw=True,
  needs="a literal continued over very many lines",
  breaks="",
  edits=[], demo=""),
 dict(id="c24-report", property="C24", raw=True,
  needs="a scan error without a detail text",
  breaks="the binding takes the quoted part of the detail of a scan report, which not every report has",
  edits=[(W, "        Err(e) => {\n", "        Err(postgresql_cst_parser::ParserError::ScanReport(report)) => {\n            let hint = report.detail.split('\"').nth(1).unwrap();\n            format!(\"Error: {:?} ({})\", report, hint)\n        }\n        Err(e) => {\n")],
  demo=CLIENT + r"""client <<'X'
fn main() {
    let s = postgresql_cst_parser_wasm::parse_sql("select E'\\u12'");
    assert!(s.starts_with("Error"), "{}", s);
    assert!(postgresql_cst_parser_wasm::parse_sql("select )").starts_with("Error"));
}
X
"""),
 dict(id="c24-trim", property="C24", raw=True,
  needs="a text with a comment or whitespace at its end",
  breaks="the binding parses the text without its trailing whitespace, so the rendered tree is not the text's",
  edits=[(W, "    match parse(sql) {", "    match parse(sql.trim_end()) {")],
  demo=CLIENT + r"""client <<'X'
fn main() {
    let s = postgresql_cst_parser_wasm::parse_sql("select 1\n\n");
    assert!(s.contains("Root@0..10"), "{}", s);
}
X
"""),
]
SEEDS = [s for s in SEEDS if s["edits"] and s["demo"]]
