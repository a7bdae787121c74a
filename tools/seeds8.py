B = "crates/parser-generator/src/parser_generator/lexer"
U, G, O, L = B + "/util.rs", B + "/generated.rs", B + "/lexer_ported.rs", B + ".rs"
DEMO = open("/verif/tools/copydemo.py").read()


def copies(*texts):
    py = ('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom copydemo import compare\n'
          'compare(%s)\n' % ascii(list(texts)))
    return dict(raw=True, demo='exec python3 "$(dirname "$0")/demo.py"', files={"demo.py": py, "copydemo.py": DEMO})


SEEDS = [
 dict(id="c23-unicode-lowercase", property="C23", needs="a word that becomes a keyword only under Unicode case mapping",
  breaks="the generator's scanner folds keywords with Unicode rules, the shipped one with ASCII rules",
  edits=[(U, "s.to_ascii_lowercase();", "s.to_lowercase();")], **copies("select BAC\u212aWARD", "SELECT", "\u212aey")),
 dict(id="c23-dollar-rest", property="C23", needs="a dollar-quoted string that contains another delimiter-like text",
  breaks="the generator's scanner keeps the trailing dollar sign it also rescans",
  edits=[(G, "self.addlit(self.yyleng - 1);", "self.addlit(self.yyleng);", 1)] if False else
        [(G, "                            self.addlit(self.yyleng - 1);\n                            self.yyless(self.yyleng - 1);", "                            self.addlit(self.yyleng);\n                            self.yyless(self.yyleng);", ("nth", 0))],
  **copies("select $a$x$b$a$", "$$a$$", "select $a$x$b$a$ y $a$")),
 dict(id="c23-keyword", property="C23", needs="the keyword xmlforest",
  breaks="the generator's keyword map gives one keyword another token",
  edits=[(G, '("xmlforest", "XMLFOREST")', '("xmlforest", "XMLEXISTS")')], **copies("select xmlforest(a)", "xmlexists")),
 dict(id="c23-param-overflow", property="C23", needs="a parameter number beyond 2147483647",
  breaks="the generator's scanner accepts parameter numbers the shipped one rejects",
  edits=[(G, "match i32::from_str_radix(&self.yytext()[1..], 10) {\n                            Ok(number) => self.yylval = Yylval::I(number),", "match u32::from_str_radix(&self.yytext()[1..], 10) {\n                            Ok(number) => self.yylval = Yylval::I(number as i32),", ("nth", 0))],
  **copies("select $1", "select $2147483648", "select $99999999999")),
 dict(id="c23-mode-table", property="C23", needs="an extended string, E followed by quotes",
  breaks="the generator's scanner walks the wrong table in one mode",
  edits=[(G, "            7 => (TRANSITION_TABLE_7.as_slice(), ACCEPT_TABLE_7.as_slice()),", "            7 => (TRANSITION_TABLE_6.as_slice(), ACCEPT_TABLE_6.as_slice()),")],
  **copies("select 'a' /* b */ 'c'", "select \"a\"\"b\"", "select U&\"a\" U&'b'", "select E'a\\'b' 'c'", "select b'01' x'1f'", "select 'a'\n'b'", "select $a$ $b$ $a$", "e'\\ud83d\\ude00'")),
]
