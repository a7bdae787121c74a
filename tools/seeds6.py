DET = open("/verif/tools/detdemo.py").read()
PG = "crates/parser-generator/src/parser_generator.rs"
LA = "crates/parser-generator/src/parser_generator/lalr.rs"
LG = "crates/lexer-generator/src/lexer_generator.rs"
GRAM = """%type <node> S E T F L
%token <ival> ICONST IDENT
%%
S: E | L ;
L: IDENT ',' L | IDENT ',' IDENT ;
E: E '+' T | E '-' T | T ;
T: T '*' F | T '/' F | F ;
F: '(' E ')' | ICONST | IDENT '(' ')' | IDENT ;
"""


def det(package, outs, gram):
    py = ('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom detdemo import check\n'
          'check(%r, %r, gram=%r)\n' % (package, outs, gram))
    return dict(raw=True, demo='exec python3 "$(dirname "$0")/demo.py"', files={"demo.py": py, "detdemo.py": DET})


PARSER = det("parser-generator", ["crates/postgresql-cst-parser/src/parser.rs"], GRAM)
LEXER = det("lexer-generator", ["crates/postgresql-cst-parser/src/lexer/generated.rs"], None)
SEEDS = [
 dict(id="c21-next-states", property="C21", needs="two runs of the parser generator, whose hash seeds differ",
  breaks="the states are numbered in the order a hash map yields the symbols after the dot",
  edits=[(LA, "let mut next_states: BTreeMap<ComponentId, Vec<_>> = BTreeMap::new();", "let mut next_states: HashMap<ComponentId, Vec<_>> = HashMap::new();"),
         (LA, "use std::collections::{BTreeMap, BTreeSet,", "use std::collections::{BTreeSet,")], **PARSER),
 dict(id="c21-default-action", property="C21", needs="a state in which two actions are equally frequent, and two runs",
  breaks="which of the two becomes the default action depends on the hash order",
  edits=[(PG, "let mut cnt: BTreeMap<i16, u16> = BTreeMap::new();", "let mut cnt: std::collections::HashMap<i16, u16> = Default::default();")], **PARSER),
 dict(id="c21-keywords", property="C21", needs="two runs of the lexer generator",
  breaks="the keyword list is written in the order of a hash set",
  edits=[(LG, "let mut keywords = Vec::new();", "let mut keywords = std::collections::HashSet::new();"),
         (LG, 'keywords.push(format!(r#"({name}, "{value}"),"#));', 'keywords.insert(format!(r#"({name}, "{value}"),"#));'),
         (LG, '&keywords.join("\\n")', '&keywords.into_iter().collect::<Vec<_>>().join("\\n")')], **LEXER),
]
