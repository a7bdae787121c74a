L, R, N, D = ["crates/automata/src/%s.rs" % x for x in ("lib", "regexp", "nfa", "dfa")]
SH = '''set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nautomata = { path = "%s/crates/automata" }\\n[workspace]\\n' "$PWD" > "$D/Cargo.toml"
cp Cargo.lock "$D/Cargo.lock" 2>/dev/null || true
cp "$(dirname "$0")/main.rs" "$D/src/main.rs"
CARGO_TARGET_DIR="$D/target" cargo run --offline -q --manifest-path "$D/Cargo.toml"
'''
HEAD = '''use automata::{to_flex_pattern_dfa, FlexPatternDef, NameDefinition};

/// Does some rule match the whole text, and which?
fn run(rules: &[&str], text: &[u8]) -> Option<u32> {
    let defs: Vec<_> = rules.iter().map(|p| FlexPatternDef { state_set: vec![0], pattern: p.to_string() }).collect();
    let dfa = to_flex_pattern_dfa(&defs, &[NameDefinition { name: "d".into(), definition: "[0-9]".into() }]);
    let mut s = 0;
    for &b in text {
        s = dfa[0].states[s].transitions[b as usize];
        if s == !0 {
            return None;
        }
    }
    dfa[0].states[s].accept_lexer_rule_id
}

fn main() {
'''


def cases(*cs):
    body = "".join('    assert_eq!(run(&[%s], b"%s"), %s, "%s");\n' % (", ".join('r#"%s"#' % p for p in ps), t, "Some(%d)" % r if r is not None else "None",
                                                                 t.replace("\\", "\\\\")) for ps, t, r in cs)
    return dict(raw=True, demo=SH, files={"main.rs": HEAD + body + "}\n"})


SEEDS = [
 dict(id="c22-octal", property="C22", needs="an octal escape of three digits",
  breaks="the digits after the second are taken literally",
  edits=[(R, """                let mut v = c - b'0';

                while self.index < self.bytes.len() {""", """                let mut v = c - b'0';

                while self.index < self.bytes.len() && v < 8 {""")],
  **cases((["\\7+"], "\x07", 0), (["\\12"], "\n", 0), (["\\101b"], "Ab", 0), (["[\\101-\\103]"], "B", 0))),
 dict(id="c22-repeat-range", property="C22", needs="a bounded repetition {n,m} with 0 < n < m",
  breaks="the last repetition that the bound allows is not accepted",
  edits=[(L, """                state = node_accept;
            }
            state.add_transition(accept, Transition::Epsilon);
        }
    }
}""", """                state = node_accept;
            }
            if *min == *max || *max == 1 {
                state.add_transition(accept, Transition::Epsilon);
            }
        }
    }
}""")],
  **cases((["a{2}"], "aa", 0), (["ab?"], "ab", 0), (["a{1,3}b"], "aab", 0), (["a{1,3}b"], "aaab", 0), (["a{1,3}b"], "aaaab", None))),
 dict(id="c22-top-byte", property="C22", needs="text with the byte 255",
  breaks="the determinised automaton has no transition for the last byte value",
  edits=[(D, "for b in 0..=255 {", "for b in 0..u8::MAX {")],
  **cases((["[^a]+"], "\\xfe", 0), (["[^a]+"], "\\xff", 0), (["[\\x80-\\xff]"], "\\xff", 0))),
 dict(id="c22-closure-depth", property="C22", needs="an alternation below several empty moves at once",
  breaks="some of the states reachable by empty moves are left out of the closure",
  edits=[(N, """                    candidate.push(new_state);

                    let id""", """                    if candidate.len() < 4 {
                        candidate.push(new_state);
                    }

                    let id""")],
  **cases(*[(["a*x|b*x|c*x|d*x|e*x|f*x|g*x|h*x|i*x"], x + "x", 0) for x in "abcdefghi"])),
 dict(id="c22-states-of-rule", property="C22", needs="a rule that belongs to several lexer states, given in descending order",
  breaks="a rule is not started from every state it is declared for",
  edits=[(L, """        for &state_id in &pattern_def.state_set {
""", """        for (n, &state_id) in pattern_def.state_set.iter().enumerate() {
            if n > 0 && state_id < pattern_def.state_set[n - 1] {
                continue;
            }
""")],
  raw=True, demo=SH, files={"main.rs": '''use automata::{to_flex_pattern_dfa, FlexPatternDef};

fn main() {
    for sets in [vec![0, 1], vec![1, 0]] {
        let dfa = to_flex_pattern_dfa(
            &[
                FlexPatternDef { state_set: sets.clone(), pattern: "ab".into() },
                FlexPatternDef { state_set: vec![0, 1], pattern: "b".into() },
            ],
            &[],
        );
        assert_eq!(dfa.len(), 2);
        for d in &dfa {
            let a = d.states[0].transitions[b'a' as usize];
            assert!(a != !0, "rule 0 in {:?}", sets);
            assert_eq!(d.states[d.states[a].transitions[b'b' as usize]].accept_lexer_rule_id, Some(0));
        }
    }
}
'''}),
]
