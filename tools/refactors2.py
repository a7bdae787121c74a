def arm(n, text):
    """The text of match arm n of parse_token's action list, from the clone."""
    i = text.index("\n                %s => {" % n)
    j = text.index("\n                }\n", i) + len("\n                }\n")
    return text[i:j]


_G = open(os.path.join(WT, G)).read()
_P = _G[_G.index('pub fn parse_token'):]
_P = _P[_P.rindex('#[cfg(not(feature = "regex-match"))]') if False else 0:]
K = "crates/postgresql-cst-parser/src/parser.rs"


def g1(old, new):
    """Edit of the first of the two action lists (the default build's)."""
    i = _G.index(old)
    return (G, _G, _G[:i] + new + _G[i + len(old):])


def gmany(*pairs):
    t = _G
    for old, new in pairs:
        i = t.index(old)
        t = t[:i] + new + t[i + len(old):]
    return (G, _G, t)


R2 = {
"op-while": [g1("""                                loop {
                                    nchars -= 1;

                                    if !(nchars > 1
                                        && (get_char_by_byte_pos(&yytext, nchars - 1) == '+'
                                            || get_char_by_byte_pos(&yytext, nchars - 1) == '-'))
                                    {
                                        break;
                                    }
                                }""", """                                while nchars > 1
                                    && matches!(get_char_by_byte_pos(&yytext, nchars - 1), '+' | '-')
                                {
                                    nchars -= 1;
                                }""")],
"op-min": [g1("""                        let dashdash_first = match (&slashstar, &dashdash) {
                            (Some(slashstar_index), Some(dashdash_index))
                                if slashstar_index > dashdash_index =>
                            {
                                true
                            }
                            (None, Some(_)) => true,
                            _ => false,
                        };
""", """                        let dashdash_first = match (slashstar, dashdash) {
                            (Some(s), Some(d)) => d < s,
                            (None, Some(_)) => true,
                            (_, None) => false,
                        };
""")],
"op-match2": [g1("""                                if &yytext[0..2] == "=>" {
                                    return Ok(Some(TokenKind::EQUALS_GREATER));
                                }
                                if &yytext[0..2] == ">=" {
                                    return Ok(Some(TokenKind::GREATER_EQUALS));
                                }
                                if &yytext[0..2] == "<=" {
                                    return Ok(Some(TokenKind::LESS_EQUALS));
                                }
                                if &yytext[0..2] == "<>" {
                                    return Ok(Some(TokenKind::NOT_EQUALS));
                                }
                                if &yytext[0..2] == "!=" {
                                    return Ok(Some(TokenKind::NOT_EQUALS));
                                }""", """                                match &yytext[..2] {
                                    "=>" => return Ok(Some(TokenKind::EQUALS_GREATER)),
                                    ">=" => return Ok(Some(TokenKind::GREATER_EQUALS)),
                                    "<=" => return Ok(Some(TokenKind::LESS_EQUALS)),
                                    "<>" | "!=" => return Ok(Some(TokenKind::NOT_EQUALS)),
                                    _ => {}
                                }""")],
"op-contains": [g1(""",()[].;:+-*/%^<>="
                                    .find(get_char_by_byte_pos(&yytext, 0))
                                    .is_some()""", """,()[].;:+-*/%^<>="
                                    .contains(get_char_by_byte_pos(&yytext, 0))""")],
"op-nchars-let": [g1("""                        if let Some(i) = slashstar {
                            nchars = i;
                        }
""", """                        nchars = slashstar.unwrap_or(nchars);
""")],
"op-any-chars": [g1("""                            let b = (0..nchars - 1).any(|ic| {
                                matches!(
                                    get_char_by_byte_pos(&yytext, ic),
                                    '~' | '!' | '@' | '#' | '^' | '&' | '|' | '`' | '?' | '%'
                                )
                            });""", """                            let b = yytext[..nchars - 1].contains(|c| {
                                matches!(
                                    c,
                                    '~' | '!' | '@' | '#' | '^' | '&' | '|' | '`' | '?' | '%'
                                )
                            });""")],
"op-any-loop": [g1("""                            let b = (0..nchars - 1).any(|ic| {
                                matches!(
                                    get_char_by_byte_pos(&yytext, ic),
                                    '~' | '!' | '@' | '#' | '^' | '&' | '|' | '`' | '?' | '%'
                                )
                            });""", """                            let mut b = false;
                            for ic in 0..nchars - 1 {
                                if "~!@#^&|`?%".contains(get_char_by_byte_pos(&yytext, ic)) {
                                    b = true;
                                    break;
                                }
                            }""")],
"word-match": [g1("""                        if let Some((kw, kw_token)) = self.get_keyword(&yytext) {
                            self.yylval = Yylval::Keyword(kw);
                            return Ok(Some(TokenKind::KEYWORD(kw_token)));
                        }
""", """                        match self.get_keyword(&yytext) {
                            Some((kw, kw_token)) => {
                                self.yylval = Yylval::Keyword(kw);
                                return Ok(Some(TokenKind::KEYWORD(kw_token)));
                            }
                            None => {}
                        }
""")],
"word-let-else": [g1("""                        if let Some((kw, kw_token)) = self.get_keyword(&yytext) {
                            self.yylval = Yylval::Keyword(kw);
                            return Ok(Some(TokenKind::KEYWORD(kw_token)));
                        }

                        // /*""" if False else """                        if let Some((kw, kw_token)) = self.get_keyword(&yytext) {
                            self.yylval = Yylval::Keyword(kw);
                            return Ok(Some(TokenKind::KEYWORD(kw_token)));
                        }
""", """                        let found = self.get_keyword(yytext.as_str());
                        if found.is_some() {
                            let (kw, kw_token) = found.unwrap();
                            let kind = TokenKind::KEYWORD(kw_token);
                            self.yylval = Yylval::Keyword(kw);
                            return Ok(Some(kind));
                        }
""")],
"dolq-else-first": [g1("""                        if self.yytext() == self.dolqstart {
                            self.dolqstart = "".to_string();
                            self.begin(State::INITIAL);
                            self.yylval = Yylval::Str(self.literal.clone());
                            self.set_yyllocend();""", """                        if yytext == self.dolqstart {
                            self.set_yyllocend();
                            self.yylval = Yylval::Str(std::mem::take(&mut self.literal));
                            self.dolqstart.clear();
                            self.begin(State::INITIAL);""")],
"ident-empty": [(G, "if self.literal.len() == 0 {", "if self.literal.is_empty() {", 0)],
"comment-depth": [g1("if self.xcdepth <= 0 {", "if self.xcdepth == 0 {")],
"comment-depth-flip": [g1("""                        if self.xcdepth <= 0 {
                            self.begin(State::INITIAL);
                            self.set_yyllocend();
                            return Ok(Some(TokenKind::C_COMMENT));
                        } else {
                            self.xcdepth -= 1;
                        }""", """                        if self.xcdepth > 0 {
                            self.xcdepth -= 1;
                        } else {
                            self.set_yyllocend();
                            self.begin(State::INITIAL);
                            return Ok(Some(TokenKind::C_COMMENT));
                        }""")],
"hex-helper": [gmany(("""                        let c = u32::from_str_radix(
                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                            16,
                        )
                        .unwrap();
""", """                        let c = self.escape_value(2, 16);
"""), ("""                        let c = u32::from_str_radix(
                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
                            8,
                        )
                        .unwrap();
""", """                        let c = self.escape_value(1, 8);
""")), (U, "    pub fn yyless(", """    pub fn escape_value(&self, skip: usize, radix: u32) -> u32 {
        let text = &self.input[self.index_bytes..self.index_bytes + self.yyleng];
        u32::from_str_radix(&text[skip..], radix).unwrap()
    }

    pub fn yyless(""")],
"hex-yytext": [gmany(("""                        let c = u32::from_str_radix(
                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                            16,
                        )
                        .unwrap();
""", """                        let c = u32::from_str_radix(&yytext[2..], 16).unwrap();
"""))],
"simple-token": [gmany(*[("""                        self.set_yylloc();
                        return Ok(Some(TokenKind::%s));
""" % k, """                        return self.simple_token(TokenKind::%s);
""" % k) for k in ("TYPECAST", "DOT_DOT", "COLON_EQUALS", "EQUALS_GREATER", "LESS_EQUALS", "GREATER_EQUALS")]),
  (U, "    pub fn yyless(", """    pub fn simple_token(
        &mut self,
        kind: super::TokenKind,
    ) -> Result<Option<super::TokenKind>, super::ParserError> {
        self.set_yylloc();
        Ok(Some(kind))
    }

    pub fn yyless(""")],
"merge-arms": [gmany((arm("75", _P), "\n"), (arm("76", _P), "\n"), ("                74 => {", "                74 | 75 | 76 => {"))],
"param-parse": [g1("match i32::from_str_radix(&self.yytext()[1..], 10) {", "match yytext[1..].parse::<i32>() {")],
"param-map-err": [g1("""                        match i32::from_str_radix(&self.yytext()[1..], 10) {
                            Ok(number) => self.yylval = Yylval::I(number),
                            Err(_) => yyerror!("parameter number too large"),
                        }
""", """                        let Ok(number) = self.yytext()[1..].parse() else {
                            yyerror!("parameter number too large");
                        };
                        self.yylval = Yylval::I(number);
""")],
"addlit-push": [(O, "self.literal += &self.input[self.index_bytes..][..yyleng];", "let end = self.index_bytes + yyleng;\n        self.literal.push_str(&self.input[self.index_bytes..end]);")],
"yytext-range": [(U, "self.input[self.index_bytes..][..self.yyleng].to_string()", "self.input[self.index_bytes..self.index_bytes + self.yyleng].to_owned()")],
"advance-inline": [g1("            self.advance();\n        }\n    }", "            self.index_bytes += self.yyleng;\n        }\n    }")],
"yytext-borrow": [g1("            let yytext = self.yytext();\n\n            match pattern_index {", "            let yytext = self.yytext().clone();\n\n            match pattern_index {")],
"surrogate-matches": [(O, "(0xD800..=0xDBFF).contains(&c)", "matches!(c, 0xD800..=0xDBFF)"), (O, "(0xDC00..=0xDFFF).contains(&c)", "c >= 0xDC00 && c <= 0xDFFF")],
"surrogate-shift": [(O, "char::from_u32(((first & 0x3FF) << 10) + 0x10000 + (second & 0x3FF)).unwrap()", "let high = (first & 0x3FF) << 10;\n    let low = second & 0x3FF;\n    char::from_u32(0x10000 + (high | low)).unwrap()")],
"unescape-consts": [(O, "'b' => 0x08 as char,", "'b' => '\\u{8}',"), (O, "'f' => 0x0c as char,", "'f' => '\\x0c',"), (O, "'v' => 0x0b as char,", "'v' => '\\x0b',")],
"unescape-early": [(O, """                if c == '\\0' || is_highbit_set(c) != 0 {
                    self.saw_non_ascii = true;
                }

                c""", """                self.saw_non_ascii |= c == '\\0' || is_highbit_set(c) != 0;
                c""")],
"keyword-from": [gmany(("    let mut map = HashMap::new();\n    for (kw, tok) in [", "    HashMap::from(["), ("""    ] {
        map.insert(kw, tok);
    }
    map
}""", """    ])
}"""))],
"keyword-collect": [gmany(("    let mut map = HashMap::new();\n    for (kw, tok) in [", "    ["), ("""    ] {
        map.insert(kw, tok);
    }
    map
}""", """    ]
    .into_iter()
    .collect()
}"""))],
"keyword-capacity": [gmany(("    let mut map = HashMap::new();\n    for (kw, tok) in [", "    let words = ["), ("""    ] {
        map.insert(kw, tok);
    }
    map
}""", """    ];
    let mut map = HashMap::with_capacity(words.len());
    words.iter().for_each(|(kw, tok)| {
        map.insert(*kw, *tok);
    });
    map
}"""))],
"match-break": [(U, """            if dfa_state_index == !0 {
                return (
                    Self::round_up_to_char_boundary(s, longest_match),
                    accept_rule,
                );
            }

            if accept[dfa_state_index as usize] != !0 {
                accept_rule = accept[dfa_state_index as usize];
                longest_match = i + 1;
            }""", """            match dfa_state_index {
                0xff => {
                    return (
                        Self::round_up_to_char_boundary(s, longest_match),
                        accept_rule,
                    );
                }
                state => match accept[state as usize] {
                    0xff => {}
                    rule => {
                        accept_rule = rule;
                        longest_match = i + 1;
                    }
                },
            }""")],
"match-eof-let": [(U, """        if transition[dfa_state_index as usize][0] != !0 {
            // Currently, EOF is represented by byte value 0
            dfa_state_index = transition[dfa_state_index as usize][0];

            if accept""", """        let at_eof = transition[dfa_state_index as usize][0];
        if at_eof != !0 {
            dfa_state_index = at_eof;

            if accept""")],
"match-while": [(U, """        for (i, byte) in s.as_bytes().iter().enumerate() {
            let transition_index = *byte as usize;
""", """        let bytes = s.as_bytes();
        let mut pos = 0;
        while pos < bytes.len() {
            let i = pos;
            pos += 1;
            let transition_index = bytes[i] as usize;
""")],
"round-loop": [(U, """        (len..s.len())
            .find(|&i| s.is_char_boundary(i))
            .unwrap_or(s.len())""", """        let mut end = len;
        while !s.is_char_boundary(end) {
            end += 1;
        }
        end""")],
"dfa-array": [g1("""        let state_id = state as u8;

        match state_id {""", """        match state as u8 {""")],
"new-default-fields": [(U, "", "") ] if False else [(U, "self.state = state\n", "self.state = state;\n")],
"int-neg-if": [(O, """        match yytext.bytes().next() {
            Some(b'-') => {
                neg = true;
                yytext = &yytext[1..];
            }
            Some(b'+') => {
                yytext = &yytext[1..];
            }
            _ => (),
        }
""", """        if let Some(rest) = yytext.strip_prefix('-') {
            neg = true;
            yytext = rest;
        } else if let Some(rest) = yytext.strip_prefix('+') {
            yytext = rest;
        }
""")],
"int-filter": [(O, "let digits = yytext.replace('_', \"\");", "let digits: String = yytext.chars().filter(|&c| c != '_').collect();")],
"int-match": [(O, """        let ok = res_parse_as_i32
            .as_ref()
            .map(|res| !neg || *res != i32::MIN)
            .unwrap_or_default();

        if ok {
            let res = res_parse_as_i32.unwrap();
            self.yylval = Yylval::I(if neg { -res } else { res });
            Some(TokenKind::ICONST)
        } else {
            self.yylval = Yylval::Str(yytext_original);
            Some(TokenKind::FCONST)
        }""", """        match res_parse_as_i32 {
            Ok(res) if !neg || res != i32::MIN => {
                self.yylval = Yylval::I(if neg { -res } else { res });
                Some(TokenKind::ICONST)
            }
            _ => {
                self.yylval = Yylval::Str(yytext_original);
                Some(TokenKind::FCONST)
            }
        }""")],
"action-table-match": [(C, """    if ACTION_CHECK_TABLE[i + cid] == cid as i16 {
        if ACTION_TABLE[i + cid] == DEFAULT_ACTION_CODE {
            ACTION_DEF_RULE_TABLE[state]
        } else {
            ACTION_TABLE[i + cid]
        }
    } else {
        ERROR_ACTION_CODE
    }""", """    let at = i + cid;
    if ACTION_CHECK_TABLE[at] != cid as i16 {
        return ERROR_ACTION_CODE;
    }
    match ACTION_TABLE[at] {
        DEFAULT_ACTION_CODE => ACTION_DEF_RULE_TABLE[state],
        action => action,
    }""")],
"goto-option": [(C, """    let i = GOTO_TABLE_INDEX[state] as usize;
    if GOTO_CHECK_TABLE[i + cid] == cid as i16 {
        GOTO_TABLE[i + cid]
    } else {
        INVALID_GOTO_CODE
    }""", """    let at = GOTO_TABLE_INDEX[state] as usize + cid;
    let valid = usize::from(GOTO_CHECK_TABLE[at] as u16) == cid;
    if valid { GOTO_TABLE[at] } else { INVALID_GOTO_CODE }""")],
"rec-else-first": [(C, """        if let Some(token) = &node.token {
            self.builder.token(kind, &token.value);
        } else {
            self.builder.start_node(kind);
            node.children
                .iter()
                .for_each(|c| self.parse_rec(c, peekable));
            self.builder.finish_node();
        }""", """        match node.token.as_ref() {
            None => {
                self.builder.start_node(kind);
                for child in &node.children {
                    self.parse_rec(child, peekable);
                }
                self.builder.finish_node();
            }
            Some(Token { value, .. }) => self.builder.token(kind, value),
        }""")],
"rec-cfg-attr": [(C, """        if cfg!(feature = "remove-empty-node") && node.start_byte_pos == node.end_byte_pos {
            return;
        }
""", """        #[cfg(feature = "remove-empty-node")]
        if node.end_byte_pos == node.start_byte_pos {
            return;
        }
""")],
# generators
"gen-row-helper": [(PG, """            let mut row = vec![0; terminal_symbols.len()];

            for j in 0..terminal_symbols.len() {
                let a = uncompressed_action_table[state_index * terminal_symbols.len() + j];
                let a = if a == state_def_rule {
                    DEFAULT_ACTION_CODE
                } else {
                    a
                };

                row[j] = a;
            }

            row""", """            let n = terminal_symbols.len();
            uncompressed_action_table[state_index * n..(state_index + 1) * n]
                .iter()
                .map(|&a| {
                    if a == state_def_rule {
                        DEFAULT_ACTION_CODE
                    } else {
                        a
                    }
                })
                .collect::<Vec<i16>>()""")],
"gen-row-push": [(PG, """            let mut row = vec![0; terminal_symbols.len()];

            for j in 0..terminal_symbols.len() {
                let a = uncompressed_action_table[state_index * terminal_symbols.len() + j];
                let a = if a == state_def_rule {
                    DEFAULT_ACTION_CODE
                } else {
                    a
                };

                row[j] = a;
            }

            row""", """            let mut row = Vec::with_capacity(terminal_symbols.len());

            for j in 0..terminal_symbols.len() {
                let mut a = uncompressed_action_table[state_index * terminal_symbols.len() + j];
                if a == state_def_rule {
                    a = DEFAULT_ACTION_CODE;
                }
                row.push(a);
            }

            row""")],
"gen-encode-fn": [(PG, """            match lalr.action_table.get(&(i, cid)) {
                Some(Action::Shift(s)) => {
                    uncompressed_action_table.push((*s as i16) + 1);
                }
                Some(Action::Reduce(r)) => {
                    uncompressed_action_table.push(-(*r as i16) - 1);
                }
                Some(Action::Accept) => uncompressed_action_table.push(0),
                Some(Action::Error) => uncompressed_action_table.push(ERROR_ACTION_CODE),
                None => uncompressed_action_table.push(ERROR_ACTION_CODE),
            }""", """            let code = match lalr.action_table.get(&(i, cid)) {
                Some(Action::Shift(s)) => *s as i16 + 1,
                Some(Action::Reduce(r)) => -1 - *r as i16,
                Some(Action::Accept) => 0,
                Some(Action::Error) | None => ERROR_ACTION_CODE,
            };
            uncompressed_action_table.push(code);""")],
"gen-fits-fn": [(PG, """            let mut ok = true;

            for j in 0..terminal_symbols.len() {
                let a = row[j];

                if a == ERROR_ACTION_CODE {
                    if index_check[i + j] == j as i16 {
                        ok = false;
                        break;
                    }
                } else if index_check[i + j] == j as i16 {
                    if compressed_values[i + j] != a {
                        ok = false;
                        break;
                    }
                } else if index_check[i + j] != UNUSED_ENTRY_CODE || offset_used[i] {
                    ok = false;
                    break;
                }
            }
""", """            let ok = (0..terminal_symbols.len()).all(|j| {
                let taken = index_check[i + j];
                if row[j] == ERROR_ACTION_CODE {
                    taken != j as i16
                } else if taken == j as i16 {
                    compressed_values[i + j] == row[j]
                } else {
                    taken == UNUSED_ENTRY_CODE && !offset_used[i]
                }
            });
""")],
"gen-goto-entry": [(PG, """            match lalr.goto_table.get(&(i, cid)) {
                Some(s) => base_goto_table.push(*s as i16),
                None => base_goto_table.push(INVALID_GOTO_CODE),
            }""", """            let entry = lalr
                .goto_table
                .get(&(i, cid))
                .map_or(INVALID_GOTO_CODE, |&s| s as i16);
            base_goto_table.push(entry);""")],
"gen-common-fold": [(PG, "cnt.iter().max_by_key(|(_, v)| *v).map(|(k, _)| *k).unwrap()", "let (action, _) = cnt.into_iter().max_by_key(|&(_, v)| v).unwrap();\n        action")],
"gen-first-set": [(LA, """                let mut i = 0;
                while i < self.rules[ri].components.len() {
                    let set = first_set[&self.rules[ri].components[i]].clone();

                    first_set.get_mut(&rule_id).unwrap().extend(set);

                    if !nullable[&self.rules[ri].components[i]] {
                        break;
                    }

                    i += 1;
                }
""", """                let mut i = 0;
                for component in &self.rules[ri].components {
                    let set = first_set[component].clone();
                    first_set.get_mut(&rule_id).unwrap().extend(set);
                    if !nullable[component] {
                        break;
                    }
                    i += 1;
                }
""")],
"gen-prec-last": [(LA, """                    rule.components
                        .iter()
                        .filter(|c| matches!(c, Component::Terminal(_)))
                        .last()
                        .map(|c| id_mapper.to_component_id(c))""", """                    rule.components
                        .iter()
                        .rev()
                        .find(|c| matches!(c, Component::Terminal(_)))
                        .map(|c| id_mapper.to_component_id(c))""")],
"gen-prec-match": [(LA, """            let reduce_priority: Option<Assoc> = rule
                .prec
                .as_ref()
                .map(|prec| Component::Terminal(TokenKind::from(prec)))
                .map(|c| id_mapper.to_component_id(&c))
                .or_else(|| {
                    rule.components
                        .iter()
                        .filter(|c| matches!(c, Component::Terminal(_)))
                        .last()
                        .map(|c| id_mapper.to_component_id(c))
                })
                .and_then(|component_id| assoc[component_id.0 as usize].clone());
""", """            let prec_component = match &rule.prec {
                Some(prec) => {
                    let c = Component::Terminal(TokenKind::from(prec));
                    Some(id_mapper.to_component_id(&c))
                }
                None => rule
                    .components
                    .iter()
                    .filter(|c| matches!(c, Component::Terminal(_)))
                    .last()
                    .map(|c| id_mapper.to_component_id(c)),
            };
            let reduce_priority: Option<Assoc> =
                prec_component.and_then(|id| assoc[id.0 as usize].clone());
""")],
"gen-conflict-cmp": [(LA, """                    match (reduce, shift) {
                        (Some(reduce), Some(shift)) if reduce.priority < shift.priority => {
                            // adopt shift
                        }
                        (Some(reduce), Some(shift)) if reduce.priority > shift.priority => {
                            // adopt reduce
                            action_table.insert(key, reduce_action);
                        }
                        (Some(_), Some(shift)) => {
                            match shift.directive {
                                AssocDirective::NonAssoc => {
                                    // This case is a parse error
                                    action_table.insert(key, Action::Error);
                                }
                                AssocDirective::Left => {
                                    // adopt reduce
                                    action_table.insert(key, reduce_action);
                                }
                                AssocDirective::Right => {
                                    // adopt shift
                                }
                            }
                        }
                        _ => {
                            // If either one doesn't have a priority, shift seems to be preferred
                        }
                    }""", """                    let (Some(reduce), Some(shift)) = (reduce, shift) else {
                        continue;
                    };
                    match reduce.priority.cmp(&shift.priority) {
                        std::cmp::Ordering::Less => {}
                        std::cmp::Ordering::Greater => {
                            action_table.insert(key, reduce_action);
                        }
                        std::cmp::Ordering::Equal => match shift.directive {
                            AssocDirective::Right => {}
                            AssocDirective::Left => {
                                action_table.insert(key, reduce_action);
                            }
                            AssocDirective::NonAssoc => {
                                action_table.insert(key, Action::Error);
                            }
                        },
                    }""")],
"gen-conflict-contains": [(LA, """                    if let Entry::Vacant(e) = action_table.entry(key) {
                        e.insert(reduce_action);
                        continue;
                    }
""", """                    if !action_table.contains_key(&key) {
                        action_table.insert(key, reduce_action);
                        continue;
                    }
"""), (LA, "hash_map::Entry", "hash_map::Entry as _Entry") if False else (LA, "// dbg!(i, state_set.states.len());", "let _ = |m: Entry<u8, u8>| m;")],
"gen-conflict-let-else": [(LA, """                if let Some(item) = get_conflicted_reduce_rule(terminal) {
                    let reduce_action""", """                let found = get_conflicted_reduce_rule(terminal);
                if let Some(item) = found {
                    let reduce_action""")],
"gen-edge-match": [(LA, """                if let Component::NonTerminal(_) = &self.id_mapper.components[e.0.0 as usize] {
                    goto_table.insert(key, e.1);
                } else {
                    action_table.insert(key, Action::Shift(e.1));
                }""", """                let &(symbol, target) = e;
                match &self.id_mapper.components[symbol.0 as usize] {
                    Component::Terminal(_) => {
                        action_table.insert(key, Action::Shift(target));
                    }
                    Component::NonTerminal(_) => {
                        goto_table.insert(key, target);
                    }
                }""")],
"gen-closure-loop": [(LA, """                state.items[j]
                    .lookahead
                    .iter()
                    .for_each(|c| lookaheads.extend(self.first_set[c].clone()));""", """                for c in &state.items[j].lookahead {
                    lookaheads.extend(self.first_set[c].iter().copied());
                }""")],
"wasm-question": [(W, """    match parse(sql) {
        Ok(resolved_root) => format!("{:#?}", resolved_root),
        Err(e) => {
            return format!("Error: {:?}", e);
        }
    }""", """    let result = parse(sql);
    if let Err(e) = &result {
        return format!("Error: {e:?}");
    }
    let root = result.unwrap();
    format!("{root:#?}")""")],
"wasm-helper": [(W, """    match parse(sql) {
        Ok(resolved_root) => format!("{:#?}", resolved_root),
        Err(e) => {
            return format!("Error: {:?}", e);
        }
    }""", """    parse(sql).map_or_else(describe_error, |root| format!("{:#?}", root))"""), (W, "#[wasm_bindgen]\npub fn", "fn describe_error(e: impl std::fmt::Debug) -> String {\n    format!(\"Error: {:?}\", e)\n}\n\n#[wasm_bindgen]\npub fn")],
}
