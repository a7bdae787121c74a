# behaviour-preserving edits of the scanner's actions, of lex() and of the scanner generator
def _src(f):
    return open(os.path.join(WT, f)).read()


def _fn(f, name):
    """The text of a function, from its first line to its closing brace (methods: indented by four)."""
    t = _src(f)
    i = t.rindex("\n", 0, t.index("fn %s(" % name)) + 1
    ind = re.match(r" *", t[i:]).group(0)
    return t[i:t.index("\n" + ind + "}\n", i) + len(ind) + 3]


def g1(old, new):
    """Edit of the first place in the scanner whose code lines are those of old (comments and blank lines aside)."""
    return (G, _G, _edit(_G, old, new))


def gmany(*pairs):
    t = _G
    for old, new in pairs:
        t = _edit(t, old, new)
    return (G, _G, t)


def _edit(t, old, new):
    if "\n" not in old:
        return t.replace(old, new, 1)
    ls = t.split("\n")
    com, code = False, []
    for n, l in enumerate(ls):
        x = l.strip()
        if x.startswith("/*"):
            com = True
        if x and not com and not x.startswith("//"):
            code.append((n, x))
        if x.endswith("*/"):
            com = False
    want = [x.strip() for x in old.split("\n") if x.strip()]
    xs = [x for _, x in code]
    for i in range(len(xs)):
        if xs[i:i + len(want)] == want:
            return "\n".join(ls[:code[i][0]] + new.split("\n") + ls[code[i + len(want) - 1][0] + 1:])
    raise ValueError("not found: " + old[:80])


R4 = {
"xqs-kind": [g1('''match self.state_before_str_stop {
                            State::xb => {''', '''let kind = match self.state_before_str_stop {
                            State::xb => Some(TokenKind::BCONST),
                            State::xh => Some(TokenKind::XCONST),
                            State::xq | State::xe => Some(TokenKind::SCONST),
                            State::xus => Some(TokenKind::USCONST),
                            _ => None,
                        };
                        if let Some(kind) = kind {
                            self.yylval = Yylval::Str(self.literal.clone());
                            self.set_yyllocend();
                            return Ok(Some(kind));
                        }
                        match self.state_before_str_stop {
                            State::xb => {''')],
"xe-surrogate-match": [g1('''                        if is_utf16_surrogate_first(c) {
                            self.utf16_first_part = c;
                            self.begin(State::xeu);
                        } else if is_utf16_surrogate_second(c) {
                            yyerror!("invalid Unicode surrogate pair");
                        } else {''', '''                        if is_utf16_surrogate_second(c) {
                            yyerror!("invalid Unicode surrogate pair");
                        }
                        if is_utf16_surrogate_first(c) {
                            self.utf16_first_part = c;
                            self.begin(State::xeu);
                        } else {''')],
"xeu-order": [g1('''                        self.addunicode(c)?;

                        self.pop_yylloc();

                        self.begin(State::xe);''', '''                        self.begin(State::xe);
                        self.pop_yylloc();
                        self.addunicode(c)?;''')],
"surr-range": [(O, _src(O), _src(O).replace(_fn(O, "is_utf16_surrogate_second"), '''pub fn is_utf16_surrogate_second(c: u32) -> bool {
    c & !0x3FF == 0xDC00
}
'''))],
"unicode-none": [g1('''                            match char::from_u32(c) {
                                Some(c) => self.addunicode(c)?,
                                None => yyerror!("invalid Unicode escape value"),
                            }''', '''                            let Some(ch) = char::from_u32(c) else {
                                yyerror!("invalid Unicode escape value");
                            };
                            self.addunicode(ch)?;''')],
"start-order": [g1('''                        self.set_yylloc();
                        self.dolqstart = self.yytext();
                        self.begin(State::xdolq);
                        self.literal.clear();''', '''                        self.literal = String::new();
                        self.begin(State::xdolq);
                        self.dolqstart = self.yytext().to_owned();
                        self.set_yylloc();''')],
"float-helper": [gmany(('''                        self.set_yylloc();
                        self.yylval = Yylval::Str(self.yytext());
                        return Ok(Some(TokenKind::FCONST));''', '''                        return Ok(Some(self.text_token(TokenKind::FCONST)));'''),
   ("    pub fn parse_token(&mut self)", '''    fn text_token(&mut self, kind: TokenKind) -> TokenKind {
        self.set_yylloc();
        self.yylval = Yylval::Str(self.yytext());
        kind
    }

    pub fn parse_token(&mut self)'''))],
"range-int": [g1('''                        self.yyless(self.yyleng - 2);
                        self.set_yylloc();
                        return Ok(self.process_integer_literal(10));''', '''                        let digits = self.yyleng - "..".len();
                        self.set_yylloc();
                        self.yyless(digits);
                        let kind = self.process_integer_literal(10);
                        return Ok(kind);''')],
"lex-end-match": [(L, '''        let end_byte_pos = if matches!(
            kind,
            TokenKind::SCONST
                | TokenKind::BCONST
                | TokenKind::XCONST
                | TokenKind::USCONST
                | TokenKind::UIDENT
                | TokenKind::IDENT
                | TokenKind::C_COMMENT
        ) {
            lexer.yyllocend_bytes
        } else {
            lexer.yylloc_bytes + lexer.yyleng
        };
''', '''        let end_byte_pos = match &kind {
            TokenKind::SCONST | TokenKind::BCONST | TokenKind::XCONST | TokenKind::USCONST => {
                lexer.yyllocend_bytes
            }
            TokenKind::UIDENT | TokenKind::IDENT | TokenKind::C_COMMENT => lexer.yyllocend_bytes,
            _ => start_byte_pos + lexer.yyleng,
        };
''')],
"lex-eof-match": [(L, '''    while let Some(kind) = lexer.parse_token()? {
        // dbg!(&kind);
        if kind == TokenKind::EOF {
            break;
        }
''', '''    loop {
        let kind = match lexer.parse_token()? {
            None | Some(TokenKind::EOF) => break,
            Some(kind) => kind,
        };
''')],
"lex-nul-bytes": [(L, "input.contains('\\0')", "input.bytes().any(|b| b == 0)")],
"lex-get": [(L, "            value: input[start_byte_pos..end_byte_pos].to_string(),", "            value: String::from(&input[start_byte_pos..end_byte_pos]),")],
"gen-kind-entry": [(LG, '''            let e = map.entry(s).or_default();
            *e += 1;

            // If the action''', '''            let e = *map.entry(s).and_modify(|n| *n += 1).or_insert(1);

            // If the action''')],
"gen-actions-map": [(LG, _fn(LG, "construct_pattern_actions_by_index"), '''fn construct_pattern_actions_by_index(flex_file: &FlexFile) -> String {
    let mut res: Vec<String> = flex_file
        .rules
        .iter()
        .enumerate()
        .map(|(i, rule)| match rule.actions.trim() {
            "|" => format!("{i}|"),
            _ => format!(
                r#"{i} => {{
                    {actions}
                }}"#,
                actions = rule.actions
            ),
        })
        .collect();
    res.push(r#"255 => {{}}"#.to_string());
    res.push(
        r#"_ => {{
            unreachable!()
        }}"#
        .to_string(),
    );
    res.join("\\n")
}
''')],
"gen-states-join": [(LG, "flex_file.all_states.clone().join(", "flex_file.all_states.join(")],
"gen-state-position": [(LG, "                .map(|s| *state_map.get(s).unwrap())", "                .map(|s| state_map[s])")],
}
