#!/usr/bin/env python3
"""refactors.py [ids]: applies behaviour-preserving edits to the scratch clone /tmp/wt, one at a time, and runs every check on it.
Prints the checks that do not come out as on the unchanged tree (they must all stay quiet and decided)."""
import os, re, subprocess, sys, concurrent.futures as cf
WT = __import__("os").environ.get("WT", "/tmp/wt")
P = "crates/postgresql-cst-parser/src/"
C, L, U, O, G = P + "cst.rs", P + "lexer.rs", P + "lexer/util.rs", P + "lexer/lexer_ported.rs", P + "lexer/generated.rs"
W = "crates/postgresql-cst-parser-wasm/src/lib.rs"
PG = "crates/parser-generator/src/parser_generator.rs"
LA = "crates/parser-generator/src/parser_generator/lalr.rs"
LG = "crates/lexer-generator/src/lexer_generator.rs"
GAP3 = '''if last_pos < token.start_byte_pos {
                    extras.push((
                        SyntaxKind::Whitespace,
                        last_pos,
                        token.start_byte_pos,
                        &input[last_pos..token.start_byte_pos],
                    ));
                }
'''
def gap(ind):
    return GAP3.replace("\n                ", "\n" + " " * ind)
ERR = '''return Err(ParserError::ParseError {
                            message: format!(
                                "syntax error at byte position {}",
                                token.start_byte_pos
                            ),
                            start_byte_pos: token.start_byte_pos,
                            end_byte_pos: token.end_byte_pos,
                        });'''
R = {
"gap-helper": [(C, gap(12), "push_gap(&mut extras, input, last_pos, token.start_byte_pos);\n"), (C, gap(16), "push_gap(&mut extras, input, last_pos, token.start_byte_pos);\n"),
   (C, gap(8), "push_gap(&mut extras, input, last_pos, token.start_byte_pos);\n"),
   (C, "/// Parsing a string as", "fn push_gap<'a>(extras: &mut Vec<(SyntaxKind, usize, usize, &'a str)>, input: &'a str, from: usize, to: usize) {\n    if from < to {\n        extras.push((SyntaxKind::Whitespace, from, to, &input[from..to]));\n    }\n}\n\n/// Parsing a string as")],
"children-drain": [(C, '''                let mut children = Vec::new();
                for _ in 0..rule.len {
                    children.push(stack.pop().unwrap().1);
                }
                children.reverse();
''', '''                let keep = stack.len() - rule.len;
                let children: Vec<Node> = stack.drain(keep..).map(|(_, node)| node).collect();
''')],
"children-split": [(C, '''                let mut children = Vec::new();
                for _ in 0..rule.len {
                    children.push(stack.pop().unwrap().1);
                }
                children.reverse();
''', '''                let popped = stack.split_off(stack.len() - rule.len);
                let children: Vec<Node> = popped.into_iter().map(|e| e.1).collect();
''')],
"children-map": [(C, '''                let mut children = Vec::new();
                for _ in 0..rule.len {
                    children.push(stack.pop().unwrap().1);
                }
                children.reverse();
''', '''                let mut children: Vec<Node> = (0..rule.len).map(|_| stack.pop().unwrap().1).collect();
                children.reverse();
''')],
"children-while": [(C, '''                for _ in 0..rule.len {
                    children.push(stack.pop().unwrap().1);
                }
''', '''                let mut n = 0;
                while n < rule.len {
                    let (_, child) = stack.pop().unwrap();
                    children.push(child);
                    n += 1;
                }
''')],
"children-insert": [(C, '''                let mut children = Vec::new();
                for _ in 0..rule.len {
                    children.push(stack.pop().unwrap().1);
                }
                children.reverse();
''', '''                let mut children = VecDeque::new();
                for _ in 0..rule.len {
                    children.push_front(stack.pop().unwrap().1);
                }
                let children: Vec<Node> = children.into();
'''), (C, "use cstree::{", "use std::collections::VecDeque;\n\nuse cstree::{")],
"error-helper": [(C, ERR, "return Err(unknown_token_error(token));")],
"decode-helper": [(C, '''        let action = match lookup_parser_action(state, cid) {
            ERROR_ACTION_CODE => Action::Error,
            v if v > 0 => Action::Shift((v - 1) as usize),
            v if v < 0 => Action::Reduce((-v - 1) as usize),
            _ => Action::Accept,
        };
''', '''        let action = decode_action(lookup_parser_action(state, cid));
'''), (C, "/// Parsing a string as", '''fn decode_action(code: i16) -> Action {
    if code == ERROR_ACTION_CODE {
        return Action::Error;
    }
    match code.cmp(&0) {
        std::cmp::Ordering::Greater => Action::Shift((code - 1) as usize),
        std::cmp::Ordering::Less => Action::Reduce((-code - 1) as usize),
        std::cmp::Ordering::Equal => Action::Accept,
    }
}

/// Parsing a string as''')],
"lookup-early": [(C, '''    let i = ACTION_TABLE_INDEX[state] as usize;
    if ACTION_CHECK_TABLE[i + cid] == cid as i16 {
        if ACTION_TABLE[i + cid] == DEFAULT_ACTION_CODE {
            ACTION_DEF_RULE_TABLE[state]
        } else {
            ACTION_TABLE[i + cid]
        }
    } else {
        ERROR_ACTION_CODE
    }
''', '''    let at = cid + ACTION_TABLE_INDEX[state] as usize;
    if ACTION_CHECK_TABLE[at] != cid as i16 {
        return ERROR_ACTION_CODE;
    }

    match ACTION_TABLE[at] {
        DEFAULT_ACTION_CODE => ACTION_DEF_RULE_TABLE[state],
        code => code,
    }
''')],
"rec-next-if": [(C, '''        while let Some((kind, start, _, text)) = peekable.peek() {
            // TODO: Consider whether the presence or absence of an equals sign changes the position of comments. Determine which option is preferable
            if *start >= node.start_byte_pos {
                // if *start > node.start_byte_pos {
                break;
            }
            self.builder.token(*kind, text);
            peekable.next();
        }
''', '''        while let Some((kind, _, _, text)) = peekable.next_if(|e| e.1 < node.start_byte_pos) {
            self.builder.token(kind, text);
        }
''')],
"rec-for": [(C, '''            node.children
                .iter()
                .for_each(|c| self.parse_rec(c, peekable));
''', '''            for child in &node.children {
                self.parse_rec(child, peekable);
            }
'''), (C, '''        while let Some((kind, _, _, text)) = peekable.peek() {
            self.builder.token(*kind, text);
            peekable.next();
        }
''', '''        for (kind, _, _, text) in peekable {
            self.builder.token(kind, text);
        }
'''), (C, '''        if let Some(token) = &node.token {
            self.builder.token(kind, &token.value);
        } else {''', '''        if let Some(Token { value, .. }) = node.token.as_ref() {
            self.builder.token(kind, value);
        } else {''')],
"rec-slice": [(C, "nodes: &Vec<&Node>,", "nodes: &[&Node],"), (C, "let root: Vec<&Node> = stack[1..].iter().map(|s| &s.1).collect();", "let root: Vec<&Node> = stack.iter().skip(1).map(|(_, node)| node).collect();")],
"rec-flush-helper": [(C, '''        while let Some((kind, _, _, text)) = peekable.peek() {
            self.builder.token(*kind, text);
            peekable.next();
        }

        self.builder.finish_node();
''', '''        self.flush(&mut peekable);
        self.builder.finish_node();
'''), (C, "    fn parse(\n        mut self,", '''    fn flush<'b>(&mut self, rest: &mut impl Iterator<Item = (SyntaxKind, usize, usize, &'b str)>) {
        for (kind, _, _, text) in rest {
            self.builder.token(kind, text);
        }
    }

    fn parse(
        mut self,''')],
"tail-loop": [(C, '''    while let Some(token) = tokens.next() {
        if last_pos''', '''    loop {
        let token = match tokens.next() {
            Some(token) => token,
            None => break,
        };
        if last_pos''')],
"start-match": [(C, '''                let start_byte_pos =
                    children
                        .first()
                        .map(|t| t.start_byte_pos)
                        .unwrap_or_else(|| {
                            // Adopt the larger of the end position of the previous token or the end of the space.
                            extras
                                .last()
                                .map(|e| e.2)
                                .unwrap_or_default()
                                .max(stack.last().unwrap().1.end_byte_pos)
                        });

                let end_byte_pos = children
                    .last()
                    .map(|t| t.end_byte_pos)
                    .unwrap_or(start_byte_pos);
''', '''                let (start_byte_pos, end_byte_pos) = match (children.first(), children.last()) {
                    (Some(first), Some(last)) => (first.start_byte_pos, last.end_byte_pos),
                    _ => {
                        let previous = stack.last().unwrap().1.end_byte_pos;
                        let pos = match extras.last() {
                            Some(e) if e.2 > previous => e.2,
                            _ => previous,
                        };
                        (pos, pos)
                    }
                };
''')],
"driver-let-else": [(C, '''        let token = match tokens.peek() {
            Some(token) => token,
            None => {
                return Err(ParserError::ParseError {
                    message: "unexpected end of input".to_string(),
                    start_byte_pos: input.len(),
                    end_byte_pos: input.len(),
                });
            }
        };
''', '''        let Some(token) = tokens.peek() else {
            let end = input.len();
            return Err(ParserError::ParseError {
                message: "unexpected end of input".to_string(),
                start_byte_pos: end,
                end_byte_pos: end,
            });
        };
''')],
"driver-comment-first": [(C, '''            last_pos = token.end_byte_pos;

            let kind = SyntaxKind::from_raw(RawSyntaxKind(cid));
            extras.push((
                kind,
                token.start_byte_pos,
                token.end_byte_pos,
                &input[token.start_byte_pos..token.end_byte_pos],
            ));
            tokens.next();

            continue;
''', '''            let (from, to) = (token.start_byte_pos, token.end_byte_pos);
            let text = &input[from..to];
            extras.push((SyntaxKind::from_raw(RawSyntaxKind(cid)), from, to, text));
            last_pos = to;
            tokens.next();
            continue;
''')],
"driver-node-ctor": [(C, '''                let node = Node {
                    token: Some(token.clone()),
                    component_id: cid,
                    children: Vec::new(),
                    start_byte_pos: token.start_byte_pos,
                    end_byte_pos: token.end_byte_pos,
                };
''', '''                let node = Node::leaf(cid, token);
'''), (C, "pub type PostgreSQLSyntax", '''impl Node {
    fn leaf(component_id: u32, token: &Token) -> Self {
        Self {
            component_id,
            start_byte_pos: token.start_byte_pos,
            end_byte_pos: token.end_byte_pos,
            children: vec![],
            token: Some(token.clone()),
        }
    }
}

pub type PostgreSQLSyntax''')],
"driver-if-let-goto": [(C, '''                match goto {
                    next_state if next_state >= 0 => {
                        stack.push((next_state as u32, node));
                    }
                    _ => {
                        ''' + ERR + '''
                    }
                }
''', '''                if goto < 0 {
                    return Err(unknown_token_error(token));
                }
                stack.push((goto as u32, node));
''')],
"driver-consume": [(C, '''                stack.push((next_state as u32, node));
                tokens.next();
''', '''                tokens.next();
                stack.push((next_state as u32, node));
''')],
"lex-span-helper": [(L, '''        let end_byte_pos = if matches!(
            kind,
            TokenKind::SCONST
                | TokenKind::BCONST
                | TokenKind::XCONST
                | TokenKind::USCONST
                | TokenKind::UIDENT
                | TokenKind::IDENT
                | TokenKind::C_COMMENT
        ) {
            lexer.yyllocend_bytes
        } else {
            lexer.yylloc_bytes + lexer.yyleng
        };
''', '''        let end_byte_pos = match kind {
            TokenKind::SCONST | TokenKind::BCONST | TokenKind::XCONST | TokenKind::USCONST => {
                lexer.yyllocend_bytes
            }
            TokenKind::UIDENT | TokenKind::IDENT | TokenKind::C_COMMENT => lexer.yyllocend_bytes,
            _ => start_byte_pos + lexer.yyleng,
        };
''')],
"lex-loop": [(L, '''    while let Some(kind) = lexer.parse_token()? {
        // dbg!(&kind);
        if kind == TokenKind::EOF {
            break;
        }
''', '''    loop {
        let kind = match lexer.parse_token()? {
            None | Some(TokenKind::EOF) => break,
            Some(kind) => kind,
        };
''')],
"lex-token-method": [(L, '''        tokens.push(Token {
            start_byte_pos,
            end_byte_pos,
            kind,
            value: input[start_byte_pos..end_byte_pos].to_string(),
        });
''', '''        let value = String::from(&input[start_byte_pos..end_byte_pos]);
        let token = Token { kind, value, start_byte_pos, end_byte_pos };
        tokens.push(token);
'''), (L, "    if input.contains('\\0') {", "    if input.bytes().any(|b| b == 0) {")],
"filter-helper": [(O, '''                if let Some(j) = next_token_index(tokens, i) {
                    match &tokens[j].kind {
                        TokenKind::KEYWORD(k) if matches!(k.as_str(), "TIME" | "ORDINALITY") => {
                            tokens[i].kind = TokenKind::KEYWORD("WITH_LA".to_string());
                        }
                        _ => {}
                    }
                }
''', '''                if next_is(tokens, i, &["TIME", "ORDINALITY"]) {
                    tokens[i].kind = TokenKind::KEYWORD("WITH_LA".to_string());
                }
'''), (O, '''    // The grammar knows neither UIDENT''', '''    fn next_is(tokens: &[Token], i: usize, words: &[&str]) -> bool {
        match next_token_index(tokens, i).map(|j| &tokens[j].kind) {
            Some(TokenKind::KEYWORD(k)) => words.contains(&k.as_str()),
            _ => false,
        }
    }

    // The grammar knows neither UIDENT''')],
"filter-find": [(O, '''        for (j, token) in tokens.iter().enumerate().skip(i + 1) {
            match token.kind {
                TokenKind::C_COMMENT | TokenKind::SQL_COMMENT => continue,
                _ => return Some(j),
            }
        }
        None
''', '''        (i + 1..tokens.len()).find(|&j| {
            !matches!(
                tokens[j].kind,
                TokenKind::C_COMMENT | TokenKind::SQL_COMMENT
            )
        })
''')],
"filter-while": [(O, '''        for (j, token) in tokens.iter().enumerate().skip(i + 1) {
            match token.kind {
                TokenKind::C_COMMENT | TokenKind::SQL_COMMENT => continue,
                _ => return Some(j),
            }
        }
        None
''', '''        let mut j = i + 1;
        while j < tokens.len() {
            let comment = matches!(tokens[j].kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT);
            if !comment {
                return Some(j);
            }
            j += 1;
        }
        None
''')],
"filter-merged": [(O, '''        match token.kind {
            TokenKind::UIDENT => token.kind = TokenKind::IDENT,
            TokenKind::USCONST => token.kind = TokenKind::SCONST,
            _ => (),
        }
''', '''        if token.kind == TokenKind::UIDENT {
            token.kind = TokenKind::IDENT;
        } else if let TokenKind::USCONST = token.kind {
            token.kind = TokenKind::SCONST;
        }
''')],
"match-len-bytes": [(U, '''        for (i, byte) in s.as_bytes().iter().enumerate() {
            let transition_index = *byte as usize;
            dfa_state_index = transition[dfa_state_index as usize][transition_index];
''', '''        for (i, byte) in s.bytes().enumerate() {
            dfa_state_index = transition[usize::from(dfa_state_index)][usize::from(byte)];
''')],
"round-while": [(U, '''        (len..s.len())
            .find(|&i| s.is_char_boundary(i))
            .unwrap_or(s.len())
''', '''        let mut end = len;
        while end < s.len() && !s.is_char_boundary(end) {
            end += 1;
        }
        end
''')],
"keyword-if-let": [(U, '''        self.keyword_map
            .get(kw.as_str())
            .map(|kw_token| (kw, kw_token.to_string()))
''', '''        match self.keyword_map.get(kw.as_str()) {
            Some(token) => {
                let token = token.to_string();
                Some((kw, token))
            }
            None => None,
        }
''')],
"int-helper": [(O, '''        let res_parse_as_i32 = match radix {
            2 => i32::from_str_radix(&digits[2..], 2),
            8 => i32::from_str_radix(&digits[2..], 8),
            10 => digits.parse::<i32>(),
            16 => i32::from_str_radix(&digits[2..], 16),
            _ => unreachable!(),
        };

        let ok = res_parse_as_i32
            .as_ref()
            .map(|res| !neg || *res != i32::MIN)
            .unwrap_or_default();

        if ok {
            let res = res_parse_as_i32.unwrap();
            self.yylval = Yylval::I(if neg { -res } else { res });
            Some(TokenKind::ICONST)
        } else {
            self.yylval = Yylval::Str(yytext_original);
            Some(TokenKind::FCONST)
        }
''', '''        let parsed = if radix == 10 {
            digits.parse::<i32>()
        } else {
            i32::from_str_radix(&digits[2..], radix as u32)
        };

        match parsed {
            Ok(res) if !(neg && res == i32::MIN) => {
                self.yylval = Yylval::I(if neg { -res } else { res });
                Some(TokenKind::ICONST)
            }
            _ => {
                self.yylval = Yylval::Str(yytext_original);
                Some(TokenKind::FCONST)
            }
        }
''')],
"wasm-map": [(W, '''    match parse(sql) {
        Ok(resolved_root) => format!("{:#?}", resolved_root),
        Err(e) => {
            return format!("Error: {:?}", e);
        }
    }
''', '''    let parsed = parse(sql);
    if let Err(e) = &parsed {
        return format!("Error: {e:?}");
    }
    format!("{:#?}", parsed.unwrap())
''')],
}


def sh(*a):
    return subprocess.run(a, check=True, capture_output=True, text=True).stdout


def check(c):
    r = subprocess.run(["./check", c], cwd="/verif", env=dict(os.environ, VP_REPO=WT), capture_output=True, text=True)
    last = [l for l in r.stdout.splitlines() if re.match(r"C\d\d: ", l)]
    bad = [l for l in r.stdout.splitlines() if re.match(r"(refuted|undecided|cannot)", l)]
    return c, r.returncode, (last or ["no answer: " + r.stderr[-300:]])[-1], bad


def main():
    g = dict(globals())
    for n in ("2", "3", "4"):
        exec(open("/verif/tools/refactors%s.py" % n).read(), g)
        R.update(g["R" + n])
    ids = [a for a in sys.argv[1:] if not a.startswith("+")] or list(R)
    only = [a[1:] for a in sys.argv[1:] if a.startswith("+")]
    checks = only or sorted(f[:-3].upper() for f in os.listdir("/verif/checks") if re.match(r"c\d\d.py$", f))
    sh("git", "-C", WT, "checkout", "-q", "--", ".")
    for i in ids:
        for ed in R[i]:
            f, old, new = ed[:3]
            p = os.path.join(WT, f)
            t = open(p).read()
            if t.count(old) < 1 or (len(ed) < 4 and t.count(old) != 1):
                print("!!", i, "edit found", t.count(old), "times:", old[:60])
                break
            open(p, "w").write(t.replace(old, new))
        else:
            first = check(checks[0])
            with cf.ThreadPoolExecutor(6) as ex:
                res = [first] + list(ex.map(check, checks[1:]))
            odd = [x for x in res if x[1] != 0 or ("0 undecided" not in x[2])]
            print("==", i, "quiet" if not odd else "")
            for c, rc, last, bad in odd:
                print("  ", c, "rc", rc, last[:90])
                for b in bad[:3]:
                    print("      ", b[:330])
        sys.stdout.flush()
        sh("git", "-C", WT, "checkout", "-q", "--", ".")


main()
