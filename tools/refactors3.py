# behaviour-preserving edits of the regular-expression compiler (crates/automata)
AL, AR, AN, AD = ["crates/automata/src/%s.rs" % x for x in ("lib", "regexp", "nfa", "dfa")]
FRAG = '''            let node_nfa @ NFAFragment {
                start_state: node_start,
                accept_state: node_accept,
            } = NFAFragment::new(nfa);

            build_nfa_from_regex_node(nfa, &node_nfa, node, named_pattern_definitions);

'''
FRAG2 = FRAG.replace("\n    ", "\n        ").replace("            let node_nfa", "                let node_nfa", 1)
HELP = '''/// Builds an NFA structure from a regular expression AST node
'''
HELPER = '''fn fragment_for<'a>(
    nfa: &'a NFA<'a>,
    node: &RegexpNode,
    defs: &HashMap<String, RegexpNode>,
) -> NFAFragment<'a> {
    let fragment = NFAFragment::new(nfa);
    build_nfa_from_regex_node(nfa, &fragment, node, defs);
    fragment
}

''' + HELP
R3 = {
"nfa-star-order": [(AL, '''            start.add_transition(node_start, Transition::Epsilon);
            node_accept.add_transition(accept, Transition::Epsilon);
            node_accept.add_transition(node_start, Transition::Epsilon);
            start.add_transition(accept, Transition::Epsilon);
''', '''            start.add_transition(accept, Transition::Epsilon);
            start.add_transition(node_start, Transition::Epsilon);
            node_accept.add_transition(node_start, Transition::Epsilon);
            node_accept.add_transition(accept, Transition::Epsilon);
''')],
"nfa-star-helper": [(AL, HELP, HELPER), (AL, '''        RegexpNode::ZeroOrMore(node) => {
''' + FRAG, '''        RegexpNode::ZeroOrMore(node) => {
            let NFAFragment { start_state: node_start, accept_state: node_accept } = fragment_for(nfa, node, named_pattern_definitions);
'''), (AL, '''        RegexpNode::OneOrMore(node) => {
''' + FRAG, '''        RegexpNode::OneOrMore(node) => {
            let NFAFragment { start_state: node_start, accept_state: node_accept } = fragment_for(nfa, node, named_pattern_definitions);
''')],
"nfa-char-anyof": [(AL, '''            for byte in bytes {
                start.add_transition(accept, Transition::Char(*byte));
            }''', '''            bytes.iter().for_each(|&byte| start.add_transition(accept, Transition::Char(byte)));''')],
"nfa-noneof-filter": [(AL, '''            for byte in 0x01..=0xFF {
                if !bytes.contains(&byte) {
                    start.add_transition(accept, Transition::Char(byte));
                }
            }''', '''            for byte in (0x01..=0xFF).filter(|b| !bytes.contains(b)) {
                start.add_transition(accept, Transition::Char(byte));
            }''')],
"nfa-noneof-all": [(AL, '''                if !bytes.contains(&byte) {''', '''                if bytes.iter().all(|&b| b != byte) {''')],
"nfa-noneof-continue": [(AL, '''                if !bytes.contains(&byte) {
                    start.add_transition(accept, Transition::Char(byte));
                }''', '''                if bytes.contains(&byte) {
                    continue;
                }
                start.add_transition(accept, Transition::Char(byte));''')],
"nfa-noneof-set": [(AL, '''            for byte in 0x01..=0xFF {
                if !bytes.contains(&byte) {''', '''            let excluded: HashSet<u8> = bytes.iter().copied().collect();
            for byte in 0x01..=0xFF {
                if !excluded.contains(&byte) {''')],
"nfa-concat-fold": [(AL, '''            let mut state = start;

            for node in nodes {
''' + FRAG2 + '''                state.add_transition(node_start, Transition::Epsilon);
                state = node_accept;
            }

            state.add_transition(accept, Transition::Epsilon);''', '''            let last = nodes.iter().fold(start, |state, node| {
                let fragment = NFAFragment::new(nfa);
                build_nfa_from_regex_node(nfa, &fragment, node, named_pattern_definitions);
                state.add_transition(fragment.start_state, Transition::Epsilon);
                fragment.accept_state
            });

            last.add_transition(accept, Transition::Epsilon);''')],
"nfa-repeat-two": [(AL, '''            for i in 0..*max {
                if i >= *min {
                    state.add_transition(accept, Transition::Epsilon);
                }
''', '''            let (min, max) = (*min, *max);
            for done in 0..max {
                if min <= done {
                    state.add_transition(accept, Transition::Epsilon);
                }
''')],
"nfa-repeat-while": [(AL, '''            for i in 0..*max {
                if i >= *min {
                    state.add_transition(accept, Transition::Epsilon);
                }
''', '''            let mut i = 0;
            while i < *max {
                if i >= *min {
                    state.add_transition(accept, Transition::Epsilon);
                }
                i += 1;
''')],
"nfa-ref-match": [(AL, '''            let regexp_node = named_pattern_definitions
                .get(name)
                .unwrap_or_else(|| panic!("Referenced pattern '{}' not found", name));
''', '''            let regexp_node = match named_pattern_definitions.get(name) {
                Some(regexp_node) => regexp_node,
                None => panic!("Referenced pattern '{}' not found", name),
            };
''')],
"nfa-ref-direct": [(AL, '''            let node_nfa @ NFAFragment {
                start_state: node_start,
                accept_state: node_accept,
            } = NFAFragment::new(nfa);

            build_nfa_from_regex_node(nfa, &node_nfa, regexp_node, named_pattern_definitions);
            start.add_transition(node_start, Transition::Epsilon);
            node_accept.add_transition(accept, Transition::Epsilon);
''', '''            build_nfa_from_regex_node(nfa, regex_nfa, regexp_node, named_pattern_definitions);
''')],
"nfa-frag-dots": [(AL, '''    let &NFAFragment {
        start_state: start,
        accept_state: accept,
    } = regex_nfa;
''', '''    let start = regex_nfa.start_state;
    let accept = regex_nfa.accept_state;
''')],
"flex-loop-collect": [(AL, '''    state_start_node.into_iter().map(DFA::from).collect()''', '''    let mut dfas = Vec::with_capacity(state_start_node.len());
    for start in state_start_node {
        dfas.push(DFA::from(start));
    }
    dfas''')],
"flex-parse-after": [(AL, '''        let node = regex_parser.parse(&pattern_def.pattern);
        let regex_nfa = NFAFragment::new(&nfa);

        regex_nfa.accept_state.set_accept(i as u32);
        build_nfa_from''', '''        let regex_nfa = NFAFragment::new(&nfa);
        let rule_id = i as u32;
        regex_nfa.accept_state.set_accept(rule_id);

        let node = regex_parser.parse(&pattern_def.pattern);
        build_nfa_from''')],
"flex-max-state": [(AL, '''        .flat_map(|p| p.state_set.iter().cloned())
        .collect::<HashSet<_>>()
        .len();''', '''        .flat_map(|p| p.state_set.iter().copied())
        .collect::<std::collections::BTreeSet<_>>()
        .len();''')],
"flex-defs-collect": [(AL, '''    let mut named_pattern_definitions = HashMap::new();

    for name_definition in name_definitions {
        let regex = regex_parser.parse(&name_definition.definition);
        named_pattern_definitions.insert(name_definition.name.clone(), regex);
    }
''', '''    let named_pattern_definitions = name_definitions
        .iter()
        .map(|d| (d.name.clone(), regex_parser.parse(&d.definition)))
        .collect::<HashMap<_, _>>();
''')],
"clos-recursive-none": [(AN, '''        if let Some(new_states) = s.transitions.borrow().get(&Transition::Epsilon) {
            for &new_state in new_states {
                if epsilon_closure''', '''        if let Some(reachable) = s.transitions.borrow().get(&Transition::Epsilon) {
            for &new_state in reachable.iter() {
                if epsilon_closure''')],
"clos-candidate-new": [(AN, '''    let mut candidate = vec![s];
''', '''    let mut candidate = Vec::new();
    candidate.push(s);
''')],
"clos-contains": [(AN, '''    if !epsilon_closure.insert(s) {
        return None;
    }
''', '''    if epsilon_closure.contains(s) {
        return None;
    }
    epsilon_closure.insert(s);
''')],
"dfa-select-min": [(AD, '''    set.iter()
        .fold(None, |acc, s| match *s.accept_lexer_rule_id.borrow() {
            Some(v) if v < acc.unwrap_or(u32::MAX) => Some(v),
            _ => acc,
        })''', '''    set.iter()
        .filter_map(|s| *s.accept_lexer_rule_id.borrow())
        .min()''')],
"dfa-select-loop": [(AD, '''    set.iter()
        .fold(None, |acc, s| match *s.accept_lexer_rule_id.borrow() {
            Some(v) if v < acc.unwrap_or(u32::MAX) => Some(v),
            _ => acc,
        })''', '''    let mut best: Option<u32> = None;
    for state in set {
        if let Some(rule) = *state.accept_lexer_rule_id.borrow() {
            if best.is_none_or(|b| rule < b) {
                best = Some(rule);
            }
        }
    }
    best''')],
"dfa-index-len": [(AD, "                let index = nfa_map.len();\n", "                let index = dfa_states.len();\n")],
"dfa-match-index": [(AD, '''            let dst_state_index = if let Some(index) = nfa_map.get(&next_set) {
                *index
            } else {
''', '''            let known = nfa_map.get(&next_set).copied();
            let dst_state_index = if let Some(index) = known {
                index
            } else {
''')],
"dfa-invalid": [(AD, "                    transitions: [!0; 256],", "                    transitions: [INVALID_STATE; 256],")],
"dfa-closure-helper": [(AD, '''            let mut next_set = BTreeSet::new();

            let t = Transition::Char(b);

            for nfa_state in &nfa_states {
                if let Some(new_states) = nfa_state.transitions.borrow().get(&t) {
                    for &new_state in new_states {
                        collect_epsilon_closure(&mut next_set, new_state);
                    }
                }
            }
''', '''            let next_set = states_after(&nfa_states, b);
'''), (AD, '''/// Subset construction algorithm
pub fn''', '''fn states_after<'a>(states: &BTreeSet<&'a NFAState<'a>>, b: u8) -> BTreeSet<&'a NFAState<'a>> {
    let mut next_set = BTreeSet::new();
    for state in states {
        if let Some(targets) = state.transitions.borrow().get(&Transition::Char(b)) {
            for &target in targets {
                collect_epsilon_closure(&mut next_set, target);
            }
        }
    }
    next_set
}

/// Subset construction algorithm
pub fn''')],
"dfa-nonempty": [(AD, '''            if next_set.is_empty() {
                continue;
            }
''', '''            if next_set.len() == 0 {
                continue;
            }
''')],
"state-eq-ref": [(AN, "        self.state_id == other.state_id\n", "        self.state_id.eq(&other.state_id)\n"), (AN, "        Some(self.state_id.cmp(&other.state_id))\n", "        Some(self.cmp(other))\n")],
"state-new-bind": [(AN, '''        self.next_state_id.set(state_id + 1);

        self.arena.alloc(NFAState {
            state_id,
            transitions: RefCell::new(BTreeMap::new()),
            accept_lexer_rule_id: RefCell::new(None),
        })''', '''        let state = NFAState {
            state_id,
            transitions: RefCell::default(),
            accept_lexer_rule_id: RefCell::new(None),
        };
        self.next_state_id.set(state_id + 1);
        self.arena.alloc(state)''')],
"re-hex-todigit": [(AR, '''                    if !c.is_ascii_hexdigit() {
                        break;
                    }

                    let d = match c {
                        b'0'..=b'9' => c - b'0',
                        b'a'..=b'f' => c - b'a' + 10,
                        b'A'..=b'F' => c - b'A' + 10,
                        _ => unreachable!(),
                    };
''', '''                    let d = match c {
                        b'0'..=b'9' => c - b'0',
                        b'a'..=b'f' => c - b'a' + 10,
                        b'A'..=b'F' => c - b'A' + 10,
                        _ => break,
                    };
''')],
"re-hex-chardigit": [(AR, '''                    let d = match c {
                        b'0'..=b'9' => c - b'0',
                        b'a'..=b'f' => c - b'a' + 10,
                        b'A'..=b'F' => c - b'A' + 10,
                        _ => unreachable!(),
                    };
''', '''                    let d = (c as char).to_digit(16).unwrap() as u8;
''')],
"re-octal-let": [(AR, '''                    let c = self.bytes[self.index];

                    if !c.is_ascii_digit() {
                        break;
                    }

                    v = v * 8 + (c - b'0');
                    self.index += 1;
''', '''                    let digit = self.bytes[self.index];
                    if !(b'0'..=b'9').contains(&digit) {
                        break;
                    }
                    self.index += 1;
                    v = v * 8 + (digit - b'0');
''')],
"re-class-not": [(AR, '''        let is_not = if self.bytes[self.index] == b'^' {
            self.index += 1;
            true
        } else {
            false
        };
''', '''        let is_not = self.bytes[self.index] == b'^';
        if is_not {
            self.index += 1;
        }
''')],
"re-class-extend": [(AR, '''                for i in first..=last {
                    nodes.push(RegexpNode::Char(i));
                }
''', '''                nodes.extend((first..=last).map(RegexpNode::Char));
''')],
"re-class-map": [(AR, '''                        .map(|node| match node {
                            RegexpNode::Char(c) => c,
                            _ => panic!(),
                        })''', '''                        .map(|node| node.as_char_value())''')],
"re-class-take": [(AR, '''            let prev_is_minus = is_minus;
            is_minus = false;
''', '''            let prev_is_minus = std::mem::replace(&mut is_minus, false);
''')],
"re-quoted-while": [(AR, '''        loop {
            let c = self.bytes[self.index];
            self.index += 1;

            if c == b'"' {
                break;
            }

            nodes.push(RegexpNode::Char(c));
        }
''', '''        while self.bytes[self.index] != b'"' {
            nodes.push(RegexpNode::Char(self.bytes[self.index]));
            self.index += 1;
        }
        self.index += 1;
''')],
"re-ref-split": [(AR, '''            let min_str = std::str::from_utf8(&content[0..i]).unwrap();''', '''            let min_str = std::str::from_utf8(&content[..i]).unwrap();''')],
"re-ref-fromutf8": [(AR, '''        let s = std::str::from_utf8(&content).unwrap();
        RegexpNode::Reference(s.to_string())''', '''        RegexpNode::Reference(String::from_utf8(content).unwrap())''')],
"re-count-loop": [(AR, '''        if content.iter().all(|&b| b.is_ascii_digit()) {''', '''        if !content.iter().any(|b| !b.is_ascii_digit()) {''')],
"re-single-if": [(AR, '''            b'?' => {
                self.index += 1;
                let last = self.pop_node();
                RegexpNode::Repeat(Box::new(last), 0, 1)
            }''', '''            b'?' => {
                let last = self.pop_node();
                self.index += 1;
                RegexpNode::Repeat(last.into(), 0, 1)
            }''')],
"re-single-advance": [(AR, '''            b'*' => {
                self.index += 1;
                let last = self.pop_node();
                RegexpNode::ZeroOrMore(last.into())
            }''', '''            b'*' => self.postfix(|node| RegexpNode::ZeroOrMore(Box::new(node))),'''), (AR, '''    fn parse_single_node(''', '''    fn postfix(&mut self, make: impl Fn(RegexpNode) -> RegexpNode) -> RegexpNode {
        self.index += 1;
        let operand = self.pop_node();
        make(operand)
    }

    fn parse_single_node(''')],
"re-alt-take": [(AR, '''                    let nodes = self.parsing_context_stack.pop().unwrap();
                    alt_nodes.push(RegexpNode::concat(nodes));
                    self.parsing_context_stack.push(vec![]);
''', '''                    let nodes = std::mem::take(self.parsing_context_stack.last_mut().unwrap());
                    alt_nodes.push(RegexpNode::concat(nodes));
''')],
"re-alt-while": [(AR, '''            match c {
                b')' | b']' | b'}' => {
                    break;
                }
                b'|' => {''', '''            if matches!(c, b')' | b']' | b'}') {
                break;
            }

            match c {
                b'|' => {''')],
"re-concat-match": [(AR, '''        if nodes.len() == 1 {
            nodes.into_iter().next().unwrap()
        } else {
            RegexpNode::Alternative(nodes)
        }''', '''        match nodes.len() {
            1 => nodes.into_iter().next().unwrap(),
            _ => RegexpNode::Alternative(nodes),
        }''')],
"re-concat-loop": [(AR, '''            let flatten = nodes
                .into_iter()
                .flat_map(|node| {
                    if let RegexpNode::Concatenation(nodes) = node {
                        nodes
                    } else {
                        vec![node]
                    }
                })
                .collect();
''', '''            let mut flatten = Vec::new();
            for node in nodes {
                match node {
                    RegexpNode::Concatenation(inner) => flatten.extend(inner),
                    other => flatten.push(other),
                }
            }
''')],
"re-concat-pop": [(AR, '''        if nodes.len() == 1 {
            nodes.into_iter().next().unwrap()
        } else {
            RegexpNode::Alternative(nodes)
        }''', '''        let mut nodes = nodes;
        if nodes.len() == 1 {
            nodes.pop().unwrap()
        } else {
            RegexpNode::Alternative(nodes)
        }''')],
"re-peek": [(AR, '''        let c = self.bytes[self.index];

        match c {
            b'[' =>''', '''        match self.bytes[self.index] {
            b'[' =>'''), (AR, '''            _ => {
                self.index += 1;
                RegexpNode::Char(c)
            }
        }
    }

    fn parse_alternative''', '''            c => {
                self.index += 1;
                RegexpNode::Char(c)
            }
        }
    }

    fn parse_alternative''')],
"re-helper-bump": [(AR, '''        self.index += 1;

        let c = self.bytes[self.index];
        self.index += 1;

        match c {''', '''        self.index += 1;
        let c = self.bump();

        match c {'''), (AR, '''    fn parse_escape_sequence_as_byte''', '''    fn bump(&mut self) -> u8 {
        let c = self.bytes[self.index];
        self.index += 1;
        c
    }

    fn parse_escape_sequence_as_byte''')],
}
