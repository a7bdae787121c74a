P = "crates/parser-generator/src/parser_generator.rs"
LA = "crates/parser-generator/src/parser_generator/lalr.rs"
BI = "crates/parser-generator/src/parser_generator/bison.rs"
LR = open("/verif/tools/lrdemo.py").read()


def demo(gram, cases):
    return '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n', 'import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lrdemo import tables, expect\nt = tables("""' + gram + '""")\n' + "".join(
        "expect(t, %r, %r)\n" % c for c in cases)


def seed(id, prop, needs, breaks, edits, gram, cases):
    sh, py = demo(gram, cases)
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, raw=True, demo='exec python3 "$(dirname "$0")/demo.py"',
                files={"demo.py": py, "lrdemo.py": LR})


H = "%type <node> S E T F L\n%token <ival> ICONST IDENT\n"
EXPR = H + """%nonassoc '<' '>'
%left '+' '-'
%left '*'
%right '^'
%right UMINUS
%%
S: E ;
E: E '+' E | E '-' E | E '*' E | E '^' E | E '<' E | E '>' E | '(' E ')' | '-' E %prec UMINUS | E IDENT E | ICONST ;
%%
"""
I = "ICONST"
FULL = [("ICONST - ICONST - ICONST", "((ICONST - ICONST) - ICONST)"), ("ICONST - ICONST + ICONST", "((ICONST - ICONST) + ICONST)"),
        ("ICONST < ICONST < ICONST", None), ("ICONST < ICONST > ICONST", None), ("- ICONST * ICONST", "((- ICONST) * ICONST)"),
        ("ICONST ^ ICONST ^ ICONST", "(ICONST ^ (ICONST ^ ICONST))"), ("ICONST IDENT ICONST IDENT ICONST", "(ICONST IDENT (ICONST IDENT ICONST))"),
        ("ICONST + ICONST IDENT ICONST", "(ICONST + (ICONST IDENT ICONST))"),
        ("ICONST IDENT ICONST + ICONST", "(ICONST IDENT (ICONST + ICONST))")]
SEEDS = [
 seed("c19-nonassoc-shift", "C19", "a chain of operators declared %nonassoc",
      "equal precedence shifts unless the operator is left-associative, so nonassociative operators associate to the right",
      [(LA, "(Some(reduce), Some(shift)) if reduce.priority < shift.priority => {", "(Some(reduce), Some(shift))\n                            if reduce.priority < shift.priority\n                                || (reduce.priority == shift.priority\n                                    && reduce.name != shift.name\n                                    && shift.directive == AssocDirective::NonAssoc) =>\n                        {")],
      EXPR, FULL),
 seed("c19-first-terminal", "C19", "a rule with several terminals of different precedence",
      "a rule takes its precedence from its first terminal instead of its last one",
      [(LA, "                            .filter(|comp| matches!(comp, Component::Terminal(_)))\n                            .last();", "                            .find(|comp| matches!(comp, Component::Terminal(_)));")],
      H + "%left '+'\n%left '*'\n%%\nS: E ;\nE: E '+' E '*' E | E '+' E | E '*' E | ICONST ;\n%%\n",
      [("ICONST + ICONST * ICONST * ICONST", "((ICONST + ICONST * ICONST) * ICONST)")]) if False else None,
 seed("c19-declaration-order", "C19", "two operators declared on one line of a precedence declaration",
      "every operator gets a precedence of its own, the later names of a line binding tighter",
      [(BI, "                name: name.to_string(),\n                priority,", "                name: name.to_string(),\n                priority: priority.max(bison.assoc.len()),")],
      EXPR, FULL),
 seed("c19-reduce-reduce", "C19", "two rules that can be reduced in the same state on the same lookahead",
      "the last candidate rule is reduced instead of the first one",
      [(LA, "                    .iter()\n                    .find(|item| item.lookahead.contains(shift_comp))", "                    .iter()\n                    .rev()\n                    .find(|item| item.lookahead.contains(shift_comp))")],
      H + "%%\nS: T '+' '*' | F '+' '-' ;\nT: ICONST ;\nF: ICONST ;\n%%\n", [("ICONST + *", "(ICONST + *)"), ("ICONST + -", None)]),
 seed("c20-shared-shift", "C20", "two states that shift the same token to different states",
      "two rows may share a cell when both entries are shifts, whatever state they lead to",
      [(P, "                    if compressed_values[i + j] != a {\n                        ok = false;\n                        break;\n                    }\n                } else if index_check[i + j] != UNUSED_ENTRY_CODE || offset_used[i] {\n                    ok = false;\n                    break;\n                }\n            }\n\n            if !ok {\n                continue;\n            }\n\n            state_to_offset[state_index] = i as u32;\n            state_default", "                    let stored = compressed_values[i + j];\n                    let both_shift = stored > 0 && a > 0 && stored != DEFAULT_ACTION_CODE && a != DEFAULT_ACTION_CODE;\n                    if stored != a && !both_shift {\n                        ok = false;\n                        break;\n                    }\n                } else if index_check[i + j] != UNUSED_ENTRY_CODE || offset_used[i] {\n                    ok = false;\n                    break;\n                }\n            }\n\n            if !ok {\n                continue;\n            }\n\n            state_to_offset[state_index] = i as u32;\n            state_default")],
      H + "%%\nS: '(' ICONST '+' | '(' IDENT '+' '+' | '*' ICONST '-' | '*' IDENT '-' '-' ;\n%%\n", [("( ICONST +", "(( ICONST +)"), ("( IDENT + +", "(( IDENT + +)"), ("* ICONST -", "(* ICONST -)"), ("* IDENT - -", "(* IDENT - -)")]),
 seed("c20-shift-default", "C20", "a state whose most frequent action is a shift",
      "only reductions are recorded as the state's default action, while shifts are still replaced by the default marker",
      [(P, "            state_default_actions[state_index] = state_def_rule;", "            if state_def_rule <= 0 {\n                state_default_actions[state_index] = state_def_rule;\n            }")],
      EXPR, FULL),
 seed("c20-table-end", "C20", "the state with the highest offset and a lookahead with a high number",
      "the emitted tables end before the last state's row does",
      [(P, "    let max_table_index =\n        *state_to_offset.iter().max().unwrap() as usize + non_terminal_symbols.len();", "    let max_table_index =\n        *state_to_offset.iter().max().unwrap() as usize + non_terminal_symbols.len() / 2;")],
      H + "%%\nS: E T ;\nE: ICONST F ;\nT: '*' L | '+' ;\nF: '-' ;\nL: ICONST ;\n%%\n", [("ICONST - * ICONST", "((ICONST -) (* ICONST))")]),
 seed("c20-accept-code", "C20", "a grammar whose first rule is reduced in the middle of a parse",
      "rule numbers are encoded without the offset that keeps rule 0 apart from accept",
      [(P, "                    uncompressed_action_table.push(-(*r as i16) - 1);", "                    let r = *r as i16;\n                    uncompressed_action_table.push(if r > 1 { -r - 1 } else { -r });")],
      EXPR, FULL) if False else None,
]
SEEDS = [s for s in SEEDS if s]
