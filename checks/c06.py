"""C06: the scanner selects the longest match of the earliest flex rule."""
from vlib import dump, flex, scan
from vlib.report import Check


def run(config="default", unit="postgresql_cst_parser-lib", pid="C06"):
    chk = Check(pid, "The tables the matching function walks are read off its MIR per mode and compared with automata built "
                "from scan.l over all reachable state pairs and all 255 non-NUL bytes; the loop of the matching function is "
                "summarised by abstract interpretation and every partition compared with the longest-match step.",
                level="proof", assumptions=["the input contains no NUL byte (established by C02's NUL obligation)"])
    prog = dump.load(config, unit)
    defs, states, rules, trees, dfas = flex.mode_dfas()
    chk.count("flex_rules", len(rules))
    chk.guard("modes", body, chk, prog, states, rules, dfas)
    return chk


def body(chk, prog, states, rules, dfas):
    shape = scan.LexerShape(prog)
    tabs = {}
    for mode in states:
        if mode not in shape.modes:
            chk.undecided("mode:" + mode, "", "no such scanner mode in the program")
            continue
        m = chk.guard("loop:" + mode, scan.analyse_match, prog, shape, mode)
        if m is None:
            continue
        w = dump.where(m.fn)
        if m.problems:
            for c, d in m.problems:
                chk.refuted("loop:" + mode, w, d)
        elif m.unclear:
            chk.undecided("loop:" + mode, w, "; ".join(m.unclear))
        else:
            chk.proved("loop:" + mode, w, "longest-match loop")
        chk.count("loop_partitions", len(m.finals))
        if m.trans is not None and m.acc is not None and hasattr(m, "start"):
            tabs[mode] = m
    group = {r.index: r.group for r in rules}
    vg = scan.value_groups(tabs, dfas, group)
    for mode, m in tabs.items():
        bad, pairs, steps, _ = scan.product(m, dfas[mode], group, vg)
        chk.count("state_pairs", pairs)
        chk.count("transitions", steps)
        w = "scan tables of mode %s (%s)" % (mode, dump.where(m.fn))
        if bad:
            for text, d in bad[:5]:
                chk.refuted("table:" + mode, w, "after %r: %s" % (text, d))
        else:
            chk.proved("table:" + mode, w, "%d pairs" % pairs)
            chk.sample({"mode": mode, "pairs": pairs, "byte_steps": steps})
    got = set(vg.values())
    for g in sorted({r.group for r in rules}):
        if g in got:
            chk.proved("rule:%d" % g, "scan.l:%d" % rules[g].line)
        elif len(tabs) == len(states):
            chk.refuted("rule:%d" % g, "scan.l:%d" % rules[g].line, "no input selects the action of rule %s" % rules[g])
    chk.count("action_groups", len(got))
