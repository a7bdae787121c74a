"""C04: the parser's tables are the grammar's LALR(1) automaton and the driver runs it."""
from collections import deque
from vlib import dump, gram, tables, decode
from vlib.dump import where
from vlib.report import Check

ERROR = 0x7FFF


def run(config="default", unit="postgresql_cst_parser-lib", pid="C04"):
    chk = Check(pid, "The LALR(1) automaton of gram.y is built by an independent generator (DeRemer-Pennello, bison's conflict "
                "resolution); the action and goto lookups are read off their MIR as decision procedures over the table "
                "constants; a simulation over all reachable state pairs compares every terminal's action and every "
                "nonterminal's goto; every entry of the rule table is compared with its production; the driver's loop is "
                "summarised and every partition compared with the LR step.", level="proof",
                assumptions=["gram.y's own conflict resolution follows bison's documentation"])
    prog = dump.load(config, unit)
    chk.guard("tables", check_tables, chk, prog)
    chk.guard("rules", check_rules, chk, prog)
    try:
        from vlib import driver
    except ImportError:
        return chk
    chk.guard("driver", driver.report, chk, prog, pid)
    if pid == "C04":
        from vlib import lexloop
        chk.guard("lex", lexloop.report, chk, prog, pid)
    return chk


def check_rules(chk, prog):
    g, lal = gram.grammar(), gram.lalr()
    R = tables.rules(prog)
    n = len(g.rules)
    if len(R) < n:
        chk.refuted("rules", "RULES", "the rule table has %d entries, gram.y %d productions" % (len(R), n))
        return
    for i in range(n):
        lhs, rhs, _ = g.rules[i]
        if R[i] != (lhs, len(rhs)):
            chk.refuted("rule:%d" % i, "RULES[%d]" % i, "production %s: %s has length %d; the table says %s with length %d" % (
                lhs, " ".join(rhs) or "/* empty */", len(rhs), R[i][0], R[i][1]))
        else:
            chk.proved("rule:%d" % i, "RULES[%d]" % i)
    chk.count("productions", n)


def check_tables(chk, prog):
    g, lal = gram.grammar(), gram.lalr()
    A, G = decode.Table(prog, "lookup_parser_action"), decode.Table(prog, "lookup_goto_state")
    wa, wg = where(A.fn), where(G.fn)
    tid, ids, tfn = tables.terminal_ids(prog, g.terms)
    rid, ok, rfn = tables.rule_ids(prog)
    miss = [t for t in g.terms if t not in tid and any(t in a for a in lal.action)]
    if miss or [n for n in g.nonterms if n not in rid]:
        for t in miss:
            (chk.refuted if ids["complete"] else chk.undecided)("terminal:" + t, where(tfn), "terminal has no number in the tables")
        for t in [n for n in g.nonterms if n not in rid]:
            (chk.refuted if ok else chk.undecided)("nonterminal:" + t, where(rfn), "nonterminal has no number in the tables")
        if not (ids["complete"] and ok):
            return
    seen = {0: 0}
    back = {}
    via = {0: ()}
    todo = deque([0])
    bad = 0
    cells = 0

    def prefix(s):
        out = []
        while s in back:
            s, sym = back[s]
            out.append(sym)
        return " ".join(out[::-1]) or "(start)"

    def pair(s, t, frm, sym):
        """state s of the automaton is played by table state t"""
        nonlocal bad
        if s in seen:
            if seen[s] != t:
                bad += 1
                if bad <= 20:
                    chk.refuted("state:%d" % frm, "parser tables, after %s" % prefix(frm),
                                "%s leads to table state %d here but the same LR state is table state %d elsewhere" % (sym, t, seen[s]))
            return
        seen[s] = t
        back[s] = (frm, sym)
        todo.append(s)

    terms = [(t, tid[t]) for t in g.terms if t in tid]
    nts = [(n, rid[n]) for n in g.nonterms if n in rid]
    while todo:
        s = todo.popleft()
        t = seen[s]
        act = lal.action[s]
        good = True

        def err(what):
            nonlocal bad, good
            good = False
            bad += 1
            if bad <= 20:
                chk.refuted("state:%d" % s, "parser tables, state %d, after %s" % (t, prefix(s)), what)
        for name, c in terms:
            v = A(t, c)
            cells += 1
            w = act.get(name)
            if v is None:
                err("the lookup leaves the table for terminal %s" % name)
                continue
            if v == ERROR:
                if w is not None:
                    err("on %s the grammar prescribes %s, the table rejects" % (name, act_text(g, w)))
            elif v > 0:
                if w is None or w[0] != "s":
                    err("on %s the grammar prescribes %s, the table shifts" % (name, act_text(g, w)))
                else:
                    pair(w[1], v - 1, s, name)
            elif v < 0:
                if w != ("r", -v - 1):
                    err("on %s the grammar prescribes %s, the table reduces by rule %d" % (name, act_text(g, w), -v - 1))
            elif w != ("a",):
                err("on %s the grammar prescribes %s, the table accepts" % (name, act_text(g, w)))
        row = lal.goto[s]
        for name, c in nts:
            w = row.get(name)
            if w is None:
                continue
            cells += 1
            v = G(t, c)
            if v is None or v < 0:
                err("after reducing %s there is no goto" % name)
            else:
                pair(w, v, s, name)
        if good:
            chk.proved("state:%d" % s, "table state %d" % t)
    inv = {}
    for s, t in seen.items():
        if t in inv:
            chk.refuted("state:%d" % s, "parser tables", "table state %d plays two different LR states (after %s; after %s)" % (t, prefix(s), prefix(inv[t])))
        inv[t] = s
    chk.count("states", len(seen))
    chk.count("table_cells", cells)
    chk.count("lr_states_of_grammar", lal.n)
    chk.count("resolved_conflicts", len(lal.resolved))
    chk.count("unresolved_conflicts", len(lal.conflicts))
    chk.sample({"action": wa, "goto": wg, "states": len(seen), "cells": cells})


def act_text(g, w):
    if w is None:
        return "an error"
    if w[0] == "s":
        return "a shift"
    if w[0] == "a":
        return "accept"
    l, r, _ = g.rules[w[1]]
    return "reducing rule %d (%s: %s)" % (w[1], l, " ".join(r) or "/* empty */")
