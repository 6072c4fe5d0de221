------------------------------- MODULE MCRules -------------------------------
(* Rules for the formatter as they are spelled in define_rules!{...}. *)
EXTENDS MCFormatter
ForNodes(r) == r.on \in {"container", "statement", "plain"}
Body(r, inner) == CASE r.does = "pass" -> "Ok(None)" [] r.does = "hide" -> "Ok(Some(doc!(nil)))" [] r.does = "mark" -> "Ok(Some(doc!(\"<\", " \o inner \o ", \"z\")))"
NodePart(r, i) == IF ~ForNodes(r) THEN (IF i % 2 = 0 THEN "" ELSE "node(n, _c, _s, _k) if !yes() => Ok(Some(doc!(\"no\"))), ")
                  ELSE "node(n, _c, _s, inner) if node_role(n) == \"" \o r.on \o "\" => " \o (IF i % 3 = 0 THEN "{ " \o Body(r, "inner(n)?") \o " }" ELSE Body(r, "inner(n)?")) \o ", "
Whether(r) == CASE r.on = "comma" -> "text(t, s) == \",\"" [] r.on = "punct" -> "text(t, s) != \",\"" [] r.on = "other" -> "true"
TokenPart(r, i) == IF ForNodes(r) THEN (IF i % 2 = 0 THEN "token(t, _c, _s) if !yes() => Ok(Some(doc!(\"no\"))), " ELSE "")
                   ELSE "token(t, _c, s) if token_role(t) == \"" \o (IF r.on = "other" THEN "other" ELSE "punct") \o "\" => if " \o Whether(r) \o " { " \o Body(r, "text(t, s)") \o " } else { Ok(None) }, "
Priority(r, i) == "priority: " \o (IF i % 2 = 0 THEN ToString(r.prio) ELSE "1 + " \o ToString(r.prio - 1)) \o ", "
SpellRule(r, i) == "r" \o ToString(i) \o " { " \o (CASE i % 3 = 0 -> Priority(r, i) \o NodePart(r, i) \o TokenPart(r, i)
                                                  [] i % 3 = 1 -> TokenPart(r, i) \o NodePart(r, i) \o Priority(r, i)
                                                  [] OTHER -> NodePart(r, i) \o Priority(r, i) \o TokenPart(r, i)) \o "} "
RECURSIVE SpellRules(_)
SpellRules(k) == IF k = 0 THEN "" ELSE SpellRules(k - 1) \o SpellRule(added[k].rule, k)
Peaceful == \A i \in 1..Len(added) : ~added[i].rule.hates /\ added[i].rule.prio > 0
EmitRules == (Done /\ added # <<>>) => PrintT("@" \o ToJson([tree |-> Whole, rules |-> added, spelled |-> SpellRules(Len(added)), cfg |-> cfg, out |-> out, changed |-> out # Source(Whole)]))
=============================================================================
