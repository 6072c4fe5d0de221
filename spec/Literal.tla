------------------------------- MODULE Literal -------------------------------
(* What is written in json!{...}: a value, the text that spells it in a program. A number is given by its double. *)
EXTENDS Integers, Sequences, TLC
Null == [k |-> "null"]
Truth(b) == [k |-> "bool", b |-> b]
Number(n, how) == [k |-> "num", n |-> n, how |-> how]
Text(s, how) == [k |-> "text", s |-> s, how |-> how]
Array(vs, how) == [k |-> "array", vs |-> vs, how |-> how]
Object(keys, vs, how) == [k |-> "object", keys |-> keys, vs |-> vs, how |-> how]
Held(v, how) == [k |-> "held", v |-> v, how |-> how]

RECURSIVE Meaning(_)
Meaning(v) ==
  CASE v.k = "null" -> [k |-> "null"]
    [] v.k = "bool" -> [k |-> "bool", b |-> v.b]
    [] v.k = "num" -> [k |-> "num", n |-> v.n]
    [] v.k = "text" -> [k |-> "text", s |-> v.s]
    [] v.k = "array" -> [k |-> "array", vs |-> [i \in 1..Len(v.vs) |-> Meaning(v.vs[i])]]
    [] v.k = "object" -> [k |-> "object", keys |-> v.keys, vs |-> [i \in 1..Len(v.vs) |-> Meaning(v.vs[i])]]
    [] v.k = "held" -> IF v.how = "list" THEN [k |-> "array", vs |-> <<Meaning(v.v)>>] ELSE Meaning(v.v)

Quoted(s) == "\"" \o s \o "\""
Digits(n) == IF n < 0 THEN "-" \o ToString(0 - n) ELSE ToString(n)
Decimal(n) == (IF n < 0 THEN "-" ELSE "") \o LET m == IF n < 0 THEN 0 - n ELSE n IN ToString(m \div 2) \o (IF m % 2 = 0 THEN ".0" ELSE ".5")
RECURSIVE Spell(_), Items(_, _), Fields(_, _, _, _)
Items(vs, n) == IF n = 0 THEN "" ELSE Items(vs, n - 1) \o (IF n = 1 THEN "" ELSE ", ") \o Spell(vs[n])
Fields(keys, vs, how, n) == IF n = 0 THEN "" ELSE Fields(keys, vs, how, n - 1) \o (IF n = 1 THEN "" ELSE ", ")
                              \o (IF how = "names" THEN keys[n] ELSE Quoted(keys[n])) \o ": " \o Spell(vs[n])
Spell(v) ==
  CASE v.k = "null" -> "null"
    [] v.k = "bool" -> IF v.b THEN "true" ELSE "false"
    [] v.k = "num" -> (CASE v.how = "plain" -> Decimal(v.n)
                        [] v.how = "whole" -> Digits(v.n \div 2)
                        [] v.how = "typed" -> Digits(v.n \div 2) \o "i64"
                        [] v.how = "small" -> Decimal(v.n) \o "f32"
                        [] v.how = "sum" -> "one() * " \o Decimal(v.n) \o " + 0.0"
                        [] v.how = "cast" -> "one() as i32 * " \o Digits(v.n \div 2)
                        [] v.how = "named" -> "nulls(" \o Decimal(v.n) \o ")"
                        [] v.how = "some" -> "Some(" \o Decimal(v.n) \o ")")
    [] v.k = "text" -> (CASE v.how = "plain" -> Quoted(v.s)
                         [] v.how = "named" -> "trues(" \o Quoted(v.s) \o ")"
                         [] v.how = "own" -> "String::from(" \o Quoted(v.s) \o ")"
                         [] v.how = "format" -> "format!(\"{}\", " \o Quoted(v.s) \o ")"
                         [] v.how = "ref" -> "&String::from(" \o Quoted(v.s) \o ")[..]"
                         [] v.how = "if" -> "if yes() { " \o Quoted(v.s) \o " } else { \"no\" }")
    [] v.k = "array" -> "[" \o Items(v.vs, Len(v.vs)) \o (IF v.how = "trailing" /\ v.vs # <<>> THEN ",]" ELSE "]")
    [] v.k = "object" -> "{" \o Fields(v.keys, v.vs, v.how, Len(v.vs)) \o (IF v.how = "trailing" /\ v.vs # <<>> THEN ",}" ELSE "}")
    [] v.k = "held" -> LET d == "json!(" \o Spell(v.v) \o ")" IN
                       CASE v.how = "macro" -> d
                         [] v.how = "list" -> "vec![" \o d \o "]"
                         [] v.how = "some" -> "Some(" \o d \o ")"
                         [] v.how = "match" -> "match yes() { true => " \o d \o ", _ => json!(null) }"
                         [] v.how = "block" -> "same(" \o d \o ")"
=============================================================================
