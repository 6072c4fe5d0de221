------------------------------ MODULE Notation ------------------------------
(* What is written in doc!{...}: a term of the notation, the text that spells it in a program, and the document it stands for.
   An expression of the host program stands for the document its value converts to, whatever form the expression has. *)
EXTENDS Printer, TLC
\* terms; id tells apart the variables of the host program
Leaf(k) == [k |-> k]
Literal(s) == [k |-> "lit", s |-> s]
Value(s, how, id) == [k |-> "value", s |-> s, how |-> how, id |-> id]      \* a text held by an expression of the host program
Several(ts, style) == [k |-> "several", ts |-> ts, style |-> style]
Enclosed(t) == [k |-> "grouped", t |-> t]
Nested(t) == [k |-> "indented", t |-> t]
Joined(ts, sep, how, id) == [k |-> "joined", ts |-> ts, sep |-> sep, how |-> how, id |-> id]
Held(t, how, id) == [k |-> "held", t |-> t, how |-> how, id |-> id]        \* a document held by an expression of the host program

\* forms a value of a derived type puts around what it holds
Framed(d) == Group(Cat(<<TextOf(<<"<">>), Indent(Cat(<<SoftLine, d>>)), SoftLine, TextOf(<<"z">>)>>))
Sides(d) == Cat(<<d, Line, TextOf(<<"i">>)>>)
Bracketed(d) == Cat(<<TextOf(<<"(">>), d, TextOf(<<")">>)>>)

RECURSIVE Meaning(_), Between(_, _, _)
Between(ds, sep, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<ds[1]>> ELSE Between(ds, sep, n - 1) \o <<sep, ds[n]>>
Meaning(t) ==
  CASE t.k = "nil" -> Nil
    [] t.k = "line" -> Line
    [] t.k = "soft_line" -> SoftLine
    [] t.k = "soft_line_space" -> SoftLineSpace
    [] t.k = "hard_line" -> HardLine
    [] t.k = "lit" -> TextOf(t.s)
    [] t.k = "value" -> CASE t.how = "none" -> Nil
                          [] t.how = "empty" -> Cat(<<>>)
                          [] t.how = "parts" -> Cat([i \in 1..Len(t.s) |-> TextOf(<<t.s[i]>>)])
                          [] OTHER -> TextOf(t.s)
    [] t.k = "several" -> Cat([i \in 1..Len(t.ts) |-> Meaning(t.ts[i])])
    [] t.k = "grouped" -> Group(Meaning(t.t))
    [] t.k = "indented" -> Indent(Meaning(t.t))
    [] t.k = "joined" -> Cat(Between([i \in 1..Len(t.ts) |-> Meaning(t.ts[i])], Meaning(t.sep), Len(t.ts)))
    [] t.k = "held" -> CASE t.how \in {"group", "groupref"} -> Group(Meaning(t.t))
                         [] t.how = "indent" -> Indent(Meaning(t.t))
                         [] t.how = "twice" -> Cat(<<Meaning(t.t), Meaning(t.t)>>)
                         [] t.how \in {"pair", "unit", "quiet", "quietnamed", "plain"} -> Nil
                         [] t.how = "framed" -> Framed(Meaning(t.t))
                         [] t.how = "sides" -> Sides(Meaning(t.t))
                         [] t.how \in {"bracketed", "bracketednamed"} -> Bracketed(Meaning(t.t))
                         [] t.how = "fixed" -> TextOf(<<"i">>)
                         [] OTHER -> Meaning(t.t)

\* how a term is spelled. A bare list needs no brackets where a whole argument is expected.
RECURSIVE Word(_), Spell(_, _), Before(_), List(_, _), BeforeAll(_, _), Chars(_)
Word(s) == IF s = <<>> THEN "" ELSE Head(s) \o Word(Tail(s))
Quoted(s) == "\"" \o Word(s) \o "\""
Name(t) == "x" \o ToString(t.id)
Chars(s) == IF s = <<>> THEN "" ELSE Quoted(<<Head(s)>>) \o ", " \o Chars(Tail(s))
List(ts, n) == IF n = 0 THEN "" ELSE List(ts, n - 1) \o (IF n = 1 THEN "" ELSE ", ") \o Spell(ts[n], FALSE)
Docs(ts, n) == LET RECURSIVE L(_)
                   L(i) == IF i = 0 THEN "" ELSE L(i - 1) \o (IF i = 1 THEN "" ELSE ", ") \o "doc!(" \o Spell(ts[i], TRUE) \o ")" IN L(n)
Doc(t) == "doc!(" \o Spell(t, TRUE) \o ")"
SpellValue(t) ==
  LET q == Quoted(t.s)  x == Name(t) IN
  CASE t.how = "call" -> "w(" \o q \o ")"
    [] t.how = "nil" -> "nils(" \o q \o ")"
    [] t.how = "line" -> "line_of(" \o q \o ")"
    [] t.how = "soft" -> "soft_lines(" \o q \o ")"
    [] t.how = "hard" -> "hard(" \o q \o ")"
    [] t.how = "own" -> "w(" \o q \o ").to_string()"
    [] t.how = "format" -> "format!(\"{}\", " \o q \o ")"
    [] t.how = "slice" -> "&" \o x \o "[..]"
    [] t.how = "deref" -> "&*" \o x
    [] t.how = "plus" -> "w(" \o Quoted(<<Head(t.s)>>) \o ").to_string() + " \o Quoted(Tail(t.s))
    [] t.how = "cast" -> "w(" \o q \o ") as &str"
    [] t.how = "if" -> "if yes() { " \o q \o " } else { \"no\" }"
    [] t.how = "match" -> "match yes() { true => " \o q \o ", false => \"no\" }"
    [] t.how = "block" -> "{ let y = " \o q \o "; y }"
    [] t.how = "closure" -> "(|| " \o q \o ")()"
    [] t.how = "field" -> x \o ".0.as_str()"
    [] t.how = "name" -> x
    [] OTHER -> "&" \o x
SpellHeld(t) ==
  LET d == Doc(t.t)  x == Name(t) IN
  CASE t.how = "macro" -> d
    [] t.how = "groups" -> "groups(" \o d \o ")"
    [] t.how = "indents" -> "indented(" \o d \o ")"
    [] t.how = "joins" -> "joined(" \o d \o ", 1)"
    [] t.how = "group" -> "Document::group(" \o d \o ")"
    [] t.how = "groupref" -> "&" \o x
    [] t.how = "indent" -> "oak_pretty_print::indent(" \o d \o ")"
    [] t.how = "if" -> "if yes() { " \o d \o " } else { doc!(line) }"
    [] t.how = "match" -> "match yes() { false => doc!(\"no\"), _ => " \o d \o " }"
    [] t.how = "block" -> "{ let y = " \o d \o "; y }"
    [] t.how = "move" -> x
    [] OTHER -> "&" \o x
Spell(t, whole) ==
  CASE t.k \in {"nil", "line", "soft_line", "soft_line_space", "hard_line"} -> t.k
    [] t.k = "lit" -> Quoted(t.s)
    [] t.k = "value" -> SpellValue(t)
    [] t.k = "several" ->
         LET body == List(t.ts, Len(t.ts)) IN
         IF t.style = "bare" /\ whole /\ t.ts # <<>> THEN (IF Len(t.ts) = 1 THEN body \o "," ELSE body)
         ELSE IF t.style = "trailing" /\ t.ts # <<>> THEN "[" \o body \o ",]" ELSE "[" \o body \o "]"
    [] t.k = "grouped" -> "group(" \o Spell(t.t, TRUE) \o ")"
    [] t.k = "indented" -> "indent(" \o Spell(t.t, TRUE) \o ")"
    [] t.k = "joined" -> "join(" \o (CASE t.how = "vec" -> "vec![" \o Docs(t.ts, Len(t.ts)) \o "]"
                                       [] t.how = "array" -> "[" \o Docs(t.ts, Len(t.ts)) \o "]"
                                       [] t.how = "ref" -> "&" \o Name(t)
                                       [] t.how = "iter" -> Name(t) \o ".iter().take(" \o ToString(Len(t.ts)) \o ")"
                                       [] t.how = "map" -> Name(t) \o ".iter().map(|d| doc!([nil, d]))"
                                       [] t.how = "if" -> "if yes() { " \o Name(t) \o ".clone() } else { vec![] }")
                                \o ", " \o Spell(t.sep, TRUE) \o ")"
    [] t.k = "held" -> SpellHeld(t)
\* the variables the spelling uses
Own(t) ==
  LET let == "let " \o Name(t) \o " = " IN
  IF t.k = "value" THEN
     LET q == Quoted(t.s) IN
     CASE t.how \in {"slice", "deref", "string"} -> let \o "String::from(" \o q \o "); "
       [] t.how = "option" -> let \o "Some(" \o q \o "); "
       [] t.how = "boxed" -> let \o "Box::<str>::from(" \o q \o "); "
       [] t.how = "list" -> let \o "vec![" \o q \o "]; "
       [] t.how = "deep" -> let \o "Some(Box::new(vec![String::from(" \o q \o ")])); "
       [] t.how = "field" -> let \o "(String::from(" \o q \o "),); "
       [] t.how = "name" -> let \o q \o "; "
       [] t.how = "none" -> let \o "None::<String>; "
       [] t.how = "empty" -> let \o "Vec::<String>::new(); "
       [] t.how = "parts" -> let \o "vec![" \o Chars(t.s) \o "]; "
       [] OTHER -> ""
  ELSE IF t.k = "joined" THEN (IF t.how \in {"vec", "array"} THEN "" ELSE let \o "Vec::<Document>::from([" \o Docs(t.ts, Len(t.ts)) \o "]); ")
  ELSE LET d == Doc(t.t) IN
     CASE t.how \in {"move", "ref"} -> let \o d \o "; "
       [] t.how = "twice" -> let \o "vec![" \o d \o "; 2]; "
       [] t.how = "groupref" -> let \o "Document::group(" \o d \o "); "
       [] t.how = "some" -> let \o "Some(" \o d \o "); "
       [] t.how = "box" -> let \o "Box::new(" \o d \o "); "
       [] t.how = "newtype" -> let \o "Newtype(" \o d \o "); "
       [] t.how = "named" -> let \o "Named { it: " \o d \o " }; "
       [] t.how = "generic" -> let \o "Generic(Some(" \o d \o ")); "
       [] t.how = "where" -> let \o "Where { it: " \o d \o " }; "
       [] t.how = "pair" -> let \o "Pair(" \o d \o ", 1); "
       [] t.how = "unit" -> let \o "Unit; "
       [] t.how = "framed" -> let \o "Frame { it: " \o d \o ", left: \"<\", right: 'z' }; "
       [] t.how = "sides" -> let \o "Sides(" \o d \o ", \"i\".into()); "
       [] t.how = "tuple" -> let \o "Shape::Tuple(" \o d \o "); "
       [] t.how = "variant" -> let \o "Shape::Variant { it: " \o d \o " }; "
       [] t.how = "quiet" -> let \o "Shape::Quiet(" \o d \o ", 1); "
       [] t.how = "quietnamed" -> let \o "Shape::QuietNamed { it: " \o d \o ", n: 1 }; "
       [] t.how = "plain" -> let \o "Shape::Plain; "
       [] t.how = "bracketed" -> let \o "Shape::Bracketed(" \o d \o "); "
       [] t.how = "bracketednamed" -> let \o "Shape::BracketedNamed { it: " \o d \o " }; "
       [] t.how = "fixed" -> let \o "Shape::Fixed(1, " \o d \o "); "
       [] t.how = "whole" -> let \o "Shape::Within(Box::new(Shape::Tuple(" \o d \o "))); "
       [] OTHER -> ""
BeforeAll(ts, n) == IF n = 0 THEN "" ELSE BeforeAll(ts, n - 1) \o Before(ts[n])
Before(t) ==
  CASE t.k = "value" -> Own(t)
    [] t.k = "several" -> BeforeAll(t.ts, Len(t.ts))
    [] t.k \in {"grouped", "indented"} -> Before(t.t)
    [] t.k = "joined" -> BeforeAll(t.ts, Len(t.ts)) \o Before(t.sep) \o Own(t)
    [] t.k = "held" -> Before(t.t) \o Own(t)
    [] OTHER -> ""
=============================================================================
