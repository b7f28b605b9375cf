------------------------------- MODULE SynAbs -------------------------------
(***************************************************************************)
(* C23, C24: what the code generated from a grammar does.                  *)
(*                                                                         *)
(* A grammar is [trivia, tokens, nodes, chars]; text and names are         *)
(* sequences of code points.                                               *)
(*  tokens: [text, special, desc, doc], special ones being described, all  *)
(*    maybe documented (options are sequences of length at most one);      *)
(*  nodes: [name, alt, members, fields]: alt is "no", "nodes" or "tokens"; *)
(*    members are nodes or tokens by number; fields are [label, tok, el,   *)
(*    mod], an element being token el or node el, and mod "one", "opt" or  *)
(*    "rep";                                                               *)
(*  chars: [c, n], the names of punctuation characters.                    *)
(* A tree is [tok, k, ch]: a token or a node, its kind and its children.   *)
(***************************************************************************)
EXTENDS CaseAbs

Letter(c) == IsUpper(c) \/ IsLower(c)
CharName(g, c) == (CHOOSE x \in ToSet(g.chars) : x.c = c).n
Class(t) == IF t.special THEN "special" ELSE IF \E k \in 1..Len(t.text) : Letter(t.text[k]) THEN "keyword" ELSE "punctuation"
KindName(g, t) == CASE Class(t) = "special" -> t.text
                    [] Class(t) = "keyword" -> SnakeToPascal(t.text) \o <<75, 119>>
                    [] OTHER -> Flat([k \in 1..Len(t.text) |-> CharName(g, t.text[k])])
Quoted(t) == <<96>> \o t \o <<96>>

\* [n, triv, desc, doc]
TriviaKinds(g) == {[n |-> x, triv |-> TRUE, desc |-> <<>>, doc |-> <<>>] : x \in ToSet(g.trivia)}
TokenKinds(g) == {[n |-> KindName(g, t), triv |-> FALSE, desc |-> IF t.special THEN t.desc ELSE <<Quoted(t.text)>>, doc |-> t.doc]
                    : t \in ToSet(g.tokens)}
NodeKinds(g) == {[n |-> x.name, triv |-> FALSE, desc |-> <<>>, doc |-> <<>>] : x \in {y \in ToSet(g.nodes) : y.alt = "no"}}
Kinds(g) == TriviaKinds(g) \cup TokenKinds(g) \cup NodeKinds(g)
Shown(k) == IF k.desc = <<>> THEN k.n ELSE k.desc[1]
OfClass(g, c) == {<<t.text, KindName(g, t)>> : t \in {x \in ToSet(g.tokens) : Class(x) = c}}

----------------------------------------------------------------------------
(* C23 *)
ElName(g, f) == IF f.tok THEN KindName(g, g.tokens[f.el]) ELSE g.nodes[f.el].name
FieldName(g, f) == IF f.label # <<>> THEN f.label[1]
                   ELSE PascalToSnake(ElName(g, f)) \o (IF f.mod = "rep" THEN <<115>> ELSE <<>>)
\* the kinds that a node or a token of the given type may have
NodeTypeKinds(g, n) == IF n.alt = "nodes" THEN {g.nodes[m].name : m \in ToSet(n.members)} ELSE {n.name}
TokenTypeKinds(g, n) == {KindName(g, g.tokens[m]) : m \in ToSet(n.members)}
IsEl(g, f, x) == IF f.tok THEN x.tok /\ x.k = KindName(g, g.tokens[f.el])
                 ELSE LET n == g.nodes[f.el]
                      IN  IF n.alt = "tokens" THEN x.tok /\ x.k \in TokenTypeKinds(g, n)
                          ELSE ~x.tok /\ x.k \in NodeTypeKinds(g, n)
\* what the k-th field of a node gives: the positions (from 1) of the children
Same(f, h) == f.tok = h.tok /\ f.el = h.el
Access(g, n, k, ch) ==
  LET f == n.fields[k]
      all == SelectSeq([i \in 1..Len(ch) |-> i], LAMBDA i : IsEl(g, f, ch[i]))
      nth == Cardinality({j \in 1..(k - 1) : Same(n.fields[j], f)}) + 1
  IN  IF f.mod = "rep" THEN all ELSE IF nth <= Len(all) THEN <<all[nth]>> ELSE <<>>
=============================================================================
