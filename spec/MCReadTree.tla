----------------------------- MODULE MCReadTree -----------------------------
(* Every template within the bounds of Template: what it renders to is read *)
(* back as the elements, attributes and text it is made of.                 *)
EXTENDS Template, Reading
Reads == phase \in {"compile", "built"} /\ pc = 0 /\ todo = <<>> =>
  Read(TextOf(RenAll(ast[1]))) = DocAll(ast[1])
=============================================================================
