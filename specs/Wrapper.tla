------------------------------ MODULE Wrapper ------------------------------
(* An estimator wrapped around a backend that does the actual fitting.  Its  *)
(* whole observable state is the last fit that succeeded (0: none yet).      *)
EXTENDS Integers, Sequences
Plans == {"ok", "rows", "ndim", "build", "fit"}
Refused(p) == p \in {"rows", "ndim"}       \* inconsistent input: the backend is never contacted
After(last, k, p) == IF p = "ok" THEN k ELSE last
(* what the backend offers decides which text is reported                    *)
LatexOf(b, lhs) == IF b.latex = "text" THEN b.ltext
                   ELSE IF b.sympy = "text" THEN lhs \o " = " \o b.stext
                   ELSE IF b.best \in {"dict", "row"} THEN b.btext
                   ELSE b.name
BestOf(b) == IF b.best \in {"dict", "row"} THEN b.btext ELSE b.name
=============================================================================
