------------------------------- MODULE Runner --------------------------------
(* One run of the command-line runner: read the configuration, choose the    *)
(* model, load the data, fit, write the result, plot.                        *)
EXTENDS Integers, Sequences, FiniteSets
Models == {"dlga", "dscv_spr"}
(* c: cfg in {"ok", "absent", "garbled", "list"}; model; ds, file: what the  *)
(* configuration names ("none" when it does not); fit, plot: what happens    *)
(* an array file stands on the intervals its domain names, an axis it does    *)
(* not name on the unit interval                                             *)
FileGood == {"mat", "mat_t", "mat_square", "npy", "npy_x", "npy_t", "npy_unit"}
FileBad == {"absent", "badtype", "noshape", "nokey"}
Data(c) == IF c.file \in FileGood THEN c.file ELSE IF c.file # "none" THEN "refused" ELSE IF c.ds \in {"burgers", "kdv"} THEN c.ds ELSE "refused"
Readable(c) == c.cfg = "ok"
Fits(c) == Readable(c) /\ c.model \in Models /\ Data(c) # "refused"
Succeeds(c) == Fits(c) /\ c.fit = "equation"
Named(c) == IF c.file # "none" THEN c.file ELSE c.ds
=============================================================================
