---------------------------- MODULE ResultFiles ----------------------------
(***************************************************************************)
(* A writer that holds a result table and writes files one after another.  *)
(* Every file holds the rows of the results, with the rounding and the     *)
(* separator asked for in its own call, whatever was written before.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxWrites, Bug

VARIABLES data,     \* the table of the writer: rows <<state, turbine, value>>, index columns in front
          result,   \* the table of the caller
          pars,     \* parameters kept by the file helper
          files,    \* what the files hold
          want      \* what they should hold

vars == <<data, result, pars, files, want>>

Rows == <<<<1, 1, 123>>, <<1, 2, 4>>, <<2, 1, 57>>, <<2, 2, 88>>>>
Paths == {"a", "b"}

Init == /\ data = [extra |-> 0, rows |-> Rows]
        /\ result = Rows
        /\ pars = [sep |-> ","]
        /\ files = [p \in {} |-> 0] /\ want = [p \in {} |-> 0]

Round(x, d) == IF d = 0 THEN x ELSE ((x + 5) \div 10) * 10
Text(rows, d) == [k \in DOMAIN rows |-> <<rows[k][1], rows[k][2], Round(rows[k][3], d)>>]
(* reading a grid back row by row *)
Grid(rows) == IF Bug = "order" THEN <<rows[1], rows[3], rows[2], rows[4]>> ELSE rows

Put(f, p, x) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN x ELSE f[q]]

Write(p, sep, d) ==
    LET use == IF sep # "" THEN sep ELSE IF Bug = "leak" THEN pars.sep ELSE ","
    IN  /\ files' = Put(files, p, [sep |-> use, extra |-> data.extra, rows |-> Text(Grid(data.rows), d)])
        /\ want' = Put(want, p, [sep |-> IF sep # "" THEN sep ELSE ",", extra |-> 0, rows |-> Text(Rows, d)])
        /\ pars' = IF Bug = "leak" /\ sep # "" THEN [pars EXCEPT !.sep = sep] ELSE pars
        /\ data' = IF Bug = "index" THEN [data EXCEPT !.extra = 1]
                   ELSE IF Bug = "round" THEN [data EXCEPT !.rows = Text(@, d)] ELSE data
        /\ result' = IF Bug = "round" THEN Text(result, d) ELSE result

Next == \E p \in Paths, sep \in {"", ";"}, d \in {0, 1} : Write(p, sep, d)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= MaxWrites

FilesHoldTheResults == files = want
ResultsStay == result = Rows
=============================================================================
