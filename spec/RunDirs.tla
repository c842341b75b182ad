------------------------------- MODULE RunDirs --------------------------------
(* What a benchmark run leaves behind.  A directory is [name, marks, status, ...]; marks are
   the runs whose results appear in its files.                                             *)
EXTENDS Integers, Sequences, FiniteSets

\* exactly one directory carries run k's results, and only those
OwnDir(dirs, k) == {d \in dirs : k \in d.marks}
Alone(dirs, k) == \A d \in OwnDir(dirs, k) : d.marks = {k}
Exactly1(dirs, k) == Cardinality(OwnDir(dirs, k)) = 1

\* nothing that was there before is changed by later runs
Kept(before, after) == \A d \in before : d \in after
=============================================================================
