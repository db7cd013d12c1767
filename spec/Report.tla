------------------------------- MODULE Report -------------------------------
(* How trace-validation modules report: one line per rejected / finished case *)
EXTENDS TLC, Integers, Sequences
Reject(id, why) == PrintT("REJECT|" \o ToString(id) \o "|" \o why)
Done(id) == PrintT("DONE|" \o ToString(id))
=============================================================================
