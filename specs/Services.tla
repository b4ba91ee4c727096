------------------------------ MODULE Services ------------------------------
(* The linear services of a solver object as a state machine over factor handles.      *)
(* h : sequence of matrix ids, h[i] = matrix factored by handle i.                     *)
(* A solve answers for exactly one matrix: the one handed over (or factored by the     *)
(* handle), whatever happened before.                                                  *)
EXTENDS Integers, Sequences
Factor(h, m) == Append(h, m)
Answers(h, op) == IF op.kind = "solve" THEN op.m ELSE h[op.hd]
=============================================================================
