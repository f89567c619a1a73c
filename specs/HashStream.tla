------------------------------- MODULE HashStream -------------------------------
(***************************************************************************)
(* Hash objects: what has been written decides everything.  An object is   *)
(* [kind, msg, squeezed, pos]: its fixed parameters, the bytes written     *)
(* since creation or Reset, and, for an extendable-output function that    *)
(* has been read from, how much has been read.  Digest, Squeeze, SizeOf    *)
(* and BlockOf are the hash functions (concrete in TraceStream, symbolic   *)
(* in MStream).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Digest(_, _),        \* kind, message
          Squeeze(_, _, _),    \* kind, message, n: the first n bytes of output
          SizeOf(_), BlockOf(_)

ObjNew(kind) == [kind |-> kind, msg |-> <<>>, squeezed |-> FALSE, pos |-> 0]

\* The object after an event.
ObjAfter(o, ev) ==
  CASE ev.op = "Write" -> [o EXCEPT !.msg = @ \o ev.p]
    [] ev.op = "Reset" -> [o EXCEPT !.msg = <<>>, !.squeezed = FALSE, !.pos = 0]
    [] ev.op = "Read" -> [o EXCEPT !.squeezed = TRUE, !.pos = @ + ev.n]
    [] OTHER -> o
\* What the event returns: bytes for Sum and Read, a number otherwise.
ObjReturns(o, ev) ==
  CASE ev.op = "Write" -> Len(ev.p)
    [] ev.op = "Sum" -> ev.p \o Digest(o.kind, o.msg)
    [] ev.op = "Read" -> SubSeq(Squeeze(o.kind, o.msg, o.pos + ev.n), o.pos + 1, o.pos + ev.n)
    [] ev.op = "Size" -> SizeOf(o.kind)
    [] ev.op = "BlockSize" -> BlockOf(o.kind)
    [] OTHER -> 0
\* Writing to an object that has been read from is an error of the caller.
ObjMay(o, ev) == ev.op = "Write" => ~o.squeezed
===============================================================================
