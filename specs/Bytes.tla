--------------------------------- MODULE Bytes ---------------------------------
(* How trace records write byte strings: hexadecimal, or "nil".               *)
EXTENDS Num

B(h) == IF h = "nil" THEN <<>> ELSE HexBytes(h)
IsNil(h) == h = "nil"
\* No result: nil or an empty slice.
NoOut(h) == h = "nil" \/ h = ""
\* An optional result: <<>> for none, <<bytes>> for bytes.
Is(h, opt) == IF opt = <<>> THEN NoOut(h) ELSE h = ToHex(opt[1])
===============================================================================
