------------------------------ MODULE Timestamp ------------------------------
(* Recovery of timestamps of which only the lowest bits are known.  The true
   time and the reading of the second clock (milliseconds, both counted from the
   first timestamp) are known to the specification; the code sees the true time
   modulo M and the second clock.  As long as the second clock is less than half
   a period off, the recovered times are the true ones, up to the multiple of the
   period that was lost with the first timestamp.
   Arithmetic is passed in: integers of TLC in the design model, numbers of any
   size when traces are validated.                                            *)
EXTENDS Integers, Sequences

VARIABLES started, lost
vars == <<started, lost>>
=============================================================================
