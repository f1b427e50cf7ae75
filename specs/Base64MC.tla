----------------------------- MODULE Base64MC -----------------------------
EXTENDS Base64, TLC, Json
CONSTANTS ByteSet, MaxBytes, CharSet, MaxText
VARIABLES s, t, c
vars == <<s, t, c>>
Dec == [url : BOOLEAN, pad : {"allow", "reject", "require"}, ws : BOOLEAN]
Enc == [url : BOOLEAN, pad : BOOLEAN, line : {0, 1, 3, 4, 5}]
Init == s \in UNION {[1..n -> ByteSet] : n \in 0..MaxBytes} /\ t = <<>> /\ c \in Enc
Spec == Init /\ [][UNCHANGED vars]_vars
\* What was encoded is recovered, when decoding permits the padding and the lines
RoundTrip == \A d \in Dec : LET x == Encode(s, c) r == Decode(x, d) IN
    (/\ d.url = c.url /\ (c.line = 0 \/ d.ws)
     /\ (CASE d.pad = "allow" -> TRUE [] d.pad = "reject" -> ~c.pad \/ Pads(s) = 0 [] OTHER -> c.pad \/ Pads(s) = 0))
    => (r.ok /\ r.out = s)
SizeRight == Len(Encode(s, c)) = EncodeSize(Len(s), c)
\* Nothing is accepted that no encoding gives, white space apart
TInit == s = <<>> /\ t \in UNION {[1..n -> CharSet] : n \in 0..MaxText} /\ c \in Dec
TSpec == TInit /\ [][UNCHANGED vars]_vars
Canonical == LET r == Decode(t, c) IN
    r.ok => (Strip(t, c) = Text(r.out, c.url, TRUE) \/ Strip(t, c) = Text(r.out, c.url, FALSE)) /\ Len(r.out) <= Len(t) - ((Len(t) + 3) \div 4)
EmitInv == PrintT("SCRIPT " \o ToJson([t |-> t, c |-> c]))
=============================================================================
