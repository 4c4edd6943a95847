----------------------------- MODULE ClientView -----------------------------
(***************************************************************************)
(* What a standard HTTP client makes of the bytes it receives: RFC 7230    *)
(* message framing, written independently of how the server produces it.   *)
(***************************************************************************)
EXTENDS HttpWire

cvContentLength == B("content-length")
cvTransfer == B("transfer-encoding")
cvConnection == B("connection")
cvChunked == B("chunked")
cvClose == B("close")
cvKeep == B("keep-alive")
cvHead == B("HEAD")
cv11 == B("HTTP/1.1")
cv100 == B("100 Continue")

StatusPart(line) == LET k == FindByte(line, SP) IN Drop(line, k + 1)
VersionPart(line) == LET k == FindByte(line, SP) IN Take(line, k)

HasToken(hs, lname, tok) == \E i \in 1..Len(hs) : Lower(hs[i][1]) = lname /\ SameText(hs[i][2], tok)

(* decode the answer to one request of method m at the start of x:         *)
(* interim = number of interim replies skipped; complete iff fully there;  *)
(* persist = the client may re-use the connection; closed = the server has *)
(* closed the connection after x                                           *)
RECURSIVE DecodeAnswer(_, _, _, _)
DecodeAnswer(x, m, closed, interim) ==
  LET d == DecodeHead(x) IN
  IF ~d.ok THEN [got |-> FALSE, interim |-> interim, rest |-> x]
  ELSE IF StatusPart(d.line) = cv100 THEN DecodeAnswer(d.rest, m, closed, interim + 1)
  ELSE LET cl == ValuesOf(d.hs, cvContentLength)
           chunked == HasToken(d.hs, cvTransfer, cvChunked)
           hasLen == cl # <<>>
           n == IF hasLen THEN DecValue(cl[1]) ELSE -1
           keep == IF VersionPart(d.line) = cv11 THEN ~HasToken(d.hs, cvConnection, cvClose)
                   ELSE HasToken(d.hs, cvConnection, cvKeep)
           base == [got |-> TRUE, interim |-> interim, line |-> d.line, hs |-> d.hs, keep |-> keep]
       IN IF m = cvHead THEN base @@ [body |-> <<>>, complete |-> TRUE, rest |-> d.rest, delimited |-> TRUE]
          ELSE IF chunked THEN
               LET c == DecodeChunks(d.rest, <<>>) IN
               base @@ [body |-> IF c.ok THEN c.d ELSE <<>>, complete |-> c.ok /\ c.end,
                        rest |-> IF c.ok THEN c.rest ELSE d.rest, delimited |-> TRUE]
          ELSE IF hasLen THEN
               LET k == IF Size(d.rest) < n THEN Size(d.rest) ELSE n IN
               base @@ [body |-> Take(d.rest, k), complete |-> k = n, rest |-> Drop(d.rest, k), delimited |-> TRUE]
          ELSE base @@ [body |-> d.rest, complete |-> closed, rest |-> <<>>, delimited |-> FALSE]

RECURSIVE DecodeAnswers(_, _, _)
DecodeAnswers(x, methods, closed) ==
  IF methods = <<>> THEN <<>>
  ELSE LET a == DecodeAnswer(x, methods[1], closed, 0) IN
       <<a>> \o (IF a.got /\ a.complete THEN DecodeAnswers(a.rest, Tail(methods), closed) ELSE <<>>)

(* rendering of expected items, used by the models *)
RECURSIVE Hex(_)
HexDigit(k) == IF k < 10 THEN 48 + k ELSE 87 + k
Hex(n) == IF n < 16 THEN <<Run(HexDigit(n), 1)>> ELSE Put(Hex(n \div 16), HexDigit(n % 16), 1)
ColonSpace == B(": ")
RenderHead(line, hs) ==
  CatAll(<<line, CRLF>> \o FoldLeft(LAMBDA a, h : a \o <<h[1], ColonSpace, h[2], CRLF>>, <<>>, hs) \o <<CRLF>>)
RenderItem(it) ==
  CASE it.t = "lit" -> it.d
    [] it.t = "head" -> RenderHead(it.line, it.hs)
    [] it.t = "chunk" -> LET body == IF it.d = <<>> THEN <<>> ELSE CatAll(<<Hex(Size(it.d)), CRLF, it.d, CRLF>>)
                         IN IF it.end THEN Cat(body, CatAll(<<B("0"), CRLF, CRLF>>)) ELSE body
Render(items) == CatAll([i \in 1..Len(items) |-> RenderItem(items[i])])
=============================================================================
