------------------------------ MODULE HttpWire ------------------------------
(***************************************************************************)
(* What appears on the wire, compared semantically: a list of expected     *)
(* items against the bytes actually produced.                              *)
(*   [t |-> "lit",   d]            exactly these bytes                     *)
(*   [t |-> "head",  line, hs]     a message head: first line exact, the   *)
(*                                 headers compared per name (any letter   *)
(*                                 case, any interleaving of names)        *)
(*   [t |-> "chunk", d, end]       chunked coding of d, closed iff end     *)
(***************************************************************************)
EXTENDS Bytes

StatusTable == (100 :> B("100 Continue")) @@ (101 :> B("101 Switching Protocols"))
 @@ (200 :> B("200 OK")) @@ (201 :> B("201 Created")) @@ (202 :> B("202 Accepted"))
 @@ (203 :> B("203 Non-Authoritative Information")) @@ (204 :> B("204 No Content"))
 @@ (205 :> B("205 Reset Content")) @@ (206 :> B("206 Partial Content"))
 @@ (300 :> B("300 Multiple Choices")) @@ (301 :> B("301 Moved Permanently")) @@ (302 :> B("302 Found"))
 @@ (303 :> B("303 See Other")) @@ (304 :> B("304 Not Modified")) @@ (305 :> B("305 Use Proxy"))
 @@ (307 :> B("307 Temporary Redirect"))
 @@ (400 :> B("400 Bad Request")) @@ (401 :> B("401 Unauthorized")) @@ (403 :> B("403 Forbidden"))
 @@ (404 :> B("404 Not Found")) @@ (405 :> B("405 Method Not Allowed")) @@ (406 :> B("406 Not Acceptable"))
 @@ (407 :> B("407 Proxy Authentication Required")) @@ (408 :> B("408 Request Timeout")) @@ (409 :> B("409 Conflict"))
 @@ (410 :> B("410 Gone")) @@ (411 :> B("411 Length Required")) @@ (412 :> B("412 Precondition Failed"))
 @@ (413 :> B("413 Request Entity Too Large")) @@ (414 :> B("414 Request-URI Too Long"))
 @@ (415 :> B("415 Unsupported Media Type")) @@ (416 :> B("416 Requested Range Not Satisfiable"))
 @@ (417 :> B("417 Expectation Failed"))
 @@ (500 :> B("500 Internal Server Error")) @@ (501 :> B("501 Not Implemented")) @@ (502 :> B("502 Bad Gateway"))
 @@ (503 :> B("503 Service Unavailable")) @@ (504 :> B("504 Gateway Timeout")) @@ (505 :> B("505 HTTP Version Not Supported"))

StatusText(c) == IF c \in DOMAIN StatusTable THEN StatusTable[c] ELSE StatusTable[500]

(* ---------------------------------------------------------------------- *)
(* Decoding. *)
LF1 == Run(LF, 1)
CRLFCRLF == CRLF \o CRLF

(* lines of a head, without their CRLF *)
Lines(x) ==
  LET ls == SplitByte(x, CR) IN
  [i \in 1..Len(ls) |-> IF i = 1 THEN ls[i]
                        ELSE IF ls[i] # <<>> /\ ls[i][1] = LF1 THEN Tail(ls[i]) ELSE <<Run(0,1)>> \o ls[i]]

StripSpaces(x) == IF x # <<>> /\ RunByte(x[1]) = SP THEN Tail(x) ELSE x

HeaderOf(line) == LET k == FindByte(line, 58) IN
  IF k < 0 THEN <<line, <<Run(0,1)>>>> ELSE <<Take(line, k), StripSpaces(Drop(line, k+1))>>

(* decode a head at the start of x: [ok, line, hs, rest] *)
DecodeHead(x) ==
  LET e == FindText(x, CRLFCRLF) IN
  IF e < 0 THEN [ok |-> FALSE]
  ELSE LET ls == Lines(Take(x, e)) IN
       [ok |-> TRUE, line |-> ls[1], hs |-> [i \in 1..(Len(ls)-1) |-> HeaderOf(ls[i+1])], rest |-> Drop(x, e + 4)]

ValuesOf(hs, lname) == LET sel == SelectSeq(hs, LAMBDA h : Lower(h[1]) = lname) IN [i \in 1..Len(sel) |-> sel[i][2]]
SameHeaders(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A n \in {Lower(a[i][1]) : i \in 1..Len(a)} \cup {Lower(b[i][1]) : i \in 1..Len(b)} :
        ValuesOf(a, n) = ValuesOf(b, n)

(* decode a chunked body: [ok, d, end, rest]; ends at the zero chunk or at *)
(* the end of the available bytes (which must then be a chunk boundary)    *)
RECURSIVE DecodeChunks(_, _)
DecodeChunks(x, d) ==
  IF x = <<>> THEN [ok |-> TRUE, d |-> d, end |-> FALSE, rest |-> <<>>]
  ELSE LET k == FindByte(x, CR)
           h == Take(x, k)
       IN IF k <= 0 \/ k > 7 \/ ~AllHex(h) THEN [ok |-> FALSE]
          ELSE LET n == HexValue(h) y == Drop(x, k) IN
               IF ~IsPrefixOf(CRLF, y) THEN [ok |-> FALSE]
               ELSE IF n = 0 THEN IF IsPrefixOf(CRLF, Drop(y, 2))
                                  THEN [ok |-> TRUE, d |-> d, end |-> TRUE, rest |-> Drop(y, 4)] ELSE [ok |-> FALSE]
               ELSE LET z == Drop(y, 2) IN
                    IF Size(z) < n + 2 THEN [ok |-> FALSE]
                    ELSE IF ~IsPrefixOf(CRLF, Drop(z, n)) THEN [ok |-> FALSE]
                    ELSE DecodeChunks(Drop(z, n + 2), Cat(d, Take(z, n)))

(* match one item against x: [ok, why, rest] *)
MatchItem(it, x) ==
  CASE it.t = "lit"  -> IF IsPrefixOf(it.d, x) THEN [ok |-> TRUE, rest |-> Drop(x, Size(it.d))]
                        ELSE [ok |-> FALSE, why |-> "wrong or missing bytes on the wire"]
    [] it.t = "head" -> LET d == DecodeHead(x) IN
                        IF ~d.ok THEN [ok |-> FALSE, why |-> "no complete message head on the wire"]
                        ELSE IF d.line # it.line THEN [ok |-> FALSE, why |-> "wrong first line"]
                        ELSE IF ~SameHeaders(d.hs, it.hs) THEN [ok |-> FALSE, why |-> "wrong headers"]
                        ELSE [ok |-> TRUE, rest |-> d.rest]
    [] it.t = "chunk" -> LET d == DecodeChunks(x, <<>>) IN
                        IF ~d.ok THEN [ok |-> FALSE, why |-> "bad chunked coding"]
                        ELSE IF d.d # it.d THEN [ok |-> FALSE, why |-> "wrong chunked content"]
                        ELSE IF d.end # it.end THEN [ok |-> FALSE, why |-> "chunked body wrongly terminated"]
                        ELSE [ok |-> TRUE, rest |-> d.rest]

(* match all items against x; everything must be used up *)
RECURSIVE MatchAll(_, _)
MatchAll(items, x) ==
  IF items = <<>> THEN (IF x = <<>> THEN "" ELSE "unexpected bytes on the wire")
  ELSE LET m == MatchItem(items[1], x) IN
       IF m.ok THEN MatchAll(Tail(items), m.rest) ELSE m.why

AddLit(items, d) ==
  IF d = <<>> THEN items
  ELSE IF items # <<>> /\ items[Len(items)].t = "lit"
       THEN [items EXCEPT ![Len(items)].d = Cat(@, d)]
       ELSE Append(items, [t |-> "lit", d |-> d])
OpenChunk(items) == items # <<>> /\ items[Len(items)].t = "chunk" /\ ~items[Len(items)].end
AddChunk(items, d) ==
  IF OpenChunk(items) THEN [items EXCEPT ![Len(items)].d = Cat(@, d)]
  ELSE Append(items, [t |-> "chunk", d |-> d, end |-> FALSE])
EndChunks(items) ==
  IF OpenChunk(items) THEN [items EXCEPT ![Len(items)].end = TRUE]
  ELSE Append(items, [t |-> "chunk", d |-> <<>>, end |-> TRUE])
=============================================================================
