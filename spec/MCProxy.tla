------------------------------ MODULE MCProxy ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Proxy: clients sending requests (pipelined,   *)
(* in pieces), an upstream server answering them in any order, kind and    *)
(* segmentation, breaking off or garbling its answers, clients leaving at  *)
(* any moment; in between a proxy that does what is due.                   *)
(*                                                                         *)
(* Two things are checked: that the specification finds no fault with such *)
(* a proxy, whatever its surroundings do, and what it let pass is right by *)
(* the account of the canned requests and answers alone; and that with any *)
(* of the wrong proxies of Faults it finds one by the next time all is     *)
(* quiet.  The behaviours are replayed into the real proxy.                *)
(***************************************************************************)
EXTENDS Proxy, Json, IOUtils

CONSTANTS Clients, MaxReqs,
          Kinds,              \* requests offered
          Answers,            \* answers offered
          MaxEnds, MaxGone,   \* upstream connections ended, clients leaving
          Split, Halves,      \* answers, requests may come in two pieces
          Rush,               \* the surroundings need not wait for what is due
          Down,
          Faults,
          Emit

Num(k) == Dec(k - 1)
Fld(n, v) == CatAll(<<B(n), B(": "), v, CRLF>>)
Method == [g |-> B("GET"), h |-> cvHead, p |-> B("POST")]
Content(kind, k) == IF kind = "p" THEN Cat(B("q"), Num(k)) ELSE <<>>
ReqLine(kind, k) == CatAll(<<Method[kind], B(" /k"), Num(k), B(" HTTP/1.1"), CRLF>>)
ReqTail(kind, d) == CatAll(<<Fld("Host", B("h")), IF d = <<>> /\ kind # "p" THEN <<>> ELSE Fld("Content-Length", Dec(Size(d))), CRLF, d>>)
ReqBytes(kind, k) == Cat(ReqLine(kind, k), ReqTail(kind, Content(kind, k)))

AnsCode == [len |-> B("200 OK"), chunk |-> B("200 OK"), eof |-> B("404 Not Found"), none |-> B("204 No Content"), bad |-> B("200 OK")]
AnsBody(a, k) == IF a \in {"none", "bad"} THEN <<>> ELSE Cat(B("r"), Num(k))
AnsFields(a, k) == CatAll(<<Fld("X", Num(k)), IF a = "len" THEN Fld("Content-Length", Dec(Size(AnsBody(a, k)))) ELSE IF a = "chunk" THEN Fld("Transfer-Encoding", B("chunked")) ELSE <<>>>>)
Chunk(d) == CatAll(<<Dec(Size(d)), CRLF, d, CRLF>>)      \* of less than ten bytes
LastChunk == CatAll(<<B("0"), CRLF, CRLF>>)
AnsBytes(a, k, kind) ==
  IF a = "bad" THEN CatAll(<<B("HTTQ/1.1 200 OK"), CRLF, CRLF>>)
  ELSE CatAll(<<B("HTTP/1.1 "), AnsCode[a], CRLF, AnsFields(a, k), CRLF,
                IF kind = "h" THEN <<>> ELSE IF a = "chunk" THEN Cat(Chunk(AnsBody(a, k)), LastChunk) ELSE AnsBody(a, k)>>)

VARIABLES s,
          cli,       \* per client: [ks, next, half, gone, closed]
          ex,        \* per request: [c, i, kind, sent, u, ans, todo, out, n]
          ends, gone, fault, hit, hist
vars == <<s, cli, ex, ends, gone, fault, hit, hist>>
Ghost == <<s, cli, ex, ends, gone, fault, hit>>

RECURSIVE Opened(_, _)
Opened(x, n) == IF n = 0 THEN x ELSE Opened(XApply(x, [e |-> "copen"]), n - 1)
Init == /\ s = Opened(XApply(xFresh, [e |-> "cfg", auth |-> B("u"), down |-> Down]), Clients)
        /\ cli = [c \in 1..Clients |-> [ks |-> <<>>, half |-> FALSE, gone |-> FALSE, closed |-> FALSE]]
        /\ ex = <<>> /\ ends = 0 /\ gone = 0
        /\ fault \in (IF Faults = {} THEN {"none"} ELSE Faults) /\ hit = FALSE
        /\ hist = <<>>
Note(h) == hist' = Append(hist, h)
NEx == Len(ex)
F(f) == fault = f
X(k) == Ex(s, ex[k].c, ex[k].i)
Here(k) == ~cli[ex[k].c].gone /\ ~cli[ex[k].c].closed

(* ---- the proxy ---------------------------------------------------------*)
Earlier(k) == {j \in 1..NEx : ex[j].c = ex[k].c /\ ex[j].i < ex[k].i}
Forwards(k) == /\ ex[k].sent /\ ex[k].u = 0 /\ ex[k].out = "no" /\ Here(k) /\ ~Down
               /\ \A j \in Earlier(k) : ex[j].out = "end" \/ F("early")
               /\ ~F("lazy") \/ Earlier(k) = {}
Idles == {u \in 1..Len(s.up) : s.up[u].fin = "" /\ ~s.up[u].closed /\ s.up[u].c # 0 /\ Ex(s, s.up[u].c, s.up[u].i).a.q = "done"}
Refused(k) == ex[k].sent /\ Here(k) /\ ex[k].out = "no" /\ (\A j \in Earlier(k) : ex[j].out = "end") /\ (Down \/ (ex[k].u # 0 /\ GaveUp(s, X(k)) /\ ~X(k).a.head))
Relays(k) == ex[k].u # 0 /\ Here(k) /\ ex[k].out # "end" /\ X(k).a.head /\ (Size(X(k).a.raw) > ex[k].n \/ X(k).a.q = "done")
Breaks(k) == ex[k].u # 0 /\ Here(k) /\ ex[k].out # "end" /\ X(k).a.head /\ ~Relays(k) /\ GaveUp(s, X(k)) /\ ~F("hang")
Closes(c) == LET k == s.cl[c] IN ~cli[c].gone /\ ~cli[c].closed /\ k.n > 0 /\ ~k.keep /\ ~F("noclose")
Releases(k) == cli[ex[k].c].gone /\ ex[k].u # 0 /\ ~s.up[ex[k].u].closed /\ s.up[ex[k].u].fin = "" /\ ~Settled(s, X(k)) /\ ~F("keepup")
DoesNot(k) == (Relays(k) \/ Refused(k)) /\ F("silent")
Due == \/ \E k \in 1..NEx : Forwards(k) \/ ((Relays(k) \/ Refused(k)) /\ ~F("silent")) \/ Breaks(k) \/ Releases(k)
       \/ \E c \in 1..Clients : Closes(c)

Forward == \E k \in 1..NEx : Forwards(k) /\
  LET fresh == Idles = {} \/ F("twice")
      s1 == IF fresh THEN XApply(s, [e |-> "uopen"]) ELSE s
      u == IF fresh THEN Len(s1.up) ELSE CHOOSE u \in Idles : TRUE
      kind == ex[k].kind
      d == Content(kind, k)
      x == IF F("method") THEN Cat(ReqLine("h", k), ReqTail(kind, d))
           ELSE IF F("short") /\ d # <<>> THEN Cat(ReqLine(kind, k), ReqTail(kind, Take(d, 1)))
           ELSE IF F("mixed") /\ k > 1 THEN Cat(ReqLine(kind, k - 1), ReqTail(kind, d))
           ELSE ReqBytes(kind, k)
      s2 == XApply(s1, [e |-> "urecv", u |-> u, d |-> x])
      s3 == IF F("twice") /\ s2.err = "" THEN LET t == XApply(s2, [e |-> "uopen"]) IN XApply(t, [e |-> "urecv", u |-> Len(t.up), d |-> x]) ELSE s2
  IN /\ s' = s3 /\ ex' = [ex EXCEPT ![k].u = u]
     /\ hit' = (hit \/ F("twice") \/ (F("method") /\ kind # "h") \/ (F("short") /\ d # <<>>) \/ (F("mixed") /\ k > 1)
                    \/ (F("early") /\ \E j \in Earlier(k) : ex[j].out # "end"))
     /\ Note([op |-> "forwarded", k |-> k - 1, c |-> ex[k].c - 1])
  /\ UNCHANGED <<cli, ends, gone, fault>>

OutHead(k) ==
  LET a == ex[k].ans h == IF F("field") THEN <<>> ELSE Fld("X", Num(k)) b == AnsBody(a, k) IN
  CatAll(<<B("HTTP/1.1 "), IF F("status") THEN B("202 Accepted") ELSE AnsCode[a], CRLF, h,
           IF a = "len" THEN Fld("Content-Length", Dec(Size(b))) ELSE IF a = "chunk" THEN Fld("Transfer-Encoding", B("chunked")) ELSE IF a = "eof" THEN Fld("Connection", B("close")) ELSE <<>>, CRLF>>)
Relay == \E k \in 1..NEx : Relays(k) /\ ~F("silent") /\
  LET r == X(k) a == ex[k].ans bodied == ex[k].kind # "h" /\ a # "none"
      new == Drop(r.a.raw, ex[k].n)
      piece == IF F("lost") /\ new # <<>> THEN Take(new, Size(new) - 1) ELSE IF F("other") /\ new # <<>> THEN Cat(B("z"), Drop(new, 1)) ELSE new
      over == r.a.q = "done" \/ (F("hasty") /\ a = "chunk")
      x == CatAll(<<IF ex[k].out = "no" THEN OutHead(k) ELSE <<>>,
                    IF piece = <<>> \/ ~bodied THEN <<>> ELSE IF a = "chunk" THEN Chunk(piece) ELSE piece,
                    IF over /\ bodied /\ a = "chunk" THEN LastChunk ELSE <<>>>>)
      c == IF F("astray") THEN 1 + (ex[k].c % Clients) ELSE ex[k].c
      s1 == XApply(s, [e |-> "crecv", c |-> c, d |-> x])
  IN /\ s' = s1
     /\ ex' = [ex EXCEPT ![k].n = Size(r.a.raw), ![k].out = IF over /\ (a # "eof" \/ ~bodied) THEN "end" ELSE "head"]
     /\ hit' = (hit \/ (F("lost") /\ new # <<>>) \/ (F("other") /\ new # <<>>) \/ F("field") \/ F("status") \/ (F("astray") /\ Clients > 1)
                    \/ (F("hasty") /\ a = "chunk" /\ bodied /\ r.a.q # "done"))
     /\ Note(IF over THEN [op |-> "answered", c |-> c - 1, n |-> ex[k].i] ELSE [op |-> "relayed", c |-> c - 1, n |-> Size(r.a.raw), seen |-> ex[k].i - 1])
  /\ UNCHANGED <<cli, ends, gone, fault>>
Refuse == \E k \in 1..NEx : Refused(k) /\ ~F("silent") /\
  /\ s' = XApply(s, [e |-> "crecv", c |-> ex[k].c, d |-> CatAll(<<IF F("status") THEN B("HTTP/1.1 502 Bad Gateway") ELSE B("HTTP/1.1 503 Service Unavailable"), CRLF, Fld("Content-Length", B("0")), CRLF>>)])
  /\ hit' = (hit \/ F("status"))
  /\ ex' = [ex EXCEPT ![k].out = "end"]
  /\ Note([op |-> "answered", c |-> ex[k].c - 1, n |-> ex[k].i])
  /\ UNCHANGED <<cli, ends, gone, fault>>
Skip == \E k \in 1..NEx : DoesNot(k) /\ hit' = TRUE /\ UNCHANGED <<s, cli, ex, ends, gone, fault, hist>>
Shut(c) == /\ s' = XApply(s, [e |-> "ceof", c |-> c]) /\ cli' = [cli EXCEPT ![c].closed = TRUE]
           /\ Note([op |-> "closed", c |-> c - 1])
Break == \/ \E k \in 1..NEx : Breaks(k) /\ Shut(ex[k].c) /\ ex' = [ex EXCEPT ![k].out = "end"] /\ UNCHANGED <<ends, gone, fault, hit>>
         \/ \E c \in 1..Clients : Closes(c) /\ Shut(c) /\ UNCHANGED <<ex, ends, gone, fault, hit>>
         \/ F("hang") /\ (\E k \in 1..NEx : ex[k].u # 0 /\ Here(k) /\ ex[k].out # "end" /\ X(k).a.head /\ ~Relays(k) /\ GaveUp(s, X(k))) /\ ~hit /\ hit' = TRUE /\ UNCHANGED <<s, cli, ex, ends, gone, fault, hist>>
         \/ F("noclose") /\ (\E c \in 1..Clients : ~cli[c].gone /\ s.cl[c].n > 0 /\ ~s.cl[c].keep) /\ ~hit /\ hit' = TRUE /\ UNCHANGED <<s, cli, ex, ends, gone, fault, hist>>
         \/ F("keepup") /\ (\E k \in 1..NEx : cli[ex[k].c].gone /\ ex[k].u # 0 /\ s.up[ex[k].u].fin = "" /\ ~Settled(s, X(k))) /\ ~hit /\ hit' = TRUE /\ UNCHANGED <<s, cli, ex, ends, gone, fault, hist>>
         \/ F("lazy") /\ (\E k \in 1..NEx : ex[k].sent /\ ex[k].u = 0 /\ Here(k) /\ Earlier(k) # {} /\ \A j \in Earlier(k) : ex[j].out = "end") /\ ~hit /\ hit' = TRUE /\ UNCHANGED <<s, cli, ex, ends, gone, fault, hist>>
Release == \E k \in 1..NEx : Releases(k)
  /\ s' = XApply(s, [e |-> "uclosed", u |-> ex[k].u])
  /\ Note([op |-> "released", k |-> k - 1])
  /\ UNCHANGED <<cli, ex, ends, gone, fault, hit>>

(* ---- its surroundings --------------------------------------------------*)
May == (Rush \/ ~Due) /\ ~(hit /\ ~Due)
Start == /\ May /\ NEx < MaxReqs
  /\ \E c \in 1..Clients, kind \in Kinds, half \in (IF Halves THEN BOOLEAN ELSE {FALSE}) :
       /\ ~cli[c].gone /\ ~cli[c].closed /\ ~cli[c].half
       /\ s.cl[c].n = 0 \/ s.cl[c].keep
       /\ \A j \in 1..NEx : ex[j].c = c => ex[j].ans # "eof"     \* the connection has to stay for another request
       /\ LET k == NEx + 1 x == ReqBytes(kind, k) d == IF half THEN Take(x, Size(x) - 3) ELSE x IN
          /\ s' = XApply(s, [e |-> "csend", c |-> c, d |-> d])
          /\ ex' = Append(ex, [c |-> c, i |-> Len(cli[c].ks) + 1, kind |-> kind, sent |-> ~half, u |-> 0, ans |-> "", todo |-> <<>>, out |-> "no", n |-> 0])
          /\ cli' = [cli EXCEPT ![c].ks = Append(@, k), ![c].half = half]
          /\ Note([op |-> "csend", c |-> c - 1, d |-> d, heads |-> <<kind = "h">>])
  /\ UNCHANGED <<ends, gone, fault, hit>>
Rest == /\ May
  /\ \E k \in 1..NEx :
       /\ ~ex[k].sent /\ Here(k)
       /\ LET x == ReqBytes(ex[k].kind, k) d == Drop(x, Size(x) - 3) IN
          /\ s' = XApply(s, [e |-> "csend", c |-> ex[k].c, d |-> d])
          /\ Note([op |-> "csend", c |-> ex[k].c - 1, d |-> d, heads |-> <<>>])
       /\ ex' = [ex EXCEPT ![k].sent = TRUE] /\ cli' = [cli EXCEPT ![ex[k].c].half = FALSE]
  /\ UNCHANGED <<ends, gone, fault, hit>>
Leave == /\ May /\ gone < MaxGone
  /\ \E c \in 1..Clients, how \in {"cfin", "crst"} :
       /\ ~cli[c].gone /\ ~cli[c].closed
       /\ s' = XApply(s, [e |-> how, c |-> c]) /\ cli' = [cli EXCEPT ![c].gone = TRUE]
       /\ Note([op |-> how, c |-> c - 1])
  /\ gone' = gone + 1 /\ UNCHANGED <<ex, ends, fault, hit>>
Live(k) == ex[k].u # 0 /\ s.up[ex[k].u].fin = "" /\ ~s.up[ex[k].u].closed /\ s.up[ex[k].u].c = ex[k].c /\ s.up[ex[k].u].i = ex[k].i /\ X(k).a.q \notin {"done", "bad"}
Reply == /\ May
  /\ \E k \in 1..NEx, a \in Answers : LET later == \E j \in 1..NEx : ex[j].c = ex[k].c /\ ex[j].i > ex[k].i IN
       /\ Live(k) /\ (ex[k].ans = "" \/ (ex[k].ans = a /\ ex[k].todo # <<>>))
       /\ ~(later /\ a = "eof")
       /\ LET x == IF ex[k].ans = "" THEN AnsBytes(a, k, ex[k].kind) ELSE ex[k].todo
              cuts == IF Split /\ ex[k].ans = "" THEN {Size(x), Size(x) - 1, Size(x) - 6} ELSE {Size(x)} IN
          \E n \in cuts :
            LET now == IF a = "eof" /\ n = Size(x) /\ ex[k].kind # "h" THEN XApply(XApply(s, [e |-> "usend", u |-> ex[k].u, d |-> x]), [e |-> "ufin", u |-> ex[k].u])
                       ELSE XApply(s, [e |-> "usend", u |-> ex[k].u, d |-> Take(x, n)]) IN
            /\ s' = now
            /\ ex' = [ex EXCEPT ![k].ans = a, ![k].todo = Drop(x, n)]
            /\ Note([op |-> IF a = "eof" /\ n = Size(x) /\ ex[k].kind # "h" THEN "ulast" ELSE "usend", k |-> k - 1, d |-> Take(x, n), bad |-> a = "bad"])
  /\ UNCHANGED <<cli, ends, gone, fault, hit>>
End == /\ May /\ ends < MaxEnds
  /\ \E k \in 1..NEx, how \in {"ufin", "urst"} :
       /\ Live(k)
       /\ IF how = "urst" /\ X(k).a.head THEN X(k).a.raw # <<>> /\ ex[k].n = Size(X(k).a.raw) ELSE TRUE   \* a reset may take back what was not passed on yet
       /\ ~(how = "ufin" /\ X(k).a.head /\ ex[k].ans = "eof")                              \* which would end it properly
       /\ s' = XApply(s, [e |-> how, u |-> ex[k].u])
       /\ Note([op |-> how, k |-> k - 1, bare |-> ~X(k).a.head])
  /\ ends' = ends + 1 /\ UNCHANGED <<cli, ex, gone, fault, hit>>

Next == /\ s.err = ""
        /\ (Forward \/ Relay \/ Refuse \/ Skip \/ Break \/ Release \/ Start \/ Rest \/ Leave \/ Reply \/ End)
        /\ (Emit => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Right == fault = "none"
NoError == Right => s.err = ""
Settles == (Right /\ ~Due) => XSync(s).err = ""
(* by the canned answers alone: what each client got up to now, in order *)
Began(k) == ex[k].out # "no"
OwnAnswers == Right => \A c \in 1..Clients :
  LET got == {k \in 1..NEx : ex[k].c = c /\ Began(k)} IN
  /\ \A k \in got : \A j \in Earlier(k) : Began(j)
  /\ \A k \in got : ex[k].ans \notin {"", "bad"} => Size(AnsBody(ex[k].ans, k)) >= ex[k].n
Alone == Right => \A k \in 1..NEx : (ex[k].u # 0 /\ \E j \in Earlier(k) : ex[j].u # 0 /\ ~Settled(s, X(j))) => FALSE
(* every wrong proxy is found out *)
Found == (hit /\ ~Due) => (s.err # "" \/ XSync(s).err # "")
=============================================================================
