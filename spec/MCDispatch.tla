----------------------------- MODULE MCDispatch -----------------------------
(***************************************************************************)
(* Every small tree of handlers against every small request: what the      *)
(* service specification says about dispatch (Plan, Route) is compared     *)
(* with a declarative reading of the same guarantees: who sees a request,  *)
(* who takes it, and what the parts of a path stand for.  The trees are    *)
(* printed and replayed against the real handlers.                         *)
(***************************************************************************)
EXTENDS HttpService, Json, IOUtils

CONSTANTS Shapes,      \* which family of trees
          PatternIds,  \* patterns used by the routes
          Emit

Lit(s) == [t |-> "lit", d |-> B(s)]
One(s) == [t |-> "one", n |-> B(s)]
Wild(s) == [t |-> "any", n |-> B(s)]
PatternOf == [
  root |-> <<Lit("/")>>,
  a    |-> <<Lit("/a")>>,
  x    |-> <<Lit("/"), One("x")>>,
  s    |-> <<Lit("/"), Wild("s")>>,
  xs   |-> <<Lit("/"), One("x"), Lit("/"), Wild("s")>>,
  sx   |-> <<Lit("/"), Wild("s"), Lit("/"), One("x")>>,
  ax   |-> <<Lit("/a/"), One("x")>>,
  xy   |-> <<Lit("/"), One("x"), Lit("-"), One("y")>>,
  st   |-> <<Lit("/"), Wild("s"), Lit("/"), Wild("t")>>,
  xe   |-> <<Lit("/"), One("x"), Lit("/e")>>]

Yes == [t |-> "probe", id |-> "", acc |-> TRUE]
No  == [t |-> "probe", id |-> "", acc |-> FALSE]
None == [t |-> "none"]
Fix == [t |-> "fixed", s |-> 403, c |-> B("f")]
RouteTo(m, p, to) == [m |-> m, p |-> PatternOf[p], pid |-> p, to |-> to]
Router(rs, mm, un, mp) == [t |-> "router", routes |-> rs, mm |-> mm, un |-> un, mp |-> mp]
Stack(ks) == [t |-> "stack", kids |-> ks]
SeqsTo(X, n) == UNION {[1..k -> X] : k \in 0..n}

Methods0 == {<<>>, B("GET"), B("POST")}
\* one router with up to two routes
Routers ==
  LET rs == {RouteTo(m, p, to) : m \in Methods0, p \in PatternIds, to \in {Yes, No}} IN
  {Router(l, mm, un, mp) : l \in SeqsTo(rs, 2), mm \in BOOLEAN, un \in BOOLEAN, mp \in BOOLEAN}
\* representative routers inside stacks of up to three
Some == {Router(<<RouteTo(B("GET"), "x", Yes)>>, TRUE, FALSE, FALSE),
         Router(<<RouteTo(B("post"), "s", No), RouteTo(<<>>, "a", Yes)>>, FALSE, FALSE, TRUE),
         Router(<<RouteTo(<<>>, "xs", None), RouteTo(B("PUT"), "root", Fix)>>, TRUE, TRUE, FALSE)}
Stacks == {Stack(ks) : ks \in SeqsTo({Yes, No, None} \cup Some \cup {Stack(<<>>), Stack(<<No, Yes>>), Stack(<<No, None>>)}, 3)}
\* routes that lead to stacks and routers, behind and before others
Nested == LET in == {Stack(<<No, Fix>>), Stack(<<No>>), Stack(<<>>)} \cup Some IN
  {Stack(<<No, Router(<<RouteTo(m, p, to1), RouteTo(<<>>, q, to2)>>, mm, FALSE, TRUE), Yes>>) :
     m \in {<<>>, B("GET")}, p \in PatternIds, q \in PatternIds, to1 \in in, to2 \in in, mm \in BOOLEAN}
Trees == CASE Shapes = "routers" -> Routers [] Shapes = "stacks" -> Stacks [] OTHER -> Nested

\* give every probe a name of its own
RECURSIVE Named(_, _)
Named(n, at) ==
  CASE n.t = "probe" -> [n EXCEPT !.id = "p" \o at]
    [] n.t = "stack" -> [n EXCEPT !.kids = [i \in 1..Len(n.kids) |-> Named(n.kids[i], at \o ToString(i))]]
    [] n.t = "router" -> [n EXCEPT !.routes = [i \in 1..Len(n.routes) |-> [n.routes[i] EXCEPT !.to = Named(@, at \o ToString(i))]]]
    [] OTHER -> n

Paths == {"/", "/a", "/a/b", "/b-c", "//", "/a/", "/%61/e", "/b/b/e"}
Requests == {[m |-> B(m), p |-> B(p), q |-> B(q)] : m \in {"GET", "POST"}, p \in Paths, q \in {"", "_method=post", "x=1"}}
ASSUME Emit => PrintT("REQUESTS " \o ToJson(SetToSeq(Requests)))

VARIABLES tree, req, plan
Init == tree \in {Named(n, "") : n \in Trees} /\ req \in Requests
        /\ plan = Plan(S0, tree, [m |-> req.m, p |-> req.p, h |-> <<>>], ParseParams(req.q))
Next == /\ Emit /\ req = (CHOOSE r \in Requests : TRUE)
        /\ PrintT("TREE " \o ToJson(tree)) /\ UNCHANGED <<tree, req, plan>>
Spec == Init /\ [][Next]_<<tree, req, plan>>

----------------------------------------------------------------------------
(* The declarative reading. *)
Text == PercentDecode(req.p)
Query == ParseParams(req.q)
\* all ways to cut x into pieces: ends of the pieces
Cuts(ps, x) == {c \in [0..Len(ps) -> 0..Size(x)] : c[0] = 0 /\ c[Len(ps)] = Size(x) /\ \A i \in 1..Len(ps) : c[i-1] <= c[i]}
PartOf(x, c, i) == Take(Drop(x, c[i-1]), c[i] - c[i-1])
WordText(x) == x # <<>> /\ WordPrefix(x) = Size(x)
GoodCut(ps, x, c) == \A i \in 1..Len(ps) :
                       CASE ps[i].t = "lit" -> PartOf(x, c, i) = ps[i].d
                         [] ps[i].t = "one" -> WordText(PartOf(x, c, i))
                         [] OTHER -> TRUE
Readings(ps, x) == {c \in Cuts(ps, x) : GoodCut(ps, x, c)}
\* of several readings the one whose first placeholder is longest, then the second, ...
Later(n, c, d) == \E i \in 1..n : c[i] > d[i] /\ \A j \in 1..(i-1) : c[j] = d[j]
BestReading(ps, x) == CHOOSE c \in Readings(ps, x) : \A d \in Readings(ps, x) : d = c \/ Later(Len(ps), c, d)
Bound(ps, x) == LET c == BestReading(ps, x)
                    idx == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : ps[i].t # "lit")
                IN [k \in 1..Len(idx) |-> <<ps[idx[k]].n, PartOf(x, c, idx[k])>>]

Caps(x) == LET l == Expand(x) IN [i \in 1..Len(l) |-> IF l[i] >= 97 /\ l[i] <= 122 THEN l[i] - 32 ELSE l[i]]
\* (tables: TLC works them out once)
AllTexts == {PercentDecode(r.p) : r \in Requests}
FitTable == [p \in DOMAIN PatternOf |-> {x \in AllTexts : Readings(PatternOf[p], x) # {}}]
BoundTable == [p \in DOMAIN PatternOf |-> [x \in FitTable[p] |-> Bound(PatternOf[p], x)]]
Fits(r) == Text \in FitTable[r.pid]
Method(n, ps) == LET v == GetParam(ps, tMethodParam) IN IF n.mp /\ v # <<>> THEN v ELSE req.m
FirstRoute(n, ps) ==
  LET ok == {i \in 1..Len(n.routes) : Fits(n.routes[i])
                                      /\ (n.routes[i].m = <<>> \/ Caps(n.routes[i].m) = Caps(Method(n, ps)))} IN
  IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : i <= j
SomePathFits(n) == \E i \in 1..Len(n.routes) : Fits(n.routes[i])

\* In these models the only parameter that decides anything is _method, which no route binds.
RECURSIVE Takes(_)
Takes(n) == CASE n.t = "probe" -> n.acc
              [] n.t = "none" -> FALSE
              [] n.t = "stack" -> \E i \in 1..Len(n.kids) : Takes(n.kids[i])
              [] n.t = "router" -> LET i == FirstRoute(n, Query) IN
                                   IF i # 0 THEN Takes(n.routes[i].to) ELSE IF SomePathFits(n) THEN n.mm ELSE n.un
              [] OTHER -> TRUE
RECURSIVE Sees(_)
Sees(n) == CASE n.t = "probe" -> {n.id}
             [] n.t = "stack" -> UNION {Sees(n.kids[i]) : i \in {i \in 1..Len(n.kids) : \A j \in 1..(i-1) : ~Takes(n.kids[j])}}
             [] n.t = "router" -> LET i == FirstRoute(n, Query) IN IF i # 0 THEN Sees(n.routes[i].to) ELSE {}
             [] OTHER -> {}

T == tree
P == plan
Offered == LET l == SelectSeq(P.steps, LAMBDA st : st.t = "offer") IN [i \in 1..Len(l) |-> l[i].id]

TakenIffAccepted == P.ret = Takes(T)
SeenIffNotTakenBefore == LET o == Offered seen == Sees(T) IN
                         Range(o) = seen /\ Cardinality(seen) = Len(o)
RECURSIVE Declining(_)
Declining(n) == CASE n.t = "probe" -> IF n.acc THEN {} ELSE {n.id}
                  [] n.t = "stack" -> UNION {Declining(n.kids[i]) : i \in 1..Len(n.kids)}
                  [] n.t = "router" -> UNION {Declining(n.routes[i].to) : i \in 1..Len(n.routes)}
                  [] OTHER -> {}
NothingAfterTheTaker == LET o == Offered d == Declining(T) IN \A i \in 1..(Len(o)-1) : o[i] \in d
AnsweredOnce == LET a == SelectSeq(P.steps, LAMBDA st : st.t = "call") IN
                /\ Len(a) <= 1 /\ (a # <<>> => P.ret /\ P.steps[Len(P.steps)].t = "call")
\* what the parameters are when a router hands the request over
RECURSIVE Routers1(_)
Routers1(n) == CASE n.t = "stack" -> UNION {Routers1(n.kids[i]) : i \in 1..Len(n.kids)}
                 [] n.t = "router" -> {n} \cup UNION {Routers1(n.routes[i].to) : i \in 1..Len(n.routes)}
                 [] OTHER -> {}
Readable ==
  \A n \in Routers1(T) :
    LET d == Route(n.routes, Method(n, Query), Text) i == FirstRoute(n, Query) IN
    /\ (i = 0) = (d.k # "route")
    /\ i # 0 => /\ d.i = i /\ d.b = BoundTable[n.routes[i].pid][Text]
    /\ (i = 0 => (d.k = "method") = SomePathFits(n))
=============================================================================
