----------------------------- MODULE MCFileSpace -----------------------------
(***************************************************************************)
(* Every small published directory against every short request path.       *)
(* What FileSpace says is published is compared with a declarative         *)
(* reading: it is the content of a regular file that lies below the real   *)
(* published directory, with no link on the way there, and every such file *)
(* can be had.  The contents name the place they lie at, so that nothing   *)
(* can be confused.  The worlds are printed and replayed against the real  *)
(* file handler.                                                           *)
(***************************************************************************)
EXTENDS FileSpace, Json, IOUtils

CONSTANTS Segs,      \* path segments used
          MaxSegs,   \* per path
          Rich,      \* whether directories below the published one vary too
          Emit

\* (B gives functions; sequences are wanted as path names)
N(str) == B(str)
RECURSIVE Joined(_, _)
Joined(l, sep) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE CatAll(<<l[1], sep, Joined(Tail(l), sep)>>)
Slash == B("/")
Place(p) == CatAll(<<B("content of "), Slash, Joined(p, Slash)>>)
File(p) == [t |-> "f", c |-> Place(p)]
Dir == [t |-> "d"]
Pipe == [t |-> "p"]
Link(to) == [t |-> "l", to |-> B(to)]

(* What may lie at a name below the published directory p: a set of        *)
(* functions from relative paths (sequences) to nodes.                     *)
Targets == {"a", "b", ".", "..", "../s", "../pq", "/pq/a", "/p/b/a", "b/../../s"}
P == N("p")
Small(at) == {<<>>, <<<<at, File(at)>>>>, <<<<at, Dir>>>>} \cup {<<<<at, Link(to)>>>> : to \in Targets}
Deep(at) == LET in == Append(at, N("a")) up == Append(at, N("b")) IN
  {<<<<at, Dir>>, <<in, File(in)>>>>, <<<<at, Pipe>>>>}
  \cup IF Rich THEN {<<<<at, Dir>>, <<in, Link(to)>>, <<up, File(up)>>>> : to \in {"..", "../../s", "b", "../a", "/p", "/pq"}} ELSE {}
Entries(at) == Small(at) \cup Deep(at)

RECURSIVE Build(_)
Build(l) == IF l = <<>> THEN FsRoot ELSE (l[1][1] :> l[1][2]) @@ Build(Tail(l))
Fixed == << << <<>>, Dir>>, << <<N("p")>>, Dir>>, << <<N("pq")>>, Dir>>, << <<N("pq"), N("a")>>, File(<<N("pq"), N("a")>>)>>,
            << <<N("s")>>, File(<<N("s")>>)>>, << <<N("l")>>, Link("p")>>, << <<N("m")>>, Link("/l/a")>> >>
Worlds == {Build(Fixed \o x \o y) : x \in Entries(<<P, N("a")>>), y \in Entries(<<P, N("b")>>)}
Roots == {"/p", "/l", "/p/a", "/m"}

SegsSet == {N(x) : x \in Segs}
Paths == UNION {[1..n -> SegsSet] : n \in 1..MaxSegs}
TextOf(l) == CatAll(<<Slash, Joined(l, Slash)>>)
AsSeq(fs) == LET d == SetToSeq(DOMAIN fs \ {<<>>}) IN [i \in 1..Len(d) |-> [p |-> d[i], n |-> fs[d[i]]]]

VARIABLES fs, root, path, pub
vars == <<fs, root, path, pub>>
Init == /\ fs \in Worlds /\ root \in {B(r) : r \in Roots} /\ path = <<>> /\ pub = NoPath
Next == /\ path = <<>> /\ path' \in Paths
        /\ pub' = Published(fs, root, TextOf(path')) /\ UNCHANGED <<fs, root>>
        /\ (Emit /\ path' = (CHOOSE p \in Paths : TRUE)) => PrintT("WORLD " \o ToJson([fs |-> AsSeq(fs), root |-> root]))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Real == Resolve(fs, root)
Asked == path # <<>>
\* regular files below the real published directory
Below == IF ~Real.ok THEN {} ELSE {at \in DOMAIN fs : Inside(Real.at, at) /\ fs[at].t = "f"}
OnlyBelow == (Asked /\ pub.ok) => \E at \in Below : pub.c = Place(at) /\ NoLinks(fs, at)
NeverSecret == (Asked /\ pub.ok /\ Real.at # <<>> /\ Real.at[1] = P) => pub.c \notin {Place(<<N("s")>>), Place(<<N("pq"), N("a")>>)}
\* a file's own path obtains it
Straight(l) == \A i \in 1..Len(l) : l[i] \notin {<<>>, Dot, DotDot}
OwnPath == (Asked /\ Straight(path) /\ Real.ok) => LET at == Real.at \o path IN (at \in Below) => (pub.ok /\ pub.c = Place(at))
\* a path that names things which are not there, without links or .. on the way, obtains nothing
Clean(l) == SelectSeq(l, LAMBDA x : x # <<>> /\ x # Dot)
NotThere == (Asked /\ Real.ok /\ \A i \in 1..Len(path) : path[i] # DotDot) =>
              LET at == Real.at \o Clean(path) IN
              (at \notin DOMAIN fs /\ \A i \in 1..Len(at) : SubSeq(at, 1, i) \notin DOMAIN fs \/ fs[SubSeq(at, 1, i)].t # "l") => ~pub.ok
\* empty and . segments inside a path change nothing (at its end they ask for a directory); escapes change nothing
SameWithout == Asked => IF path[Len(path)] \in {<<>>, Dot} THEN ~pub.ok ELSE pub = Published(fs, root, TextOf(Clean(path)))
Hex2(b) == LET h == B("0123456789abcdef") IN CatAll(<<B("%"), Take(Drop(h, b \div 16), 1), Take(Drop(h, b % 16), 1)>>)
Escaped(x) == LET l == Expand(x) IN CatAll([i \in 1..Len(l) |-> Hex2(l[i])])
SameEscaped == Asked => pub = Published(fs, root, Escaped(TextOf(path)))
\* nothing is published by a directory that does not exist, or by a path with a zero byte
NothingFromNothing == Asked => /\ ~Published(fs, B("/nowhere"), TextOf(path)).ok /\ ~Published(fs, <<>>, TextOf(path)).ok
                               /\ ~Published(fs, root, CatAll(<<TextOf(path), B("%00")>>)).ok
=============================================================================
