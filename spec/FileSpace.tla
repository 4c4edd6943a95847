----------------------------- MODULE FileSpace -----------------------------
(***************************************************************************)
(* A file system as the file handler sees it: a function from paths        *)
(* (sequences of names, <<>> is the root) to nodes                         *)
(*   [t |-> "d"]            a directory                                    *)
(*   [t |-> "f", c]         a regular file with content c                  *)
(*   [t |-> "l", to]        a symbolic link to the path text to            *)
(*   [t |-> "p"]            anything else (a pipe)                         *)
(* with the path resolution of POSIX, and the decision which content (if   *)
(* any) a request path may obtain from a published directory.              *)
(***************************************************************************)
EXTENDS UrlParams

SLASH == 47
Dot == <<Run(46, 1)>>
DotDot == <<Run(46, 2)>>
Names(text) == SplitByte(text, SLASH)
IsAbsolute(text) == text # <<>> /\ RunByte(text[1]) = SLASH

FsRoot == (<<>> :> [t |-> "d"])
NoPath == [ok |-> FALSE]

(* Resolve the names todo, starting in cur; links are followed at most n times. *)
RECURSIVE Walk(_, _, _, _)
Walk(fs, cur, todo, n) ==
  IF todo = <<>> THEN [ok |-> TRUE, at |-> cur]
  ELSE IF fs[cur].t # "d" THEN NoPath
  ELSE LET h == Head(todo) rest == Tail(todo) IN
       IF h = <<>> \/ h = Dot THEN Walk(fs, cur, rest, n)
       ELSE IF h = DotDot THEN (IF cur = <<>> THEN NoPath            \* leaves the modelled tree
                                ELSE Walk(fs, SubSeq(cur, 1, Len(cur)-1), rest, n))
       ELSE LET p == Append(cur, h) IN
            IF p \notin DOMAIN fs THEN NoPath
            ELSE IF fs[p].t # "l" THEN Walk(fs, p, rest, n)
            ELSE IF n = 0 THEN NoPath
            ELSE Walk(fs, IF IsAbsolute(fs[p].to) THEN <<>> ELSE cur, Names(fs[p].to) \o rest, n - 1)

Resolve(fs, text) == Walk(fs, <<>>, Names(text), 40)

Inside(dir, at) == Len(at) > Len(dir) /\ SubSeq(at, 1, Len(dir)) = dir

(* The content published under the directory pub for a request path. *)
Published(fs, pub, path) ==
  LET d == Resolve(fs, pub) text == PercentDecode(path) IN
  IF pub = <<>> \/ ~d.ok THEN NoPath
  ELSE IF fs[d.at].t # "d" \/ FindByte(text, 0) >= 0 THEN NoPath
  ELSE LET r == Walk(fs, d.at, Names(text), 40) IN
       IF r.ok /\ Inside(d.at, r.at) /\ fs[r.at].t = "f" THEN [ok |-> TRUE, c |-> fs[r.at].c] ELSE NoPath

(* Media types by name *)
EndsWith(x, suffix) == LET n == Size(x) - Size(suffix) IN n >= 0 /\ SameText(Drop(x, n), suffix)
MediaTypes == << <<B(".html"), B("text/html")>>, <<B(".jpg"), B("image/jpeg")>>, <<B(".jpeg"), B("image/jpeg")>>,
                 <<B(".png"), B("image/png")>>, <<B(".gif"), B("image/gif")>>, <<B(".css"), B("text/css")>>,
                 <<B(".js"), B("text/javascript")>>, <<B(".xml"), B("text/xml")>> >>
OctetStream == B("application/octet-stream")
MediaType(name) ==
  LET is == {i \in 1..Len(MediaTypes) : EndsWith(name, MediaTypes[i][1])} IN
  IF is = {} THEN OctetStream ELSE MediaTypes[CHOOSE i \in is : \A j \in is : i <= j][2]

(* Design check: whatever the path, published content comes from a file    *)
(* below the directory that can be reached without passing a link.         *)
NoLinks(fs, at) == \A i \in 1..Len(at) : fs[SubSeq(at, 1, i)].t # "l"
=============================================================================
