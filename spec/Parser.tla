-------------------------------- MODULE Parser --------------------------------
(* The patch parser as a state machine that consumes one line per step.         *)
(*                                                                              *)
(* The machine state is one record so that the same definitions serve as        *)
(* actions (ParserNext) and as a function from input to result (Run).           *)
(*   lines   the input delivered so far, one string per line                    *)
(*   closed  no more lines will be delivered                                     *)
(*   pos     index of the current line                                           *)
(*   mode    what the parser is looking for                                      *)
(*   file, frag, bin   objects under construction                                *)
(*   pre     number of preamble lines                                            *)
(*   files   completed files                                                     *)
(*   line    the line at which the current header (of a file or of a fragment)   *)
(*           starts                                                              *)
EXTENDS Names, Base85, FiniteSets

NoBin == [method |-> "none", size |-> "0", data |-> <<>>]
EmptyFile ==
  [old |-> "", new |-> "", isNew |-> FALSE, isDel |-> FALSE, isCopy |-> FALSE, isRen |-> FALSE,
   omode |-> 0, nmode |-> 0, ooid |-> "", noid |-> "", score |-> 0, frags |-> <<>>,
   isBin |-> FALSE, bin |-> NoBin, rev |-> NoBin]
NoFrag == [comment |-> "", opos |-> "0", olines |-> "0", npos |-> "0", nlines |-> "0",
           added |-> 0, deleted |-> 0, lead |-> 0, trail |-> 0, lines |-> <<>>]

ParserStart(lines, closed) ==
  [lines |-> lines, closed |-> closed, pos |-> 1, mode |-> "seek", file |-> EmptyFile,
   default |-> "", frag |-> NoFrag, oleft |-> 0, nleft |-> 0, bin |-> NoBin, which |-> 0,
   pre |-> 0, files |-> <<>>, err |-> "", line |-> 0]

Cur(ps, k) == IF ps.pos + k <= Len(ps.lines) THEN ps.lines[ps.pos + k] ELSE ""
Left(ps) == Len(ps.lines) - ps.pos + 1                 \* delivered and unread lines

(* how many lines of lookahead the parser needs before it can take a step *)
Need(ps) == CASE ps.mode \in {"done", "fail"} -> 0
              [] ps.mode = "seek" /\ HasPrefix(Cur(ps, 0), "--- ") -> 3
              [] OTHER -> 1
Ready(ps) == ps.closed \/ Left(ps) >= Need(ps)

Fail(ps, why) == [ps EXCEPT !.mode = "fail", !.err = why]
Advance(ps, k) == [ps EXCEPT !.pos = @ + k]

---------------------------------------------------------------------------
(* Fragment headers: "@@ -a,b +c,d @@ comment" *)

ParseRange(s) ==
  LET c == Index(s, ",", 1)
      p == Dec63(IF c = 0 THEN s ELSE UpTo(s, c - 1))
      n == IF c = 0 THEN "1" ELSE Dec63(From(s, c + 1))
  IN [ok |-> p # "" /\ n # "", pos |-> p, n |-> n]

IsFragLine(l) == HasPrefix(l, "@@ -")
FragHeader(l) ==
  LET e == Index(l, " @@", 1) IN
  IF e = 0 \/ e < 5 THEN [ok |-> FALSE, frag |-> NoFrag]
  ELSE LET h == SubSeq(l, 5, e - 1)
           s == Index(h, " +", 1)
       IN IF s = 0 \/ Index(h, " +", s + 2) # 0 THEN [ok |-> FALSE, frag |-> NoFrag]
          ELSE LET o == ParseRange(UpTo(h, s - 1))
                   n == ParseRange(From(h, s + 2))
               IN IF ~o.ok \/ ~n.ok THEN [ok |-> FALSE, frag |-> NoFrag]
                  ELSE [ok |-> TRUE,
                        frag |-> [NoFrag EXCEPT !.comment = TrimSpace(From(l, e + 3)),
                                  !.opos = o.pos, !.olines = o.n, !.npos = n.pos, !.nlines = n.n]]

---------------------------------------------------------------------------
(* mode "seek": looking for the next file header *)

IsOrphan(ps) == IsFragLine(Cur(ps, 0)) /\ FragHeader(Cur(ps, 0)).ok
IsGitLine(ps) == HasPrefix(Cur(ps, 0), "diff --git ")
IsTraditional(ps) ==
  /\ HasPrefix(Cur(ps, 0), "--- ") /\ HasPrefix(Cur(ps, 1), "+++ ")
  /\ Len(Cur(ps, 2)) >= 12 /\ IsFragLine(Cur(ps, 2))

SeekEnd(ps) == [ps EXCEPT !.mode = "done"]
SeekOrphan(ps) == Fail(ps, "orphan")
SeekSkip(ps) == [Advance(ps, 1) EXCEPT !.pre = IF ps.files = <<>> THEN @ + 1 ELSE @]

SeekGit(ps) ==
  LET d == GitLineName(From(Cur(ps, 0), 12)) IN
  IF ~d.ok THEN Fail(ps, "name")
  ELSE [Advance(ps, 1) EXCEPT !.mode = "header", !.file = EmptyFile, !.default = d.name, !.line = ps.pos]

(* "... <tab> time stamp" at the Unix epoch; zone may contain a colon *)
EpochDays == {"1969-12-31", "1970-01-01", "1970-01-02"}
TwoDigits(s) == DigitVal(Ch(s, 1)) * 10 + DigitVal(Ch(s, 2))
IsEpoch(l) ==
  LET t == Index(l, "\t", 1)
      raw == TrimSuffix(From(l, t + 1), "\n")
      n == Len(raw)
      ts == IF n >= 3 /\ Ch(raw, n - 2) = ":" THEN UpTo(raw, n - 3) \o From(raw, n - 1) ELSE raw
      m == Len(ts)
      zone == From(ts, m - 4)                         \* "+hhmm"
      day == UpTo(ts, 10)
      clock == SubSeq(ts, 12, 19)                     \* "hh:mm:ss"
      frac == SubSeq(ts, 20, m - 6)                   \* "" or ".ddd"
  IN /\ t # 0 /\ m >= 25
     /\ day \in EpochDays /\ Ch(ts, 11) = " " /\ Ch(ts, m - 5) = " "
     /\ Ch(clock, 3) = ":" /\ Ch(clock, 6) = ":"
     /\ AllIn(UpTo(clock, 2) \o SubSeq(clock, 4, 5) \o SubSeq(clock, 7, 8), Digits)
     /\ Ch(zone, 1) \in {"+", "-"} /\ AllIn(From(zone, 2), Digits)
     /\ \/ frac = ""
        \/ /\ Len(frac) >= 2 /\ Ch(frac, 1) = "." /\ AllIn(From(frac, 2), {"0"})
     /\ LET hh == TwoDigits(UpTo(clock, 2)) mm == TwoDigits(SubSeq(clock, 4, 5))
            ss == TwoDigits(SubSeq(clock, 7, 8))
            off == (IF Ch(zone, 1) = "-" THEN -1 ELSE 1)
                   * (TwoDigits(SubSeq(zone, 2, 3)) * 3600 + TwoDigits(SubSeq(zone, 4, 5)) * 60)
            base == CASE day = "1969-12-31" -> -86400 [] day = "1970-01-01" -> 0 [] OTHER -> 86400
        IN /\ hh < 24 /\ mm < 60 /\ ss < 60
           /\ TwoDigits(SubSeq(zone, 2, 3)) <= 24 /\ TwoDigits(SubSeq(zone, 4, 5)) < 60
           /\ base + hh * 3600 + mm * 60 + ss = off

SeekTraditional(ps) ==
  LET ol == Cur(ps, 0)
      nl == Cur(ps, 1)
      o == ParseName(From(ol, 5), {"\t"}, 0)
      n == ParseName(From(nl, 5), {"\t"}, 0)
      one == IF HasPrefix(n.name, o.name) THEN o.name ELSE n.name
      f == IF o.name = DevNull \/ IsEpoch(ol)
           THEN [EmptyFile EXCEPT !.isNew = TRUE, !.new = n.name]
           ELSE IF n.name = DevNull \/ IsEpoch(nl)
           THEN [EmptyFile EXCEPT !.isDel = TRUE, !.old = o.name]
           ELSE [EmptyFile EXCEPT !.old = one, !.new = one]
  IN IF ~o.ok THEN Fail(ps, "name")
     ELSE IF ~n.ok THEN Fail(Advance(ps, 1), "name")
     ELSE [Advance(ps, 2) EXCEPT !.mode = "frags", !.file = f]

SeekStep(ps) ==
  CASE Cur(ps, 0) = "" -> SeekEnd(ps)
    [] IsOrphan(ps) -> SeekOrphan(ps)
    [] IsFragLine(Cur(ps, 0)) -> SeekSkip(ps)
    [] IsGitLine(ps) -> SeekGit(ps)
    [] IsTraditional(ps) -> SeekTraditional(ps)
    [] OTHER -> SeekSkip(ps)

---------------------------------------------------------------------------
(* mode "header": git extended header lines *)

HeaderKinds ==
  <<"@@ -", "--- ", "+++ ", "old mode ", "new mode ", "deleted file mode ", "new file mode ",
    "copy from ", "copy to ", "rename old ", "rename new ", "rename from ", "rename to ",
    "similarity index ", "dissimilarity index ", "index ">>
KindOf(l) ==
  IF \E i \in 1..Len(HeaderKinds) : HasPrefix(l, HeaderKinds[i])
  THEN HeaderKinds[CHOOSE i \in 1..Len(HeaderKinds) : HasPrefix(l, HeaderKinds[i])]
  ELSE ""

(* a header step returns the updated file, or ok = FALSE *)
Ok(f) == [ok |-> TRUE, file |-> f]
NotOk(f) == [ok |-> FALSE, file |-> f]

(* a "---" or "+++" name either sets the name or has to agree with it *)
SideName(f, v, have, isNull, set(_)) ==
  LET r == ParseName(v, {"\t"}, 1) IN
  IF ~r.ok THEN NotOk(f)
  ELSE IF have = "" /\ ~isNull THEN Ok(set(r.name))
  ELSE IF have # "" /\ (isNull \/ have # r.name) THEN NotOk(f)
  ELSE IF isNull /\ r.name # DevNull THEN NotOk(f)
  ELSE Ok(f)
HdrOldName(f, v) == SideName(f, v, f.old, f.isNew, LAMBDA x : [f EXCEPT !.old = x])
HdrNewName(f, v) == SideName(f, v, f.new, f.isDel, LAMBDA x : [f EXCEPT !.new = x])

HdrOldMode(f, v) == LET m == Oct31(TrimSpace(v)) IN
  IF m < 0 THEN NotOk(f) ELSE Ok([f EXCEPT !.omode = m])
HdrNewMode(f, v) == LET m == Oct31(TrimSpace(v)) IN
  IF m < 0 THEN NotOk(f) ELSE Ok([f EXCEPT !.nmode = m])
HdrDeleted(f, v, d) == HdrOldMode([f EXCEPT !.isDel = TRUE, !.old = d], v)
HdrCreated(f, v, d) == HdrNewMode([f EXCEPT !.isNew = TRUE, !.new = d], v)

FullName(f, v, set(_)) == LET r == ParseName(v, {}, 0) IN
  IF r.ok THEN Ok(set(r.name)) ELSE NotOk(f)
HdrCopyFrom(f, v) == FullName(f, v, LAMBDA x : [f EXCEPT !.isCopy = TRUE, !.old = x])
HdrCopyTo(f, v) == FullName(f, v, LAMBDA x : [f EXCEPT !.isCopy = TRUE, !.new = x])
HdrRenameFrom(f, v) == FullName(f, v, LAMBDA x : [f EXCEPT !.isRen = TRUE, !.old = x])
HdrRenameTo(f, v) == FullName(f, v, LAMBDA x : [f EXCEPT !.isRen = TRUE, !.new = x])

(* a 32-bit number; out of range scores are ignored *)
HdrScore(f, v) ==
  LET s == TrimSuffix(v, "%")
      d == Unsigned(s)
      neg == s # "" /\ Ch(s, 1) = "-"
      c == StripZeros(d)
  IN IF d = "" \/ ~AllIn(d, Digits) THEN NotOk(f)
     ELSE IF DecLess(IF neg THEN "2147483648" ELSE "2147483647", c) THEN NotOk(f)
     ELSE IF (neg /\ c # "0") \/ ToInt(c) > 100 THEN Ok(f)
     ELSE Ok([f EXCEPT !.score = ToInt(c)])

HdrIndex(f, v) ==
  LET sp == Index(v, " ", 1)
      ids == IF sp = 0 THEN v ELSE UpTo(v, sp - 1)
      dots == Index(ids, "..", 1)
      g == [f EXCEPT !.ooid = UpTo(ids, dots - 1), !.noid = From(ids, dots + 2)]
  IN IF dots = 0 THEN NotOk(f)
     ELSE IF sp = 0 THEN Ok(g) ELSE HdrOldMode(g, From(v, sp + 1))

HdrLine(f, kind, v, d) ==
  CASE kind = "--- " -> HdrOldName(f, v)
    [] kind = "+++ " -> HdrNewName(f, v)
    [] kind = "old mode " -> HdrOldMode(f, v)
    [] kind = "new mode " -> HdrNewMode(f, v)
    [] kind = "deleted file mode " -> HdrDeleted(f, v, d)
    [] kind = "new file mode " -> HdrCreated(f, v, d)
    [] kind = "copy from " -> HdrCopyFrom(f, v)
    [] kind = "copy to " -> HdrCopyTo(f, v)
    [] kind \in {"rename old ", "rename from "} -> HdrRenameFrom(f, v)
    [] kind \in {"rename new ", "rename to "} -> HdrRenameTo(f, v)
    [] kind \in {"similarity index ", "dissimilarity index "} -> HdrScore(f, v)
    [] kind = "index " -> HdrIndex(f, v)

(* the header is over: fall back to the default name and check completeness *)
HeaderEnd(ps) ==
  LET f == ps.file
      g == IF f.old = "" /\ f.new = ""
           THEN [f EXCEPT !.old = ps.default, !.new = ps.default] ELSE f
  IN IF \/ f.old = "" /\ f.new = "" /\ ps.default = ""
        \/ g.new = "" /\ ~g.isDel
        \/ g.old = "" /\ ~g.isNew
     THEN Fail(ps, "noname")
     ELSE [ps EXCEPT !.mode = "frags", !.file = g]

(* a file is at most one of created, deleted, copied and renamed *)
Contradicts(f) == Cardinality({o \in {"isNew", "isDel", "isCopy", "isRen"} : f[o]}) > 1

HeaderMeta(ps) ==
  LET l == TrimSuffix(Cur(ps, 0), "\n")
      k == KindOf(l)
      r == HdrLine(ps.file, k, From(l, Len(k) + 1), ps.default)
  IN IF r.ok /\ ~Contradicts(r.file)
     THEN [Advance(ps, 1) EXCEPT !.file = r.file] ELSE Fail(ps, "header")
HeaderIsOver(ps) == KindOf(TrimSuffix(Cur(ps, 0), "\n")) \in {"", "@@ -"}

HeaderStep(ps) == IF HeaderIsOver(ps) THEN HeaderEnd(ps) ELSE HeaderMeta(ps)

---------------------------------------------------------------------------
(* mode "frags": a text fragment, binary data, or the end of the file's part *)

CloseFile(ps) == [ps EXCEPT !.mode = "seek", !.files = Append(@, ps.file), !.file = EmptyFile]

FragOpen(ps) ==
  LET h == FragHeader(Cur(ps, 0)) IN
  IF ~h.ok THEN Fail(ps, "fragheader")
  ELSE IF ps.file.isNew /\ h.frag.olines # "0" THEN Fail(ps, "newfile")
  ELSE IF ps.file.isDel /\ h.frag.nlines # "0" THEN Fail(ps, "delfile")
  ELSE [Advance(ps, 1) EXCEPT !.mode = "chunk0", !.frag = h.frag, !.line = ps.pos,
          !.oleft = ToInt(h.frag.olines), !.nleft = ToInt(h.frag.nlines)]

IsDataMarker(l) == l = "GIT binary patch\n"
IsNoDataMarker(l) ==
  HasSuffix(l, " differ\n") /\ (HasPrefix(l, "Binary files ") \/ HasPrefix(l, "Files "))

FragsStep(ps) ==
  CASE IsFragLine(Cur(ps, 0)) -> FragOpen(ps)
    [] ps.file.frags # <<>> -> CloseFile(ps)
    [] IsDataMarker(Cur(ps, 0)) ->
         [Advance(ps, 1) EXCEPT !.mode = "binhdr", !.file.isBin = TRUE, !.which = 1]
    [] IsNoDataMarker(Cur(ps, 0)) -> CloseFile([Advance(ps, 1) EXCEPT !.file.isBin = TRUE])
    [] OTHER -> CloseFile(ps)

---------------------------------------------------------------------------
(* modes "chunk0", "chunk", "chunkend": the lines of a fragment *)

ChunkStart(ps) ==
  IF Cur(ps, 0) = "" THEN Fail(ps, "nocontent") ELSE [ps EXCEPT !.mode = "chunk"]

IsNoEol(l) == Len(l) >= 12 /\ HasPrefix(l, "\\ ")
DropEol(fr) == LET n == Len(fr.lines) IN
  IF n = 0 THEN fr ELSE [fr EXCEPT !.lines[n].text = TrimSuffix(@, "\n")]
AddLine(fr, op, text) == [fr EXCEPT !.lines = Append(@, [op |-> op, text |-> text])]

ChunkContext(ps, text) ==
  [Advance(ps, 1) EXCEPT
     !.oleft = @ - 1, !.nleft = @ - 1,
     !.frag = [AddLine(@, " ", text) EXCEPT
                 !.lead = IF ps.frag.added + ps.frag.deleted = 0 THEN @ + 1 ELSE @,
                 !.trail = IF ps.frag.added + ps.frag.deleted = 0 THEN @ ELSE @ + 1]]
ChunkDelete(ps, text) ==
  [Advance(ps, 1) EXCEPT !.oleft = @ - 1,
     !.frag = [AddLine(@, "-", text) EXCEPT !.deleted = @ + 1, !.trail = 0]]
ChunkAdd(ps, text) ==
  [Advance(ps, 1) EXCEPT !.nleft = @ - 1,
     !.frag = [AddLine(@, "+", text) EXCEPT !.added = @ + 1, !.trail = 0]]
ChunkMarker(ps) == [Advance(ps, 1) EXCEPT !.frag = DropEol(@)]
ChunkFull(ps) ==
  IF ps.oleft # 0 \/ ps.nleft # 0 THEN Fail(ps, "miscount")
  ELSE IF ps.frag.added + ps.frag.deleted = 0 THEN Fail(ps, "nochange")
  ELSE [ps EXCEPT !.mode = "chunkend"]

ChunkStep(ps) ==
  LET l == Cur(ps, 0)
      c == IF l = "" THEN "" ELSE Ch(l, 1)
  IN CASE ps.oleft <= 0 /\ ps.nleft <= 0 -> ChunkFull(ps)
       [] l = "" -> ChunkFull(ps)
       [] c = "\n" -> ChunkContext(ps, "\n")
       [] c = " " -> ChunkContext(ps, From(l, 2))
       [] c = "-" -> ChunkDelete(ps, From(l, 2))
       [] c = "+" -> ChunkAdd(ps, From(l, 2))
       [] c = "\\" /\ IsNoEol(l) -> ChunkMarker(ps)
       [] OTHER -> Fail(ps, "badline")

ChunkEnd(ps) ==
  LET q == IF IsNoEol(Cur(ps, 0)) THEN ChunkMarker(ps) ELSE ps
  IN [q EXCEPT !.mode = "frags", !.file.frags = Append(@, q.frag), !.frag = NoFrag]

---------------------------------------------------------------------------
(* modes "binhdr", "bindata": binary fragments *)

BinHeader(l) ==
  LET h == TrimSuffix(l, "\n")
      m == IF HasPrefix(h, "delta ") THEN "delta" ELSE IF HasPrefix(h, "literal ") THEN "literal" ELSE ""
      v == From(h, Len(m) + 2)
      d == Unsigned(v)
      size == IF v # "" /\ Ch(v, 1) = "-" THEN (IF Dec63(d) = "0" THEN "0" ELSE "") ELSE Dec63(d)
  IN [found |-> m # "", ok |-> size # "", bin |-> [method |-> m, size |-> size, data |-> <<>>]]

BinHeaderStep(ps) ==
  LET h == BinHeader(Cur(ps, 0)) IN
  IF ~h.found
  THEN IF ps.which = 1 THEN Fail(ps, "nodata") ELSE CloseFile(ps)
  ELSE IF ~h.ok THEN Fail(ps, "binsize")
  ELSE [Advance(ps, 1) EXCEPT !.mode = "bindata", !.bin = h.bin]

GoodDataLine(l) ==
  /\ Len(l) >= 7 /\ (Len(l) - 2) % 5 = 0
  /\ LET n == LenOfByte(Ch(l, 1))
         seq == SubSeq(l, 2, Len(l) - 1)
         most == (Len(seq) \div 5) * 4
     IN /\ n # 0 /\ n <= most /\ n >= most - 3
        /\ \A i \in 1..Len(seq) : Is85(Ch(seq, i))
        /\ AllFit85(seq)
BinLine(ps) ==
  LET l == Cur(ps, 0) IN
  [Advance(ps, 1) EXCEPT
     !.bin.data = @ \o Decode85(SubSeq(l, 2, Len(l) - 1), LenOfByte(Ch(l, 1)))]
BinEnd(ps) ==
  LET q == Advance(ps, 1) IN
  IF ps.which = 1 THEN [q EXCEPT !.mode = "binhdr", !.which = 2, !.file.bin = ps.bin]
  ELSE CloseFile([q EXCEPT !.file.rev = ps.bin])

(* a data line is only complete if another line follows it *)
BinDataStep(ps) ==
  LET l == Cur(ps, 0) IN
  CASE l = "\n" -> BinEnd(ps)
    [] GoodDataLine(l) -> BinLine(ps)
    [] OTHER -> Fail(ps, "bindata")

---------------------------------------------------------------------------
Step(ps) ==
  CASE ps.mode = "seek" -> SeekStep(ps)
    [] ps.mode = "header" -> HeaderStep(ps)
    [] ps.mode = "frags" -> FragsStep(ps)
    [] ps.mode = "chunk0" -> ChunkStart(ps)
    [] ps.mode = "chunk" -> ChunkStep(ps)
    [] ps.mode = "chunkend" -> ChunkEnd(ps)
    [] ps.mode = "binhdr" -> BinHeaderStep(ps)
    [] ps.mode = "bindata" -> BinDataStep(ps)

Finished(ps) == ps.mode \in {"done", "fail"}
RECURSIVE Run(_)
Run(ps) == IF Finished(ps) THEN ps ELSE Run(Step(ps))
Parse(lines) == Run(ParserStart(lines, TRUE))

(* The lines that an error may name: the first and the last of them.  A wrong     *)
(* line is named itself, missing ones as the one after the last; counts that do  *)
(* not match are the header's fault; what is wrong with a header or fragment as  *)
(* a whole may be noticed as late as at the line that ends it.                   *)
Blame(ps) ==
  CASE ps.mode # "fail" -> <<0, 0>>
    [] ps.err = "miscount" -> <<ps.line, ps.line>>
    [] ps.err \in {"noname", "nochange"} -> <<ps.line, ps.pos>>
    [] OTHER -> <<ps.pos, ps.pos>>
(* what a caller of the library sees *)
Result(ps) == [err |-> ps.mode = "fail", pre |-> ps.pre, files |-> ps.files, blame |-> Blame(ps)]

---------------------------------------------------------------------------
(* Properties of one machine state / one step *)

(* old, new, added, deleted, leading and trailing counts of a list of lines *)
Counts(ls) ==
  LET n == Len(ls)
      chg == {i \in 1..n : ls[i].op # " "}
      isOp(o) == Cardinality({i \in 1..n : ls[i].op = o})
      first == CHOOSE i \in chg : \A j \in chg : i <= j
      last == CHOOSE i \in chg : \A j \in chg : i >= j
  IN [old |-> isOp(" ") + isOp("-"), new |-> isOp(" ") + isOp("+"),
      added |-> isOp("+"), deleted |-> isOp("-"),
      lead |-> IF chg = {} THEN n ELSE first - 1,
      trail |-> IF chg = {} THEN 0 ELSE n - last]
FragConsistent(fr) ==
  LET c == Counts(fr.lines) IN
  /\ ToInt(fr.olines) = c.old /\ ToInt(fr.nlines) = c.new
  /\ fr.added = c.added /\ fr.deleted = c.deleted
  /\ fr.lead = c.lead /\ fr.trail = c.trail
  /\ c.added + c.deleted > 0

FilesConsistent(ps) ==
  \A i \in 1..Len(ps.files) :
    LET f == ps.files[i] IN
    /\ \A k \in 1..Len(f.frags) : FragConsistent(f.frags[k])
    /\ f.old # "" \/ f.isNew
    /\ f.new # "" \/ f.isDel
    /\ f.frags # <<>> => ~f.isBin
    /\ f.bin # NoBin => f.isBin
    /\ f.rev # NoBin => f.bin # NoBin
    /\ f.score \in 0..100 /\ f.omode >= 0 /\ f.nmode >= 0
(* an error names a line of the input or the one after its last, and what lies    *)
(* before that line is a patch, if perhaps one that ends too early               *)
Incomplete == {"miscount", "nocontent", "noname", "nodata", "bindata"}
BlameIsFirst(ps) == ps.mode = "fail" =>
  LET b == Blame(ps)
      q == Parse(UpTo(ps.lines, b[1] - 1))
  IN /\ 1 <= b[1] /\ b[1] <= b[2] /\ b[2] <= Len(ps.lines) + 1
     /\ q.mode = "done" \/ (q.err \in Incomplete /\ q.pos = b[1])
(* progress: every step consumes a line or moves to a later stage of the same line *)
Stage == [m \in {"chunkend", "chunk0", "chunk", "header", "bindata", "binhdr", "frags", "seek", "done", "fail"} |->
  CASE m = "chunk0" -> 1 [] m = "chunk" -> 2 [] m = "chunkend" -> 3 [] m = "header" -> 4
    [] m = "bindata" -> 4 [] m = "binhdr" -> 5 [] m = "frags" -> 6 [] m = "seek" -> 7 [] OTHER -> 8]
Progress(a, b) == b.pos > a.pos \/ (b.pos = a.pos /\ Stage[b.mode] > Stage[a.mode])
=============================================================================
