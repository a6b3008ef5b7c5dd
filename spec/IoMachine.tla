----------------------------- MODULE IoMachine -----------------------------
(***************************************************************************)
(* Files of fields and configurations, and checkpoints.                     *)
(*                                                                           *)
(* Memory and files are sequences of 32 bit words.  A field is the words of  *)
(* its elements in lexicographic order of the sites, whatever the number of  *)
(* ranks and their division of the lattice; files live on from one run of    *)
(* the program (one number of ranks, one lattice) to the next.               *)
(*   fs[k]   fields: 0..2 of the type of the program, 3 and 4 of integers    *)
(*   gs[k]   gauge fields: one sequence of words per direction               *)
(*   files   on, txt (text: numbers per line), w words, tail: bytes left over*)
(*   inp     the open input: file, position, whether a read failed           *)
(*   stat    the status file of checkpoints                                  *)
(*   dead    the program has ended with a message                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES typ, lats, np, fs, gs, files, outp, inp, stat, rng, draws, dead
iovars == <<typ, lats, np, fs, gs, files, outp, inp, stat, rng, draws, dead>>

Big == 2147483647
RECURSIVE Prod(_, _)
Prod(s, k) == IF k = 0 THEN 1 ELSE s[k] * Prod(s, k - 1)
Vol(s) == Prod(s, Len(s))

---------------------------------------------------------------------------
(* numbers and words *)
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE Log2(_)
Log2(a) == IF a <= 1 THEN 0 ELSE 1 + Log2(a \div 2)
Abs(x) == IF x < 0 THEN -x ELSE x
Signed(x, w) == IF x < 0 THEN (w - Big) - 1 ELSE w

\* words of integers /= 0 as floating point numbers (IEEE 754, least significant word first)
Flt(x) == LET a == Abs(x) e == Log2(a)
          IN Signed(x, ((127 + e) * 8388608) + ((a - Pow2(e)) * Pow2(23 - e)))
DblHi(x) == LET a == Abs(x) e == Log2(a)
            IN Signed(x, ((1023 + e) * 1048576) + ((a - Pow2(e)) * Pow2(20 - e)))
UnFlt(w) == LET h == IF w < 0 THEN (w + Big) + 1 ELSE w
                e == (h \div 8388608) - 127
                a == Pow2(e) + ((h % 8388608) \div Pow2(23 - e))
            IN IF w < 0 THEN -a ELSE a
UnDbl(w) == LET h == IF w < 0 THEN (w + Big) + 1 ELSE w
                e == (h \div 1048576) - 1023
                a == Pow2(e) + ((h % 1048576) \div Pow2(20 - e))
            IN IF w < 0 THEN -a ELSE a

\* kind of the numbers and how many there are in an element
Kind(t) == CASE t = "int" -> "i" [] t \in {"dbl", "cpx"} -> "d" [] OTHER -> "f"
Comps(t) == CASE t \in {"int", "dbl"} -> 1 [] t = "cpx" -> 2 [] t = "v3f" -> 3 [] t = "m2c" -> 8
WpN(t) == IF Kind(t) = "d" THEN 2 ELSE 1        \* words per number
Wds(t) == Comps(t) * WpN(t)
Coef(i) == IF i % 2 = 1 THEN (-(i % 7)) - 1 ELSE (i % 5) + 1
NumWord(kind, x, half) ==
  CASE kind = "i" -> x
    [] kind = "f" -> Flt(x)
    [] kind = "d" -> IF half = 0 THEN 0 ELSE DblHi(x)
\* word j (from 0) of the element that stands for v
ElemWord(t, v, j) == NumWord(Kind(t), v * Coef(j \div WpN(t)), j % WpN(t))
\* number n (from 0) in the words w
NumberAt(t, w, n) ==
  CASE Kind(t) = "i" -> w[n + 1]
    [] Kind(t) = "f" -> UnFlt(w[n + 1])
    [] Kind(t) = "d" -> UnDbl(w[(2 * n) + 2])

\* x rounded to p digits (to even in a tie)
RECURSIVE Digits(_)
Digits(a) == IF a < 10 THEN 1 ELSE 1 + Digits(a \div 10)
RECURSIVE Pow10(_)
Pow10(k) == IF k <= 0 THEN 1 ELSE 10 * Pow10(k - 1)
RoundTo(x, p) ==
  LET a == Abs(x)
      u == Pow10(Digits(a) - p)
      q == a \div u
      rm == a % u
      up == IF 2 * rm > u THEN 1 ELSE IF 2 * rm < u THEN 0 ELSE q % 2
      b == (q + up) * u
  IN IF u = 1 THEN x ELSE IF x < 0 THEN -b ELSE b
Printed(t, x, p) == IF Kind(t) = "i" THEN x ELSE RoundTo(x, p)

---------------------------------------------------------------------------
NoField == [on |-> FALSE, sz |-> <<>>, w |-> <<>>]
NoGauge == [on |-> FALSE, sz |-> <<>>, d |-> <<>>]
NoFile == [on |-> FALSE, txt |-> FALSE, w |-> <<>>, tail |-> 0]
BinFile(w) == [on |-> TRUE, txt |-> FALSE, w |-> w, tail |-> 0]
TxtFile(w) == [on |-> TRUE, txt |-> TRUE, w |-> w, tail |-> 0]
NoInput == [f |-> -1, pos |-> 0, bad |-> FALSE]
NoStat == [on |-> FALSE, n |-> -1, tr |-> -1, id |-> 0]
Names == (0..5) \cup (10..15)

Lat == lats[Len(lats)]          \* the active lattice
FTyp(k) == IF k < 3 THEN typ ELSE "int"
ND == Len(lats[1])

Init ==
  /\ typ = "int" /\ lats = <<<<1>>>> /\ np = 1
  /\ fs = [k \in 0..4 |-> NoField] /\ gs = [k \in 0..1 |-> NoGauge]
  /\ files = [f \in Names |-> NoFile]
  /\ outp = -1 /\ inp = NoInput /\ stat = NoStat /\ rng = <<0, 0>> /\ draws = {} /\ dead = FALSE

\* a new program in an empty directory
Start(t, sz, n) ==
  /\ typ' = t /\ lats' = <<sz>> /\ np' = n
  /\ fs' = [k \in 0..4 |-> NoField] /\ gs' = [k \in 0..1 |-> NoGauge]
  /\ files' = [f \in Names |-> NoFile]
  /\ outp' = -1 /\ inp' = NoInput /\ stat' = NoStat /\ rng' = <<0, 0>> /\ draws' = {} /\ dead' = FALSE

\* another run of the program
Restart(t, sz, n) ==
  /\ typ' = t /\ lats' = <<sz>> /\ np' = n
  /\ fs' = [k \in 0..4 |-> NoField] /\ gs' = [k \in 0..1 |-> NoGauge]
  /\ outp' = -1 /\ inp' = NoInput /\ rng' = <<0, 0>> /\ dead' = FALSE
  /\ UNCHANGED <<files, stat, draws>>

Ended(obs) == obs = <<>> /\ dead' = TRUE
\* reading succeeds (obs <<1>>) exactly if ok
Outcome(ok, obs) == IF ok THEN obs = <<1>> /\ dead' = FALSE ELSE Ended(obs)

---------------------------------------------------------------------------
(* fields *)
FillWords(t, sz, a, b) ==
  LET m == Wds(t)
  IN [k \in 1..(Vol(sz) * m) |-> ElemWord(t, a + (b * ((k - 1) \div m)), (k - 1) % m)]

Set(k, a, b) ==
  /\ fs' = [fs EXCEPT ![k] = [on |-> TRUE, sz |-> Lat, w |-> FillWords(FTyp(k), Lat, a, b)]]
  /\ UNCHANGED <<typ, lats, np, gs, files, outp, inp, stat, rng, draws, dead>>
Clear(k) ==
  /\ fs' = [fs EXCEPT ![k] = NoField]
  /\ UNCHANGED <<typ, lats, np, gs, files, outp, inp, stat, rng, draws, dead>>
Dump(k, obs) == obs = fs[k].w /\ UNCHANGED iovars

\* site number (from 0) of the neighbour
NbrOf(sz, i, d) ==
  LET k == Abs(d)
      st == Prod(sz, k - 1)
      c == (i \div st) % sz[k]
      n == (c + (IF d > 0 THEN 1 ELSE sz[k] - 1)) % sz[k]
  IN i + ((n - c) * st)
Nbr(k, d, obs) ==
  LET m == Wds(FTyp(k)) F == fs[k]
  IN /\ obs = [j \in 1..Len(F.w) |-> F.w[(NbrOf(F.sz, (j - 1) \div m, d) * m) + ((j - 1) % m) + 1]]
     /\ UNCHANGED iovars

GSet(k, a, b) ==
  /\ gs' = [gs EXCEPT ![k] = [on |-> TRUE, sz |-> Lat,
                              d |-> [j \in 1..ND |-> FillWords(typ, Lat, a + ((j - 1) * b), b * ND)]]]
  /\ UNCHANGED <<typ, lats, np, fs, files, outp, inp, stat, rng, draws, dead>>
\* only if there is none
GNeed(k, a, b) == IF gs[k].on THEN UNCHANGED iovars ELSE GSet(k, a, b)
GClear(k) ==
  /\ gs' = [gs EXCEPT ![k] = NoGauge]
  /\ UNCHANGED <<typ, lats, np, fs, files, outp, inp, stat, rng, draws, dead>>
\* the words of all directions, one after the other
GWords(g) ==
  LET n == Len(g.d[1])
  IN IF ~g.on THEN <<>> ELSE [k \in 1..(n * Len(g.d)) |-> g.d[((k - 1) \div n) + 1][((k - 1) % n) + 1]]
GDump(k, obs) == obs = GWords(gs[k]) /\ UNCHANGED iovars

\* (whether the ranks allow it is told by LayoutMachine)
Block(v, obs) ==
  /\ obs \in {<<1>>, <<>>}
  /\ lats' = Append(lats, [k \in 1..ND |-> Lat[k] \div v[k]])
  /\ dead' = (obs = <<>>)
  /\ UNCHANGED <<typ, np, fs, gs, files, outp, inp, stat, rng, draws>>
Unblock ==
  /\ lats' = SubSeq(lats, 1, Len(lats) - 1)
  /\ UNCHANGED <<typ, np, fs, gs, files, outp, inp, stat, rng, draws, dead>>

---------------------------------------------------------------------------
(* writing *)
ToFile(f, c) ==
  /\ files' = [files EXCEPT ![f] = c]
  /\ UNCHANGED <<typ, lats, np, fs, gs, outp, inp, stat, rng, draws, dead>>

Write(k, f) == ToFile(f, BinFile(fs[k].w))
\* text: for each line the number of numbers, the numbers
Lines(t, w, p) ==
  LET m == Wds(t) c == Comps(t)
  IN [k \in 1..((Len(w) \div m) * (c + 1)) |->
        LET e == (k - 1) \div (c + 1)
            j == (k - 1) % (c + 1)
        IN IF j = 0 THEN c ELSE Printed(t, NumberAt(t, w, (e * c) + j - 1), p)]
WriteText(k, f, p) == ToFile(f, TxtFile(Lines(FTyp(k), fs[k].w, p)))

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
WriteFields(f, ks) == ToFile(f, BinFile(Concat([j \in 1..Len(ks) |-> fs[ks[j]].w])))

\* the box cmin..cmax of the lattice
BoxWords(k, cmin, cmax) ==
  LET F == fs[k]
      m == Wds(FTyp(k))
      ext == [d \in 1..ND |-> (cmax[d] - cmin[d]) + 1]
      RECURSIVE Site(_, _)
      Site(i, d) == IF d = 0 THEN 0
                    ELSE Site(i, d - 1) + (Prod(F.sz, d - 1) * (cmin[d] + ((i \div Prod(ext, d - 1)) % ext[d])))
      at == [i \in 0..(Prod(ext, ND) - 1) |-> Site(i, ND)]
  IN [j \in 1..(Prod(ext, ND) * m) |-> F.w[(at[(j - 1) \div m] * m) + ((j - 1) % m) + 1]]
Floats(t, w) == [j \in 1..(Len(w) \div WpN(t)) |-> IF Kind(t) = "f" THEN w[j] ELSE Flt(NumberAt(t, w, j - 1))]
BoxBinary(k, cmin, cmax, mode) ==
  IF mode = 2 THEN Floats(FTyp(k), BoxWords(k, cmin, cmax)) ELSE BoxWords(k, cmin, cmax)
\* mode: 0 text, 1 binary, 2 binary, converted to floats
Sub(k, f, cmin, cmax, mode, p) ==
  ToFile(f, IF mode = 0 THEN TxtFile(Lines(FTyp(k), BoxWords(k, cmin, cmax), p))
            ELSE BinFile(BoxBinary(k, cmin, cmax, mode)))
Slice(k, f, sl, mode, p) ==
  Sub(k, f, [d \in 1..ND |-> IF sl[d] < 0 THEN 0 ELSE sl[d]],
      [d \in 1..ND |-> IF sl[d] < 0 THEN fs[k].sz[d] - 1 ELSE sl[d]], mode, p)

\* streams
OpenOut(f) ==
  /\ files' = [files EXCEPT ![f] = BinFile(<<>>)] /\ outp' = f
  /\ UNCHANGED <<typ, lats, np, fs, gs, inp, stat, rng, draws, dead>>
Put(w) == ToFile(outp, BinFile(files[outp].w \o w))
PutField(k) == Put(fs[k].w)
PutGauge(k) == Put(GWords(gs[k]))
PutBox(k, cmin, cmax, mode) == Put(BoxBinary(k, cmin, cmax, mode))
CloseOut ==
  /\ outp' = -1
  /\ UNCHANGED <<typ, lats, np, fs, gs, files, inp, stat, rng, draws, dead>>

---------------------------------------------------------------------------
(* reading *)
\* a field of size sz out of the words of a lattice of size src, which divides it: the source is repeated
Repeated(w, m, src, sz) ==
  LET RECURSIVE From(_, _)
      From(i, d) == IF d = 0 THEN 0
                    ELSE From(i, d - 1) + (Prod(src, d - 1) * (((i \div Prod(sz, d - 1)) % sz[d]) % src[d]))
      at == [i \in 0..(Vol(sz) - 1) |-> From(i, Len(sz))]
  IN [j \in 1..(Vol(sz) * m) |-> w[(at[(j - 1) \div m] * m) + ((j - 1) % m) + 1]]
Size(F) == IF F.on THEN F.sz ELSE Lat       \* a field which does not exist is made on the active lattice
Left(f, pos) == Len(files[f].w) - pos

Read(k, f, obs) ==
  LET sz == Size(fs[k])
      n == Vol(sz) * Wds(FTyp(k))
      ok == files[f].on /\ Left(f, 0) >= n
  IN /\ Outcome(ok, obs)
     /\ fs' = IF ok THEN [fs EXCEPT ![k] = [on |-> TRUE, sz |-> sz, w |-> SubSeq(files[f].w, 1, n)]] ELSE fs
     /\ UNCHANGED <<typ, lats, np, gs, files, outp, inp, stat, rng, draws>>

ReadFields(f, ks, obs) ==
  LET n == [j \in 1..Len(ks) |-> Vol(Size(fs[ks[j]])) * Wds(FTyp(ks[j]))]
      RECURSIVE Before(_)
      Before(j) == IF j = 1 THEN 0 ELSE Before(j - 1) + n[j - 1]
      ok == files[f].on /\ Left(f, 0) >= Before(Len(ks)) + n[Len(ks)]
      Field(k) == LET j == CHOOSE i \in 1..Len(ks) : ks[i] = k
                  IN [on |-> TRUE, sz |-> Size(fs[k]), w |-> SubSeq(files[f].w, Before(j) + 1, Before(j) + n[j])]
  IN /\ Outcome(ok, obs)
     /\ fs' = IF ok THEN [k \in 0..4 |-> IF \E i \in 1..Len(ks) : ks[i] = k THEN Field(k) ELSE fs[k]] ELSE fs
     /\ UNCHANGED <<typ, lats, np, gs, files, outp, inp, stat, rng, draws>>

OpenIn(f, obs) ==
  /\ Outcome(files[f].on, obs)
  /\ inp' = [f |-> f, pos |-> 0, bad |-> FALSE]
  /\ UNCHANGED <<typ, lats, np, fs, gs, files, outp, stat, rng, draws>>
\* n words from the open file
Take(n) == [inp EXCEPT !.pos = inp.pos + n, !.bad = inp.bad \/ Left(inp.f, inp.pos) < n]
Taken(off, n) == SubSeq(files[inp.f].w, inp.pos + off + 1, inp.pos + off + n)
GetField(k) ==
  LET sz == Size(fs[k]) n == Vol(sz) * Wds(FTyp(k))
  IN /\ inp' = Take(n)
     /\ fs' = [fs EXCEPT ![k] = [on |-> TRUE, sz |-> sz, w |-> IF inp'.bad THEN <<>> ELSE Taken(0, n)]]
     /\ UNCHANGED <<typ, lats, np, gs, files, outp, stat, rng, draws, dead>>
\* a field of another size
GetSized(k, src) ==
  LET sz == Size(fs[k]) m == Wds(FTyp(k)) n == Vol(src) * m
  IN /\ inp' = Take(n)
     /\ fs' = [fs EXCEPT ![k] = [on |-> TRUE, sz |-> sz,
                                 w |-> IF inp'.bad THEN <<>> ELSE Repeated(Taken(0, n), m, src, sz)]]
     /\ UNCHANGED <<typ, lats, np, gs, files, outp, stat, rng, draws, dead>>
GSize(k) == IF gs[k].on THEN gs[k].sz ELSE Lat
GetGauge(k) ==
  LET sz == GSize(k) n == Vol(sz) * Wds(typ)
  IN /\ inp' = Take(n * ND)
     /\ gs' = [gs EXCEPT ![k] = [on |-> TRUE, sz |-> sz,
                                 d |-> [j \in 1..ND |-> IF inp'.bad THEN <<>> ELSE Taken((j - 1) * n, n)]]]
     /\ UNCHANGED <<typ, lats, np, fs, files, outp, stat, rng, draws, dead>>
CloseIn(obs) ==
  /\ Outcome(~inp.bad, obs)
  /\ inp' = NoInput
  /\ UNCHANGED <<typ, lats, np, fs, gs, files, outp, stat, rng, draws>>

---------------------------------------------------------------------------
(* gauge configurations *)
Flag == 394824242
Header(sz) == <<Flag, 0, ND, 0, 4 * Wds(typ), 0>> \o [k \in 1..(2 * ND) |-> IF k % 2 = 1 THEN sz[(k + 1) \div 2] ELSE 0]
Config(k) == Header(gs[k].sz) \o GWords(gs[k])
HLen == 6 + (2 * ND)

\* the sizes in the header, if the configuration can be loaded into lattice sz
HSize(w) == [d \in 1..ND |-> w[5 + (2 * d)]]
Loadable(c, sz) ==
  /\ c.on /\ ~c.txt
  /\ IF Len(c.w) < HLen THEN FALSE ELSE
     /\ \A j \in 1..6 : c.w[j] = Header(sz)[j]
     /\ \A d \in 1..ND : /\ c.w[6 + (2 * d)] = 0
                         /\ HSize(c.w)[d] \in 1..sz[d]
                         /\ sz[d] % HSize(c.w)[d] = 0
     /\ Len(c.w) >= HLen + (ND * Vol(HSize(c.w)) * Wds(typ))
Loaded(c, sz) ==
  LET src == HSize(c.w) m == Wds(typ) n == Vol(src) * m
  IN [on |-> TRUE, sz |-> sz,
      d |-> [j \in 1..ND |-> Repeated(SubSeq(c.w, HLen + ((j - 1) * n) + 1, HLen + (j * n)), m, src, sz)]]

GWrite(k, f) == ToFile(f, BinFile(GWords(gs[k])))
GRead(k, f, obs) ==
  LET sz == GSize(k) n == Vol(sz) * Wds(typ)
      ok == files[f].on /\ Left(f, 0) >= ND * n
  IN /\ Outcome(ok, obs)
     /\ gs' = IF ok THEN [gs EXCEPT ![k] = [on |-> TRUE, sz |-> sz,
                                            d |-> [j \in 1..ND |-> SubSeq(files[f].w, ((j - 1) * n) + 1, j * n)]]]
              ELSE gs
     /\ UNCHANGED <<typ, lats, np, fs, files, outp, inp, stat, rng, draws>>
CWrite(k, f) == ToFile(f, BinFile(Config(k)))
CRead(k, f, obs) ==
  LET sz == GSize(k) ok == Loadable(files[f], sz)
  IN /\ Outcome(ok, obs)
     /\ gs' = IF ok THEN [gs EXCEPT ![k] = Loaded(files[f], sz)] ELSE gs
     /\ UNCHANGED <<typ, lats, np, fs, files, outp, inp, stat, rng, draws>>

---------------------------------------------------------------------------
(* the files as others see them, and what others do to them *)
Content(c) == IF ~c.on THEN <<-1>> ELSE <<(4 * Len(c.w)) + c.tail>> \o c.w
Bytes(f, obs) == obs = Content(files[f]) /\ UNCHANGED iovars
Text(f, obs) == obs = (IF files[f].on THEN files[f].w ELSE <<-1>>) /\ UNCHANGED iovars
Truncate(f, n) == ToFile(f, [files[f] EXCEPT !.w = SubSeq(@, 1, n \div 4), !.tail = n % 4])
Poke(f, i, v) == ToFile(f, [files[f] EXCEPT !.w[i + 1] = v])
Rename(f, g) ==
  /\ files' = IF files[f].on THEN [files EXCEPT ![g] = files[f], ![f] = NoFile] ELSE files
  /\ UNCHANGED <<typ, lats, np, fs, gs, outp, inp, stat, rng, draws, dead>>
Delete(f) == ToFile(f, NoFile)

---------------------------------------------------------------------------
(* checkpoints *)
\* a crash may leave parts of the status file
StatOk == stat.n >= 0 /\ stat.tr >= 0 /\ stat.id > 0
Prev(f) == f + 10
Saved(f, k, keep) ==
  [x \in Names |-> IF x = f THEN BinFile(Config(k))
                   ELSE IF x = Prev(f) /\ keep /\ files[f].on THEN files[f] ELSE files[x]]
Checkpoint(k, f, n, tr, keep, obs) ==
  LET m == IF stat.on THEN stat.n ELSE n
      ok == stat.on => stat.n >= 0
  IN /\ IF ok THEN obs = <<m>> /\ dead' = FALSE ELSE Ended(obs)
     /\ files' = Saved(f, k, keep)
     /\ stat' = IF ok THEN [on |-> TRUE, n |-> m, tr |-> tr + 1, id |-> stat.id + 1] ELSE stat
     /\ rng' = <<0, 0>>
     /\ draws' = {x \in draws : x.id /= stat.id + 1}
     /\ UNCHANGED <<typ, lats, np, fs, gs, outp, inp>>

\* what is on the disk after a crash, c and p: contents of the file and of the one before, s: status file
\* (s = <<there, trajectories, trajectory, seed there>>, -1: missing)
Complete(c, new, old) == c = Content(BinFile(new)) \/ (old.on /\ c = Content(old))
FileOf(c) == IF c = <<-1>> THEN NoFile ELSE [on |-> TRUE, txt |-> FALSE, w |-> Tail(c), tail |-> c[1] % 4]
Crash(k, f, n, tr, keep, c, p, s) ==
  LET old == files[f]
      m == IF stat.on THEN stat.n ELSE n
  IN /\ (keep /\ old.on) => (Complete(c, Config(k), old) \/ Complete(p, Config(k), old))
     /\ (p = Content(files[Prev(f)]) \/ (keep /\ old.on /\ p = Content(old)))
        \* nothing but the old and the new content, and beginnings of the new one
     /\ \/ c = Content(old)
        \/ c = <<-1>>
        \/ LET q == Tail(c) IN Len(q) <= Len(Config(k)) /\ q = SubSeq(Config(k), 1, Len(q))
     /\ s[2] \in {-1, m, stat.n} /\ s[3] \in {-1, tr + 1, stat.tr}
     /\ files' = [files EXCEPT ![f] = FileOf(c), ![Prev(f)] = FileOf(p)]
     /\ stat' = [on |-> s[1] = 1, n |-> s[2], tr |-> s[3], id |-> IF s[4] = 0 THEN 0
                                                               ELSE IF s[3] = stat.tr /\ s[2] = stat.n THEN stat.id
                                                               ELSE stat.id + 1]
     /\ dead' = TRUE
     /\ UNCHANGED <<typ, lats, np, fs, gs, outp, inp, rng, draws>>

\* returns ok, the number of trajectories, the next trajectory
Restore(k, f, n, obs) ==
  LET sz == GSize(k)
      load == stat.on \/ files[f].on
      ok == (stat.on => StatOk) /\ (load => Loadable(files[f], sz))
  IN /\ IF ~ok THEN Ended(obs)
        ELSE /\ dead' = FALSE
             /\ obs = IF stat.on THEN <<1, stat.n, stat.tr>>
                      ELSE IF load THEN <<1, n, -1>> ELSE <<0, n, -1>>
     /\ gs' = IF ok /\ load THEN [gs EXCEPT ![k] = Loaded(files[f], sz)] ELSE gs
     /\ rng' = IF ok /\ stat.on THEN <<stat.id, 0>> ELSE rng
     /\ UNCHANGED <<typ, lats, np, fs, files, outp, inp, stat, draws>>

Status(obs) ==
  /\ obs = (IF stat.on THEN <<1>> \o (IF stat.n >= 0 THEN <<stat.n>> ELSE <<>>) \o
                            (IF stat.tr >= 0 THEN <<stat.tr>> ELSE <<>>) ELSE <<0>>)
  /\ UNCHANGED iovars
\* the user changes the number of trajectories / deletes the status file
Edit(n) ==
  /\ stat' = IF stat.on /\ stat.n >= 0 THEN [stat EXCEPT !.n = n] ELSE stat
  /\ UNCHANGED <<typ, lats, np, fs, gs, files, outp, inp, rng, draws, dead>>
DeleteStatus ==
  /\ stat' = [stat EXCEPT !.on = FALSE, !.n = -1, !.tr = -1]
  /\ UNCHANGED <<typ, lats, np, fs, gs, files, outp, inp, rng, draws, dead>>

\* random numbers: known are those drawn after the same checkpoint was restored, on as many ranks
Seed ==
  /\ rng' = <<0, 0>>
  /\ UNCHANGED <<typ, lats, np, fs, gs, files, outp, inp, stat, draws, dead>>
Draw(obs) ==
  LET k == [id |-> rng[1], np |-> np, n |-> rng[2]]
      known == {x \in draws : x.id = k.id /\ x.np = k.np /\ x.n = k.n}
  IN /\ \A i \in 1..Len(obs) : obs[i][1] \in 0..999999999
     /\ \A i, j \in 1..Len(obs) : i /= j => obs[i] /= obs[j]
     /\ Len(obs) = np
     /\ \A x \in known : x.v = obs
     /\ draws' = IF k.id = 0 THEN draws ELSE draws \cup {[id |-> k.id, np |-> np, n |-> k.n, v |-> obs]}
     /\ rng' = <<rng[1], rng[2] + 1>>
     /\ UNCHANGED <<typ, lats, np, fs, gs, files, outp, inp, stat, dead>>
=============================================================================
