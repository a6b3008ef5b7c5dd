--------------------------- MODULE CommandMachine ---------------------------
(* The command line and runs divided into partitions (plumbing/cmdline.h, initialize.h).  Words are      *)
(* sequences of character codes.  np ranks; with -partitions n they are divided into n runs, each with   *)
(* its own directory, output, lattice and random numbers.                                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, FiniteSets, TLC

VARIABLES np,
          opt,       \* parsed command line: flag -> sequence of values
          bad,       \* the command line is malformed
          files,     \* sequence of <<path, value of the parameter in it>>
          parts,     \* number of partitions
          ended,     \* partitions which have stopped
          inputs,    \* how many input files each partition has opened
          sizes,     \* lattice of each partition, or <<>>
          written    \* sequence of <<path, token>>
cvars == <<np, opt, bad, files, parts, ended, inputs, sizes, written>>

(* ---- words ---- *)
Letter(c) == c \in 65..90 \/ c \in 97..122
IsFlag(w) == Len(w) >= 2 /\ w[1] = 45 /\ Letter(w[2])
Digit(c) == c \in 48..57
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
RECURSIVE Number(_, _)
Number(s, n) == IF s = <<>> THEN n ELSE Number(Tail(s), 10 * n + (s[1] - 48))
Body(w) == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w
IsInt(w) == AllDigits(Body(w)) /\ Len(Body(w)) <= 9
ToInt(w) == IF w[1] = 45 THEN -Number(Body(w), 0) ELSE Number(Body(w), 0)
\* decimal numbers, in thousandths
Dots(w) == {i \in 1..Len(w) : w[i] = 46}
IsDec(w) == LET b == Body(w) IN Cardinality(Dots(b)) <= 1 /\ AllDigits(SelectSeq(b, LAMBDA c : c # 46))
Dec(w) ==
  LET b == Body(w)
      p == IF Dots(b) = {} THEN Len(b) + 1 ELSE CHOOSE i \in Dots(b) : TRUE
      f == SubSeq(b, p + 1, Len(b))
      v == Number(SubSeq(b, 1, p - 1), 0) * 1000 +
           Number(f, 0) * (CASE Len(f) = 0 -> 1 [] Len(f) = 1 -> 100 [] Len(f) = 2 -> 10 [] OTHER -> 1)
  IN IF w[1] = 45 THEN -v ELSE v
\* s, m:s, h:m:s or d-h:m:s
Seps(w) == SelectSeq(w, LAMBDA c : ~Digit(c))
IsTime(w) == /\ Seps(w) \in {<<>>, <<58>>, <<58, 58>>, <<45, 58, 58>>}
             /\ w # <<>> /\ Digit(w[1]) /\ Digit(w[Len(w)])
             /\ \A i \in 1..(Len(w) - 1) : Digit(w[i]) \/ Digit(w[i + 1])

(* ---- flags ---- *)
P == <<45, 112>>
O == <<45, 111>>
I == <<45, 105>>
T == <<45, 116>>
Check == <<45, 99, 104, 101, 99, 107>>
Device == <<45, 100, 101, 118, 105, 99, 101>>
Partitions == <<45, 112, 97, 114, 116, 105, 116, 105, 111, 110, 115>>
\* how many values each appearance has, -1: any number
Builtin == <<<<P, 2>>, <<O, 1>>, <<I, 1>>, <<T, 1>>, <<Check, 1>>, <<Device, 1>>, <<Partitions, -1>>>>
Known(table) == {table[i][1] : i \in DOMAIN table}
Count(table, f) == (CHOOSE i \in DOMAIN table : table[i][1] = f)
Values(table, f) == table[Count(table, f)][2]

\* the words from position i on which are values
RECURSIVE Run(_, _)
Run(ws, i) == IF i > Len(ws) \/ IsFlag(ws[i]) THEN <<>> ELSE <<ws[i]>> \o Run(ws, i + 1)
RECURSIVE Parse(_, _, _, _)
Parse(ws, i, table, o) ==
  IF i > Len(ws) THEN [ok |-> TRUE, opt |-> o]
  ELSE IF ~IsFlag(ws[i]) \/ ws[i] \notin Known(table) THEN [ok |-> FALSE, opt |-> o]
  ELSE LET v == Run(ws, i + 1)
           n == Values(table, ws[i])
           k == CHOOSE k \in DOMAIN o : o[k].f = ws[i]
       IN IF n >= 0 /\ Len(v) # n THEN [ok |-> FALSE, opt |-> o]
          ELSE Parse(ws, i + 1 + Len(v), table, [o EXCEPT ![k].n = @ + 1, ![k].v = @ \o v])
None(table) == [k \in DOMAIN table |-> [f |-> table[k][1], n |-> 0, v |-> <<>>]]
NoOpt == [f |-> <<>>, n |-> 0, v |-> <<>>]
Opt(f) == IF \E k \in DOMAIN opt : opt[k].f = f THEN opt[CHOOSE k \in DOMAIN opt : opt[k].f = f] ELSE NoOpt
Given(f) == Opt(f).n > 0
Arg(f, i) == Opt(f).v[i]

Init == /\ np = 1 /\ opt = <<>> /\ bad = FALSE /\ files = <<>> /\ parts = 1 /\ ended = {}
        /\ inputs = <<0>> /\ sizes = << <<>> >> /\ written = <<>>

Has(o, f) == \E k \in DOMAIN o : o[k].f = f /\ o[k].n > 0
Vals(o, f) == o[CHOOSE k \in DOMAIN o : o[k].f = f].v
Start(n, ws, user, fs, nodirs) ==
  LET table == Builtin \o user
      p == Parse(ws, 1, table, None(table))
      o == p.opt
      pv == IF Has(o, Partitions) THEN Vals(o, Partitions) ELSE <<>>
      pok == Has(o, Partitions) => (pv # <<>> /\ IsInt(pv[1]) /\ ToInt(pv[1]) > 0 /\ (n % ToInt(pv[1])) = 0)
      q == IF Has(o, Partitions) /\ pok THEN ToInt(pv[1]) ELSE 1
  IN /\ np' = n /\ opt' = o /\ files' = fs /\ parts' = q
     /\ bad' = ~( /\ p.ok /\ pok
                  /\ (Has(o, T) => IsTime(Vals(o, T)[1]))
                  /\ (Has(o, Check) /\ n = 1 => IsInt(Vals(o, Check)[1]))
                  /\ (Has(o, O) /\ ~(n = 1 /\ Has(o, Check)) => (\A i \in DOMAIN nodirs : nodirs[i] # Vals(o, O)[1])) )
     /\ ended' = {} /\ inputs' = [i \in 1..q |-> 0] /\ sizes' = [i \in 1..q |-> <<>>] /\ written' = <<>>

(* ---- where things are ---- *)
Part(w) == (w * parts) \div np          \* partition of rank w of the whole run
Rank(w) == w % (np \div parts)
Nodes == np \div parts
Word(d) == IF d < 10 THEN <<48 + d>> ELSE <<48 + (d \div 10), 48 + (d % 10)>>
DirName(q) == IF parts = 1 THEN <<>>
              ELSE (IF Len(Opt(Partitions).v) > 1 THEN Arg(Partitions, 2)
                    ELSE <<112, 97, 114, 116, 105, 116, 105, 111, 110>>) \o Word(q)
Path(q, name) == IF parts = 1 THEN name ELSE DirName(q) \o <<47>> \o name
Checking == np = 1 /\ Given(Check)
\* output of rank r of partition q; <<>>: standard output
OutFile(q, r) == IF Given(O) /\ ~Checking THEN (IF r = 0 THEN Path(q, Arg(O, 1)) ELSE <<>>)
                 ELSE IF parts > 1 THEN Path(q, <<111, 117, 116, 112, 117, 116>>) ELSE <<>>

(* ---- steps: S is the set of partitions which do it; obs[w + 1] what rank w of the whole run saw ---- *)
End == <<-9999>>
Active(w, S) == Part(w) \in S /\ Part(w) \notin ended
\* every rank of the partitions in S sees F(q, r), or the partition q stops if ~Ok(q)
Sees(S, obs, Ok(_), F(_, _)) ==
  /\ ~bad
  /\ Len(obs) = np
  /\ \A w \in 0..(np - 1) :
       obs[w + 1] = IF Part(w) \notin S THEN <<>>
                    ELSE IF Part(w) \in ended \/ ~Ok(Part(w)) THEN End
                    ELSE F(Part(w), Rank(w))
  /\ ended' = ended \cup {q \in S : ~Ok(q)}
Yes(q) == TRUE
Keep == UNCHANGED <<np, opt, bad, files, parts, inputs, sizes, written>>
Static == UNCHANGED <<np, opt, bad, files, parts>>

Conf(S, obs) == Keep /\ Sees(S, obs, Yes, LAMBDA q, r : <<parts, q, r, IF Checking THEN (IF ToInt(Arg(Check, 1)) <= 0 THEN 1 ELSE ToInt(Arg(Check, 1))) ELSE Nodes,
                                                         IF Checking THEN 1 ELSE 0>>)
Flat(ss) == FoldLeft(LAMBDA a, s : a \o <<Len(s)>> \o s, <<>>, ss)
Cwd(S, obs) == Keep /\ Sees(S, obs, Yes, LAMBDA q, r : Flat(<<IF parts = 1 THEN <<>> ELSE <<47>> \o DirName(q)>>))
Flag(S, f, obs) == Keep /\ Sees(S, obs, Yes, LAMBDA q, r : <<IF Given(f) THEN 1 ELSE 0, Len(Opt(f).v)>>)
KnownFlag(f) == \E k \in DOMAIN opt : opt[k].f = f
Vs(S, f, obs) == Keep /\ Sees(S, obs, LAMBDA q : KnownFlag(f), LAMBDA q, r : <<Len(Opt(f).v)>> \o Flat(Opt(f).v))
There(f, i) == i < Len(Opt(f).v)
IntOf(S, f, i, obs) == Keep /\ Sees(S, obs, LAMBDA q : There(f, i) /\ IsInt(Arg(f, i + 1)), LAMBDA q, r : <<ToInt(Arg(f, i + 1))>>)
DecOf(S, f, i, obs) == Keep /\ Sees(S, obs, LAMBDA q : There(f, i) /\ IsDec(Arg(f, i + 1)), LAMBDA q, r : <<Dec(Arg(f, i + 1))>>)
StrOf(S, f, i, obs) == Keep /\ Sees(S, obs, LAMBDA q : There(f, i), LAMBDA q, r : Flat(<<Arg(f, i + 1)>>))

\* output of rank 0, of all ranks, and a file
Running(S) == {q \in S : q \notin ended}
InOrder(W, F(_)) == [i \in 1..Cardinality(W) |-> F(SetToSortSeq(W, LAMBDA a, b : a < b)[i])]
Say(S, k, obs) ==
  /\ Static /\ Sees(S, obs, Yes, LAMBDA q, r : <<1>>) /\ UNCHANGED <<inputs, sizes>>
  /\ written' = written \o InOrder(Running(S), LAMBDA q : <<OutFile(q, 0), k>>)
SayAll(S, k, obs) ==
  /\ Static /\ Sees(S, obs, Yes, LAMBDA q, r : <<1>>) /\ UNCHANGED <<inputs, sizes>>
  /\ written' = written \o InOrder({w \in 0..(np - 1) : Active(w, S)}, LAMBDA w : <<OutFile(Part(w), Rank(w)), k>>)
Write(S, f, k, obs) ==
  /\ Static /\ Sees(S, obs, Yes, LAMBDA q, r : <<1>>) /\ UNCHANGED <<inputs, sizes>>
  /\ written' = written \o InOrder(Running(S), LAMBDA q : <<Path(q, f), k>>)

\* input files: the name on the command line replaces the first; looked up in the directory, then one above
Exists(p) == \E i \in DOMAIN files : files[i][1] = p
Holds(p) == files[CHOOSE i \in DOMAIN files : files[i][1] = p][2]
InName(q, f) == IF inputs[q + 1] = 0 /\ Given(I) THEN Arg(I, 1) ELSE f
Found(q, f) == Exists(Path(q, InName(q, f))) \/ Exists(InName(q, f))
Content(q, f) == IF Exists(Path(q, InName(q, f))) THEN Holds(Path(q, InName(q, f))) ELSE Holds(InName(q, f))
\* pairs given with -p: all must have been asked for when the first file is closed
Pairs == Len(Opt(P).v) \div 2
PKeys == {Opt(P).v[2 * i - 1] : i \in 1..Pairs}
PVal(key) == Opt(P).v[2 * (CHOOSE i \in 1..Pairs : Opt(P).v[2 * i - 1] = key /\ \A j \in 1..(i - 1) : Opt(P).v[2 * j - 1] # key)]
Overrides(q, key) == inputs[q + 1] = 0 /\ key \in PKeys
Input(S, f, key, obs) ==
  /\ Static
  /\ Sees(S, obs,
          LAMBDA q : /\ Found(q, f)
                     /\ (Overrides(q, key) => IsInt(PVal(key)))
                     /\ (inputs[q + 1] = 0 => (PKeys \subseteq {key} /\ Pairs = Cardinality(PKeys))),
          LAMBDA q, r : <<IF Overrides(q, key) THEN ToInt(PVal(key)) ELSE Content(q, f)>>)
  /\ inputs' = [i \in 1..parts |-> IF (i - 1) \in Running(S) THEN inputs[i] + 1 ELSE inputs[i]]
  /\ UNCHANGED <<sizes, written>>

\* a lattice for each partition; when only checking, the program ends here
Setup(S, sz, obs) ==
  /\ Static /\ Sees(S, obs, LAMBDA q : ~Checking, LAMBDA q, r : <<1>>)
  /\ sizes' = [i \in 1..parts |-> IF (i - 1) \in Running(S) THEN sz ELSE sizes[i]]
  /\ UNCHANGED <<inputs, written>>

(* ---- communication stays inside a partition ---- *)
Base(q) == 1000 * (q + 1)
Bcast(S, root, v, obs) == Keep /\ Sees(S, obs, Yes, LAMBDA q, r : <<Base(q) + v>>)
Sum(S, v, obs) == Keep /\ Sees(S, obs, Yes, LAMBDA q, r : <<Nodes * (Base(q) + v) + ((Nodes * (Nodes - 1)) \div 2)>>)
Send(S, v, obs) == Keep /\ Sees(S, obs, Yes, LAMBDA q, r : <<IF r = 0 /\ Nodes > 1 THEN Base(q) + v ELSE 0>>)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
\* every site holds v + x_d; sums over the sites of the neighbour's value and of that times x_d
SumX(L, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, [i \in 1..L |-> i - 1])
FieldSum(q, d, v) ==
  LET L == sizes[q + 1][d + 1]
      m == Prod(sizes[q + 1]) \div L
  IN <<m * SumX(L, LAMBDA x : Base(q) + v + ((x + 1) % L)),
       m * SumX(L, LAMBDA x : (Base(q) + v + ((x + 1) % L)) * x)>>
FieldOp(S, d, v, obs) == Keep /\ Sees(S, obs, Yes, LAMBDA q, r : FieldSum(q, d, v))
\* the same values; the largest and the smallest with their place, the sums for each x_d, the value of the last site,
\* then that of the first one and the last one after it was set, the number of sites with the smallest value, the sum
Together(q, r, d, v) ==
  LET L == sizes[q + 1][d + 1]
      m == Prod(sizes[q + 1]) \div L
      val(x) == Base(q) + v + x
  IN <<val(L - 1), L - 1, val(0), 0>> \o [x \in 1..L |-> m * val(x - 1)]
     \o <<val(L - 1), val(0), 7 + q, IF r = 0 THEN m ELSE 0, m * SumX(L, val) - val(L - 1) + 7 + q>>
Coll(S, d, v, obs) == Keep /\ Sees(S, obs, Yes, LAMBDA q, r : Together(q, r, d, v))
\* random numbers: different on every rank of the whole run
Seed(S, obs) ==
  /\ Keep /\ ~bad /\ Len(obs) = np /\ UNCHANGED ended
  /\ \A w \in 0..(np - 1) : IF Part(w) \notin S THEN obs[w + 1] = <<>>
                            ELSE IF Part(w) \in ended THEN obs[w + 1] = End
                            ELSE Len(obs[w + 1]) = 3 /\ \A i \in 1..3 : obs[w + 1][i] \in 0..1073741824
  /\ \A w, u \in {x \in 0..(np - 1) : Active(x, S)} : w # u => obs[w + 1] # obs[u + 1]
Fin(S, obs) == Keep /\ Sees(S, obs, LAMBDA q : FALSE, LAMBDA q, r : <<>>)

(* ---- what is on the disk at the end: obs is a sequence of <<path, tokens>> ---- *)
Tokens(p) == LET s == SelectSeq(written, LAMBDA x : x[1] = p) IN [i \in DOMAIN s |-> s[i][2]]
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Paths == {written[i][1] : i \in DOMAIN written}
\* files which exist without anything of ours in them: output files
Empty == {OutFile(Part(w), Rank(w)) : w \in 0..(np - 1)} \cup {<<>>}
Disk(obs) ==
  /\ UNCHANGED cvars
  /\ (~bad => ( /\ \A i \in DOMAIN obs : /\ obs[i].p \in Paths \cup Empty
                                         /\ Sorted(obs[i].k) = Sorted(Tokens(obs[i].p))
                /\ Paths \cup Empty \subseteq {obs[i].p : i \in DOMAIN obs} ))
=============================================================================
