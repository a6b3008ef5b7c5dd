---------------------------- MODULE InputMachine ----------------------------
(* Parameter files (plumbing/input.h).  A file is a sequence of character codes.  Reading walks through *)
(* it: rest is what has not been read yet, comments removed.                                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC

VARIABLES files,     \* file number -> text, or Missing
          isopen, rest, lost,      \* lost: after a value of the wrong type, the position, and so what is read, is not specified
          count,     \* files opened so far
          fileno,    \* which of these is the one being read
          over,      \* values given on the command line: sequence of [key, val, used]
          ifile,     \* file given on the command line instead of the first one, or -1
          nd, ended
ivars == <<files, isopen, rest, lost, count, fileno, over, ifile, nd, ended>>

Missing == <<0>>
Ws == {9, 10, 11, 12, 13, 32}
LF == 10
Comma == 44
Quote == 34
From(t, i) == SubSeq(t, i, Len(t))

Init == /\ files = <<>> /\ isopen = FALSE /\ rest = <<>> /\ lost = FALSE /\ count = 0 /\ fileno = 0
        /\ over = <<>> /\ ifile = -1 /\ nd = 1 /\ ended = FALSE
Start(fs, ov, ifl, n) ==
  /\ files' = fs /\ isopen' = FALSE /\ rest' = <<>> /\ lost' = FALSE /\ count' = 0 /\ fileno' = 0
  /\ over' = [i \in 1..Len(ov) |-> [key |-> ov[i][1], val |-> ov[i][2], used |-> FALSE]]
  /\ ifile' = ifl /\ nd' = n /\ ended' = FALSE

\* comments reach from # to the end of the line
StripStep(s, c) == IF c = LF THEN [out |-> Append(s.out, LF), com |-> FALSE]
                   ELSE IF s.com \/ c = 35 THEN [out |-> s.out, com |-> TRUE]
                   ELSE [out |-> Append(s.out, c), com |-> FALSE]
Strip(t) == FoldLeft(StripStep, [out |-> <<>>, com |-> FALSE], t).out

RECURSIVE Skip(_, _)
Skip(t, i) == IF i > Len(t) \/ t[i] \notin Ws THEN i ELSE Skip(t, i + 1)
SkipWs(t) == From(t, Skip(t, 1))
RECURSIVE TrimEnd(_)
TrimEnd(k) == IF k # <<>> /\ k[Len(k)] \in Ws THEN TrimEnd(SubSeq(k, 1, Len(k) - 1)) ELSE k
Trim(k) == TrimEnd(SkipWs(k))

(* ---- keys: words separated by blanks, all in one line; 0 or where the rest begins ---- *)
RECURSIVE SkipBlank(_, _)
SkipBlank(t, i) == IF i > Len(t) \/ t[i] \notin Ws \ {LF} THEN i ELSE SkipBlank(t, i + 1)
RECURSIVE MatchKey(_, _, _, _)
MatchKey(t, i, k, j) ==
  IF j > Len(k)
  THEN IF i > Len(t) THEN i
       ELSE IF t[i] \in Ws \/ t[i] = Comma \/ k[Len(k)] = Comma THEN i ELSE 0
  ELSE IF i > Len(t) THEN 0
  ELSE IF k[j] \in Ws THEN IF t[i] \in Ws \ {LF} THEN MatchKey(t, SkipBlank(t, i), k, Skip(k, j)) ELSE 0
  ELSE IF t[i] = k[j] THEN MatchKey(t, i + 1, k, j + 1) ELSE 0
\* the key at the beginning of t (no whitespace there): 0 or the position after it
KeyEnd(t, key) == IF Trim(key) = <<>> THEN 1 ELSE MatchKey(t, 1, Trim(key), 1)

(* ---- tokens ---- *)
RECURSIVE TokEnd(_, _, _)
TokEnd(t, i, q) ==       \* first position after the token; 0: quotes that do not pair
  IF i > Len(t) \/ t[i] = LF THEN IF q THEN 0 ELSE i
  ELSE IF ~q /\ (t[i] \in Ws \/ t[i] = Comma) THEN i
  ELSE TokEnd(t, i + 1, IF t[i] = Quote THEN ~q ELSE q)
NoTok == [ok |-> FALSE, stop |-> FALSE, s |-> <<>>, rest |-> <<>>]
Token(u) ==
  LET t == SkipWs(u)
      e == TokEnd(t, 1, FALSE)
  IN IF t = <<>> THEN NoTok
     ELSE IF t[1] = Comma THEN [ok |-> TRUE, stop |-> FALSE, s |-> <<Comma>>, rest |-> From(t, 2)]
     ELSE IF e = 0 THEN [NoTok EXCEPT !.stop = TRUE]
     ELSE [ok |-> TRUE, stop |-> FALSE, s |-> SubSeq(t, 1, e - 1), rest |-> From(t, e)]

(* ---- values of tokens ---- *)
Digit(c) == c \in 48..57
Bad == [ok |-> FALSE, v |-> 0]
RECURSIVE Digits(_, _)
Digits(s, n) == IF s = <<>> THEN n ELSE Digits(Tail(s), 10 * n + (s[1] - 48))
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
Signed(s) == s # <<>> /\ s[1] \in {43, 45}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
Sign(s) == IF Signed(s) /\ s[1] = 45 THEN -1 ELSE 1
IntVal(s, unsigned) ==
  IF ~AllDigits(Body(s)) \/ Len(Body(s)) > 9 \/ (unsigned /\ Sign(s) = -1) THEN Bad
  ELSE [ok |-> TRUE, v |-> Sign(s) * Digits(Body(s), 0)]
\* positions of a character
Where(s, C) == {i \in 1..Len(s) : s[i] \in C}
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE NoZeros(_)
NoZeros(s) == IF s # <<>> /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
\* decimal numbers, in thousandths; those of a million or more are TooBig
TooBig == -2000000001
RealVal(s) ==
  LET b  == Body(s)
      E  == Where(b, {69, 101})
      e  == IF E = {} THEN Len(b) + 1 ELSE CHOOSE i \in E : \A j \in E : i <= j
      m  == SubSeq(b, 1, e - 1)
      ex == IF E = {} THEN <<48>> ELSE From(b, e + 1)
      P  == Where(m, {46})
      p  == IF P = {} THEN Len(m) + 1 ELSE CHOOSE i \in P : \A j \in P : i <= j
      ip == SubSeq(m, 1, p - 1)
      fp == From(m, p + 1)
      x  == Sign(ex) * Digits(Body(ex), 0)
      n  == 3 - Len(fp) + x
      ds == NoZeros(ip \o fp)
      d  == Digits(ds, 0)
  IN IF AllDigits(ip \o fp) /\ AllDigits(Body(ex))
     THEN [ok |-> TRUE, v |-> IF Len(ds) + n > 9 THEN TooBig ELSE Sign(s) * (IF n >= 0 THEN d * Pow10(n) ELSE d \div Pow10(-n))]
     ELSE Bad
NumVal(ty, s) == IF ty \in {"i", "l"} THEN IntVal(s, FALSE) ELSE IF ty = "u" THEN IntVal(s, TRUE) ELSE RealVal(s)
Unquoted(s) == SelectSeq(s, LAMBDA c : c # Quote)

(* ---- values: [ok, stop, v, rest] ---- *)
Fail == [ok |-> FALSE, stop |-> FALSE, v |-> <<>>, rest |-> <<>>]
Stop == [Fail EXCEPT !.stop = TRUE]
One(ty, u) ==
  LET t == Token(u)
      n == NumVal(ty, t.s)
  IN IF t.stop THEN Stop
     ELSE IF ~t.ok THEN Fail
     ELSE IF ty = "s" THEN LET s == Unquoted(t.s) IN [ok |-> TRUE, stop |-> FALSE, v |-> <<Len(s)>> \o s, rest |-> t.rest]
     ELSE IF n.ok THEN [ok |-> TRUE, stop |-> FALSE, v |-> <<n.v>>, rest |-> t.rest] ELSE Fail
Is(u, c) == LET t == SkipWs(u) IN t # <<>> /\ t[1] = c
After(u) == Tail(SkipWs(u))
\* a number that may be followed by )
CutAt(s) == LET P == Where(s, {41}) IN IF P = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in P : \A j \in P : i <= j) - 1)
Part(u) ==
  LET t == Token(u)
      c == CutAt(t.s)
      n == RealVal(c)
  IN IF t.stop THEN Stop ELSE IF ~t.ok \/ ~n.ok THEN Fail
     ELSE [ok |-> TRUE, stop |-> FALSE, v |-> <<n.v>>, rest |-> From(SkipWs(u), Len(c) + 1)]
Cplx(u) ==
  IF ~Is(u, 40) THEN Fail
  ELSE LET a == Part(After(u))
       IN IF ~a.ok THEN a ELSE IF ~Is(a.rest, Comma) THEN Fail
          ELSE LET b == Part(After(a.rest))
               IN IF ~b.ok THEN b ELSE IF ~Is(b.rest, 41) THEN Fail
                  ELSE [ok |-> TRUE, stop |-> FALSE, v |-> a.v \o b.v, rest |-> After(b.rest)]
Elem(ty, u) == IF ty \in {"z", "c"} THEN Cplx(u) ELSE One(ty, u)
RECURSIVE Fixed(_, _, _), More(_, _, _)
Fixed(ty, n, u) ==       \* n of them, separated by commas
  LET a == Elem(ty, u)
  IN IF n = 1 \/ ~a.ok THEN a
     ELSE IF ~Is(a.rest, Comma) THEN Fail
     ELSE LET b == Fixed(ty, n - 1, After(a.rest)) IN [b EXCEPT !.v = a.v \o @]
More(ty, n, u) ==        \* as many as there are; v begins with their number
  LET a == Elem(ty, u)
  IN IF ~a.ok THEN a
     ELSE IF ~Is(a.rest, Comma) THEN [a EXCEPT !.v = <<n>> \o @]
     ELSE LET b == More(ty, n + 1, After(a.rest))
          IN IF b.ok THEN [b EXCEPT !.v = <<b.v[1]>> \o a.v \o Tail(@)] ELSE b

Value(ty, u) ==
  IF ty = "vi" THEN Fixed("i", 3, u)
  ELSE IF ty = "vd" THEN Fixed("d", 2, u)
  ELSE IF ty = "C" THEN Fixed("i", nd, u)
  ELSE IF ty = "li" THEN More("i", 1, u)
  ELSE IF ty = "ld" THEN More("d", 1, u)
  ELSE IF ty = "ls" THEN More("s", 1, u)
  ELSE IF ty = "lz" THEN More("z", 1, u)
  ELSE Elem(ty, u)

(* ---- the machine ---- *)
\* a value on the command line replaces what follows the key in its line
Overrides(key) == {i \in 1..Len(over) : fileno = 1 /\ ~over[i].used /\ over[i].key = key}
RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF i > Len(t) \/ t[i] = LF THEN i ELSE LineEnd(t, i + 1)
\* where the value begins, after the key: [ok, text, ov]
AtKey(key) ==
  LET t == SkipWs(rest)
      e == KeyEnd(t, key)
      O == Overrides(key)
      i == CHOOSE i \in O : \A j \in O : i <= j
  IN IF e = 0 THEN [ok |-> FALSE, text |-> t, ov |-> over]
     ELSE IF O = {} THEN [ok |-> TRUE, text |-> From(t, e), ov |-> over]
     ELSE [ok |-> TRUE, text |-> over[i].val \o From(t, LineEnd(t, e)), ov |-> [over EXCEPT ![i].used = TRUE]]

Keep == UNCHANGED <<files, isopen, count, fileno, ifile, nd>>
Live == ~ended /\ ~lost
Lost(obs) == /\ ~ended /\ lost /\ ended' = (obs = <<>>) /\ UNCHANGED <<rest, over, lost>> /\ Keep

\* must: a missing or wrong value stops the program
Read(ty, key, must, obs) ==
  /\ Live
  /\ LET k == AtKey(key)
         v == Value(ty, k.text)
     IN IF k.ok /\ v.ok
        THEN /\ obs = <<1>> \o v.v
             /\ rest' = v.rest /\ over' = k.ov /\ UNCHANGED <<lost, ended>> /\ Keep
        ELSE IF must \/ (k.ok /\ v.stop)
        THEN /\ obs = <<>> /\ ended' = TRUE /\ UNCHANGED <<rest, over, lost>> /\ Keep
        ELSE /\ obs = <<0>>
             /\ rest' = k.text /\ over' = k.ov /\ lost' = k.ok /\ UNCHANGED ended /\ Keep

RECURSIVE FirstItem(_, _, _, _)
FirstItem(its, i, s, t) ==
  IF i > Len(its) THEN 0
  ELSE IF \/ its[i] = <<37, 115>>                       \* %s
          \/ its[i] = <<37, 102>> /\ RealVal(s).ok      \* %f
          \/ its[i] = <<37, 105>> /\ IntVal(s, FALSE).ok   \* %i
          \/ KeyEnd(t, its[i]) # 0
       THEN i ELSE FirstItem(its, i + 1, s, t)
Special(it) == it \in {<<37, 115>>, <<37, 102>>, <<37, 105>>}
Item(key, its, must, obs) ==
  /\ Live
  /\ LET k == AtKey(key)
         tok == Token(k.text)
         t == SkipWs(k.text)
         i == IF k.ok /\ tok.ok THEN FirstItem(its, 1, tok.s, t) ELSE 0
     IN IF k.ok /\ tok.stop
        THEN /\ obs = <<>> /\ ended' = TRUE /\ UNCHANGED <<rest, over, lost>> /\ Keep
        ELSE IF i # 0
        THEN /\ obs = <<i - 1>>
             /\ rest' = IF Special(its[i]) THEN t ELSE From(t, KeyEnd(t, its[i]))
             /\ over' = k.ov /\ UNCHANGED <<lost, ended>> /\ Keep
        ELSE IF must
        THEN /\ obs = <<>> /\ ended' = TRUE /\ UNCHANGED <<rest, over, lost>> /\ Keep
        ELSE /\ obs = <<-1>>
             /\ rest' = k.text /\ over' = k.ov /\ lost' = k.ok /\ UNCHANGED ended /\ Keep

Open(f, must, obs) ==
  LET g == IF count = 0 /\ ifile >= 0 THEN ifile ELSE f
      good == ~isopen /\ files[g + 1] # Missing
  IN /\ ~ended
     /\ count' = count + 1 /\ fileno' = count + 1
     /\ IF good
        THEN /\ obs = <<1>> /\ isopen' = TRUE /\ rest' = Strip(files[g + 1]) /\ lost' = FALSE /\ UNCHANGED ended
        ELSE IF must
        THEN obs = <<>> /\ ended' = TRUE /\ UNCHANGED <<isopen, rest, lost>>
        ELSE obs = <<0>> /\ UNCHANGED <<isopen, rest, lost, ended>>
     /\ UNCHANGED <<files, over, ifile, nd>>

\* a value given on the command line that was not asked for is an error
Close(obs) ==
  /\ ~ended
  /\ isopen' = FALSE
  /\ IF fileno = 1 /\ \E i \in 1..Len(over) : ~over[i].used
     THEN obs = <<>> /\ ended' = TRUE
     ELSE obs = <<1>> /\ UNCHANGED ended
  /\ UNCHANGED <<files, rest, lost, count, fileno, over, ifile, nd>>
=============================================================================
