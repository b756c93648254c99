-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* Sampler options: key resolution, value parsing, configuration strings.  *)
(* Strings are sequences of one-character strings.  An option value is     *)
(* [t, v, d, b]: type tag "u" | "f" | "b" | "s" ("none" = not readable),   *)
(* the real number (see RealNum) of a float, the decimal digits of an      *)
(* unsigned integer or the characters of a string, and the Boolean.        *)
(* A table of options is a sequence of [key, ty, val].                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, RealNum

NoVal == [t |-> "none", v |-> <<0, 0>>, d |-> <<>>, b |-> FALSE]
UVal(d) == [NoVal EXCEPT !.t = "u", !.d = d]
FVal(r) == [NoVal EXCEPT !.t = "f", !.v = r]
BVal(x) == [NoVal EXCEPT !.t = "b", !.b = x]
SVal(c) == [NoVal EXCEPT !.t = "s", !.d = c]

WS == {" ", "\t", "\n", "\r", "\f", " ", " ", "　"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
                 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
                 [] c = "8" -> 8 [] c = "9" -> 9

\* s without the white space at its ends
Trim(s) ==
    LET I == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] \notin WS)
    IN  IF I = <<>> THEN <<>> ELSE SubSeq(s, I[1], I[Len(I)])

\* the parts of s between occurrences of character c
SplitAt(s, c) ==
    LET I == TLCEval(<<0>> \o SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = c)
                           \o <<Len(s) + 1>>)
    IN  [j \in 1..(Len(I) - 1) |-> SubSeq(s, I[j] + 1, I[j + 1] - 1)]

\* <<key, value>>: around the first "=", no key if there is none
KeyValue(s) ==
    LET I == {i \in 1..Len(s) : s[i] = "="}
    IN  IF I = {} THEN <<<<>>, s>>
        ELSE LET i == CHOOSE x \in I : \A y \in I : x <= y
             IN  <<SubSeq(s, 1, i - 1), SubSeq(s, i + 1, Len(s))>>

---------------------------------------------------------------------------
\* Keys.  The index of the option meant by key, 0 if none, -1 if ambiguous.
Resolve(keys, key) ==
    LET X == {i \in 1..Len(keys) : keys[i] = key}
        P == {i \in 1..Len(keys) : IsPrefix(key, keys[i])}
    IN  IF X # {} THEN CHOOSE i \in X : \A j \in X : i <= j
        ELSE IF P = {} THEN 0
        ELSE IF Cardinality(P) > 1 THEN -1
        ELSE CHOOSE i \in P : TRUE
Keys(opts) == TLCEval([i \in 1..Len(opts) |-> opts[i].key])

---------------------------------------------------------------------------
\* Values.
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in Digit
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = "0" THEN NoZeros(Tail(s)) ELSE s
\* order of canonical digit strings
DigitsLe(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \/ a = b
          \/ \E i \in 1..Len(a) : /\ DigitVal(a[i]) < DigitVal(b[i])
                                  /\ \A j \in 1..(i - 1) : a[j] = b[j]
U64Max == <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>
U8Max == <<"2", "5", "5">>
UMax(width) == IF width = 8 THEN U8Max ELSE U64Max

Unsign(s) == IF s # <<>> /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s

\* a decimal number: digits, at most one point with a digit on some side,
\* optional exponent
Mantissa(s) ==
    LET I == {i \in 1..Len(s) : s[i] = "."}
    IN  \/ I = {} /\ AllDigits(s)
        \/ /\ Cardinality(I) = 1
           /\ Len(s) > 1
           /\ \A i \in (1..Len(s)) \ I : s[i] \in Digit
IsDecimal(s0) ==
    LET s == Unsign(s0)
        E == {i \in 1..Len(s) : s[i] \in {"e", "E"}}
    IN  IF E = {} THEN Mantissa(s)
        ELSE /\ Cardinality(E) = 1
             /\ LET i == CHOOSE x \in E : TRUE
                IN  /\ Mantissa(SubSeq(s, 1, i - 1))
                    /\ AllDigits(Unsign(SubSeq(s, i + 1, Len(s))))

Bad == [ok |-> FALSE, val |-> NoVal]
Good(v) == [ok |-> TRUE, val |-> v]

ParseUInt(s) ==
    LET u == IF s # <<>> /\ s[1] = "+" THEN Tail(s) ELSE s
        d == NoZeros(u)
    IN  IF AllDigits(u) /\ DigitsLe(d, U64Max) THEN Good(UVal(d)) ELSE Bad
ParseFloat(s) ==
    IF s \in {<<"i", "n", "f">>, <<"+", "i", "n", "f">>} THEN Good(FVal(R32(FPosInf)))
    ELSE IF s = <<"-", "i", "n", "f">> THEN Good(FVal(R32(FNegInf)))
    ELSE IF IsDecimal(s) THEN Good(FVal(RDec(s))) ELSE Bad
TrueWords == {<<"t", "r", "u", "e">>, <<"t">>, <<"y", "e", "s">>, <<"1">>}
FalseWords == {<<"f", "a", "l", "s", "e">>, <<"f">>, <<"n", "o">>, <<"0">>}
ParseBool(s) == IF s \in TrueWords THEN Good(BVal(TRUE))
                ELSE IF s \in FalseWords THEN Good(BVal(FALSE)) ELSE Bad
\* what a type makes of a piece of text
Parse(ty, s0) ==
    LET s == Trim(s0)
    IN  CASE ty = "u" -> ParseUInt(s)
          [] ty = "f" -> ParseFloat(s)
          [] ty = "b" -> ParseBool(s)
          [] OTHER -> Good(SVal(s))

---------------------------------------------------------------------------
\* Setting one option.  The stored value has the option's numeric type:
\* unsigned of the given width, or single precision.
Stored(ty, val, width) ==
    CASE ty = "u" -> IF DigitsLe(val.d, UMax(width)) THEN Good(val) ELSE Bad
      [] ty = "f" -> Good(FVal(R32(ToF32(val.v))))
      [] OTHER -> Good(val)
TauKey == <<"t", "a", "u">>
MuKey == <<"m", "u">>
\* setting tau on Mirostat resets mu to twice tau
AfterSet(kind, opts, i) ==
    IF kind \in {"miro1", "miro2"} /\ opts[i].key = TauKey
    THEN [j \in 1..Len(opts) |->
            IF opts[j].key = MuKey
            THEN [opts[j] EXCEPT !.val =
                    FVal(R32(ToF32(RMul(RInt(2), opts[i].val.v))))]
            ELSE opts[j]]
    ELSE opts
Failed(opts) == [ok |-> FALSE, opts |-> opts]

\* Samplers of the user's own may have hooks before and after a setting.  The
\* recorded executions use these scripts, as kinds of sampler:
\*   hlog     the hooks do nothing
\*   hswap    the one before replaces the value
\*   hveto    the one before refuses some options
\*   hderive  the one after sets other options (like Mirostat's)
\*   hpost    the one after fails for some options
HookKinds == {"hlog", "hswap", "hveto", "hderive", "hpost"}
KindOf(cfg) == IF cfg.k = "hspy" THEN cfg.hooks ELSE cfg.k
AlphaKey == <<"a", "l", "p", "h", "a">>
AlKey == <<"a", "l">>
AlphabetKey == <<"a", "l", "p", "h", "a", "b", "e", "t">>
BetaKey == <<"b", "e", "t", "a">>
NameKey == <<"n", "a", "m", "e">>
\* what the hook before makes of the value given for option o
BeforeSet(kind, o, val) ==
    CASE kind = "hswap" /\ o.key = AlphaKey -> Good(FVal(RQ(1, 4)))
      [] kind = "hswap" /\ o.key = AlphabetKey -> Good(BVal(TRUE))
      [] kind = "hswap" /\ o.key = NameKey -> Good(SVal(<<"w">>))
      [] kind = "hswap" /\ o.key = BetaKey /\ val.t = "u" -> Good(BVal(val.d # <<"0">>))
      [] kind = "hveto" /\ o.key \in {AlphaKey, BetaKey} -> Bad
      [] OTHER -> Good(val)
\* the options after the hook that follows
WithVal(opts, key, val) ==
    [j \in 1..Len(opts) |-> IF opts[j].key = key THEN [opts[j] EXCEPT !.val = val] ELSE opts[j]]
Derived(kind, opts, i) ==
    CASE kind = "hderive" /\ opts[i].key = AlKey -> WithVal(opts, AlphabetKey, UVal(<<"9">>))
      [] kind = "hderive" /\ opts[i].key = AlphaKey ->
            WithVal(WithVal(opts, BetaKey, BVal(TRUE)), NameKey, SVal(<<"w">>))
      [] OTHER -> AfterSet(kind, opts, i)
\* whether that hook fails; the option keeps its new value all the same
FailsAfter(kind, o) == kind = "hpost" /\ o.key \in {AlKey, BetaKey, NameKey}

SetAt(kind, opts, i, val0, width) ==
    LET b == BeforeSet(kind, opts[i], val0)
        val == b.val
    IN  IF opts[i].val.t = "none" \/ ~b.ok \/ val.t # opts[i].ty THEN Failed(opts)
        ELSE LET st == Stored(opts[i].ty, val, width)
             IN  IF st.ok
                 THEN [ok |-> ~FailsAfter(kind, opts[i]),
                       opts |-> Derived(kind, [opts EXCEPT ![i].val = st.val], i)]
                 ELSE Failed(opts)

SetOption(kind, opts, key, val, width) ==
    LET i == Resolve(Keys(opts), key)
    IN  IF i < 1 THEN Failed(opts) ELSE SetAt(kind, opts, i, val, width)

\* what reading a key gives
GetOption(opts, key) ==
    LET i == Resolve(Keys(opts), key)
    IN  IF i < 1 THEN Bad ELSE IF opts[i].val.t = "none" THEN Bad ELSE Good(opts[i].val)

---------------------------------------------------------------------------
\* Configuration strings.
Parts(s) ==
    LET ps == TLCEval(SplitAt(Trim(s), ":"))
    IN  SelectSeq(TLCEval([i \in 1..Len(ps) |-> Trim(ps[i])]), LAMBDA p : p # <<>>)
Part(kind, opts, p, width) ==
    LET kv == KeyValue(p)
        i == Resolve(Keys(opts), Trim(kv[1]))
    IN  IF i < 1 THEN Failed(opts)
        ELSE LET v == Parse(opts[i].ty, kv[2])
             IN  IF v.ok THEN SetAt(kind, opts, i, v.val, width) ELSE Failed(opts)
RECURSIVE RunParts(_, _, _, _)
RunParts(kind, opts, ps, width) ==
    IF ps = <<>> THEN [ok |-> TRUE, opts |-> opts]
    ELSE LET r == TLCEval(Part(kind, opts, ps[1], width))
         IN  IF r.ok THEN RunParts(kind, r.opts, TLCEval(Tail(ps)), width) ELSE r
Configure(kind, opts, s, width) == RunParts(kind, opts, Parts(s), width)

---------------------------------------------------------------------------
\* What a failure says.  A cause is [ks, ns, says]: the kinds of error it may
\* be, the names the error may carry ({} when nobody named anything) and the
\* text of an error that is the sampler's own (<<>> otherwise).  No cause: <<>>.
Why(ks, ns) == <<[ks |-> ks, ns |-> ns, says |-> <<>>]>>
Own(text) == <<[ks |-> {"other"}, ns |-> {}, says |-> text]>>
RefusedText == <<"r", "e", "f", "u", "s", "e", "d">>
AfterText == <<"n", "o", "t", " ", "a", "f", "t", "e", "r", " ", "a", "l", "l">>
\* what key may be called in an error: as it was given, or by the option's name
Called(opts, i, key) ==
    IF Trim(key) = <<>> THEN {}
    ELSE {key, Trim(key)} \cup IF i >= 1 THEN {opts[i].key} ELSE {}
AtWhy(kind, opts, i, key, val0, width) ==
    LET b == BeforeSet(kind, opts[i], val0)
        ns == Called(opts, i, key)
    IN  IF opts[i].val.t = "none"
        THEN Why({"access"} \cup IF val0.t # opts[i].ty THEN {"unknown"} ELSE {}, ns)
        ELSE IF ~b.ok THEN Own(RefusedText)
        ELSE IF b.val.t # opts[i].ty THEN Why({"unknown"}, ns)
        ELSE IF ~Stored(opts[i].ty, b.val, width).ok THEN Why({"conversion"}, ns)
        ELSE IF FailsAfter(kind, opts[i]) THEN Own(AfterText)
        ELSE <<>>
KeyWhy(opts, i, key) == Why(IF i = 0 THEN {"unknown"} ELSE {"ambiguous"}, Called(opts, i, key))
SetWhy(kind, opts, key, val, width) ==
    LET i == Resolve(Keys(opts), key)
    IN  IF i < 1 THEN KeyWhy(opts, i, key) ELSE AtWhy(kind, opts, i, key, val, width)
GetWhy(opts, key) ==
    LET i == Resolve(Keys(opts), key)
    IN  IF i < 1 THEN KeyWhy(opts, i, key)
        ELSE IF opts[i].val.t = "none" THEN Why({"access"}, Called(opts, i, key)) ELSE <<>>
\* of one part of a configuration string
PartWhy(kind, opts, p, width) ==
    LET kv == KeyValue(p)
        key == Trim(kv[1])
        i == Resolve(Keys(opts), key)
        v == IF i < 1 THEN Bad ELSE Parse(opts[i].ty, kv[2])
        unfit == {"other", "conversion", "unknown"}
    IN  IF i < 1 THEN KeyWhy(opts, i, key)
        ELSE IF opts[i].val.t = "none"
        THEN Why({"access", "unknown"} \cup IF v.ok THEN {} ELSE unfit,
                 IF v.ok THEN Called(opts, i, key) ELSE {})
        ELSE IF ~v.ok THEN Why(unfit, {})
        ELSE AtWhy(kind, opts, i, key, v.val, width)
\* of a string: what is wrong with its first bad part
RECURSIVE PartsWhy(_, _, _, _)
PartsWhy(kind, opts, ps, width) ==
    IF ps = <<>> THEN <<>>
    ELSE LET w == TLCEval(PartWhy(kind, opts, ps[1], width))
         IN  IF w # <<>> THEN w
             ELSE PartsWhy(kind, TLCEval(Part(kind, opts, ps[1], width)).opts, TLCEval(Tail(ps)), width)
ConfigureWhy(kind, opts, s, width) == PartsWhy(kind, opts, Parts(s), width)

\* the causes recorded, from the outside in, are these
Mentions(s, x) == \E j \in 0..(Len(s) - Len(x)) : SubSeq(s, j + 1, j + Len(x)) = x
Says(f, w) ==
    /\ f.k \in w.ks
    /\ f.k # "other" => (w.ns = {} \/ f.n \in w.ns \/ Trim(f.n) \in w.ns) /\ Mentions(f.t, f.n)
    /\ w.says # <<>> => f.t = w.says
WhyFits(fs, ws) ==
    /\ Len(fs) = Len(ws)
    /\ \A j \in 1..Len(fs) : Says(fs[j], ws[j])
    /\ \A j \in 2..Len(fs) : Mentions(fs[j - 1].t, fs[j].t)

---------------------------------------------------------------------------
\* What is called on a sampler with hooks, in order: its own set_option
\* ("own"), the hook before ("pre") and the hook after ("post"), each with
\* the option meant, the value passed and the options as they are then.
Call(c, key, ty, val, opts) == [c |-> c, key |-> key, ty |-> ty, val |-> val, opts |-> opts]
\* setting the option at i, which can be reached
HooksAt(kind, opts, i, val, width) ==
    LET o == opts[i]
        b == BeforeSet(kind, o, val)
        st == IF b.ok /\ b.val.t = o.ty THEN Stored(o.ty, b.val, width) ELSE Bad
    IN  <<Call("pre", o.key, o.ty, val, opts)>> \o
        IF st.ok THEN <<Call("post", o.key, o.ty, NoVal, [opts EXCEPT ![i].val = st.val])>> ELSE <<>>
\* Sets of sequences of calls: what comes before the refusal of an option that
\* cannot be reached is the library's business.
SetCalls(kind, opts, key, val, width) ==
    LET i == Resolve(Keys(opts), key)
        own == <<Call("own", key, "", val, opts)>>
    IN  IF i < 1 THEN {own}
        ELSE IF opts[i].val.t = "none"
        THEN {own, Append(own, Call("pre", opts[i].key, opts[i].ty, val, opts))}
        ELSE {own \o HooksAt(kind, opts, i, val, width)}
RECURSIVE PartsCalls(_, _, _, _, _)
PartsCalls(kind, opts, ps, width, done) ==
    IF ps = <<>> THEN {done}
    ELSE LET kv == KeyValue(ps[1])
             i == Resolve(Keys(opts), Trim(kv[1]))
             v == IF i < 1 THEN Bad ELSE Parse(opts[i].ty, kv[2])
         IN  IF ~v.ok THEN {done}
             ELSE LET own == Call("own", opts[i].key, "", v.val, opts)
                      r == TLCEval(SetAt(kind, opts, i, v.val, width))
                  IN  IF opts[i].val.t = "none"
                      THEN {done, Append(done, own),
                            done \o <<own, Call("pre", opts[i].key, opts[i].ty, v.val, opts)>>}
                      ELSE LET now == TLCEval(done \o <<own>> \o HooksAt(kind, opts, i, v.val, width))
                           IN  IF r.ok THEN PartsCalls(kind, r.opts, TLCEval(Tail(ps)), width, now)
                               ELSE {now}
CfgCalls(kind, opts, s, width) == PartsCalls(kind, opts, Parts(s), width, <<>>)
\* a recorded call of set_option may name its option by any key that means it
FullKey(c) == LET i == Resolve(Keys(c.opts), c.key)
              IN  IF c.c = "own" /\ i >= 1 THEN [c EXCEPT !.key = c.opts[i].key] ELSE c
FullKeys(calls) == TLCEval([j \in 1..Len(calls) |-> FullKey(calls[j])])
CallsFit(calls, set) == \E x \in set : FullKeys(calls) = FullKeys(x)

---------------------------------------------------------------------------
\* The documented options of the built-in samplers, as <<key, type, field of
\* the settings>>; keys as characters.
Ch(s) == CASE s = "k" -> <<"k">>
           [] s = "p" -> <<"p">>
           [] s = "z" -> <<"z">>
           [] s = "m" -> <<"m">>
           [] s = "a1" -> <<"a", "1">>
           [] s = "a2" -> <<"a", "2">>
           [] s = "mu" -> MuKey
           [] s = "tau" -> TauKey
           [] s = "eta" -> <<"e", "t", "a">>
           [] s = "n_vocab" -> <<"n", "_", "v", "o", "c", "a", "b">>
           [] s = "min_keep" -> <<"m", "i", "n", "_", "k", "e", "e", "p">>
           [] s = "temperature" -> <<"t", "e", "m", "p", "e", "r", "a", "t", "u", "r", "e">>
           [] s = "penalty" -> <<"p", "e", "n", "a", "l", "t", "y">>
           [] s = "last_n" -> <<"l", "a", "s", "t", "_", "n">>
           [] s = "frequency_penalty" -> <<"f", "r", "e", "q", "u", "e", "n", "c", "y", "_", "p", "e", "n", "a", "l", "t", "y">>
           [] s = "presence_penalty" -> <<"p", "r", "e", "s", "e", "n", "c", "e", "_", "p", "e", "n", "a", "l", "t", "y">>
           [] s = "flat_penalty" -> <<"f", "l", "a", "t", "_", "p", "e", "n", "a", "l", "t", "y">>
           [] s = "stacking_penalty" -> <<"s", "t", "a", "c", "k", "i", "n", "g", "_", "p", "e", "n", "a", "l", "t", "y">>
           [] s = "min_length" -> <<"m", "i", "n", "_", "l", "e", "n", "g", "t", "h">>
           [] s = "max_merge" -> <<"m", "a", "x", "_", "m", "e", "r", "g", "e">>
           [] s = "tolerance" -> <<"t", "o", "l", "e", "r", "a", "n", "c", "e">>

\* <<key, type, field>> of each option of a built-in sampler, in order
OptTable(kind) ==
    CASE kind = "topk" -> <<<<"k", "u", "n">>, <<"min_keep", "u", "mk">>>>
      [] kind \in {"topp", "minp", "loctyp"} -> <<<<"p", "f", "p">>, <<"min_keep", "u", "mk">>>>
      [] kind = "topa" -> <<<<"a1", "f", "a1">>, <<"a2", "f", "a2">>, <<"min_keep", "u", "mk">>>>
      [] kind = "tailfree" -> <<<<"z", "f", "z">>, <<"min_keep", "u", "mk">>>>
      [] kind = "temp" -> <<<<"temperature", "f", "t">>>>
      [] kind = "rep" -> <<<<"penalty", "f", "pen">>, <<"last_n", "u", "ln">>>>
      [] kind = "freq" -> <<<<"frequency_penalty", "f", "f">>, <<"presence_penalty", "f", "p">>,
                            <<"last_n", "u", "ln">>>>
      [] kind = "seqrep" -> <<<<"flat_penalty", "f", "f">>, <<"stacking_penalty", "f", "s">>,
                              <<"min_length", "u", "ml">>, <<"tolerance", "u", "tol">>,
                              <<"max_merge", "u", "mm">>, <<"last_n", "u", "ln">>>>
      [] kind = "miro1" -> <<<<"tau", "f", "tau">>, <<"eta", "f", "eta">>, <<"mu", "f", "mu">>,
                             <<"m", "u", "m">>, <<"n_vocab", "u", "nv">>>>
      [] kind = "miro2" -> <<<<"tau", "f", "tau">>, <<"eta", "f", "eta">>, <<"mu", "f", "mu">>>>
      [] OTHER -> <<>>

\* the integer of a digit string, saturating like the harness does
RECURSIVE NatOf(_, _)
NatOf(d, acc) == IF d = <<>> THEN acc ELSE NatOf(Tail(d), acc * 10 + DigitVal(d[1]))
\* TLC's integers are small: the large numbers the recorded executions use have
\* stand-ins in the same order, any other large one the largest
IntOf(d) == CASE Len(d) <= 9 -> NatOf(d, 0)
              [] d = <<"4", "2", "9", "4", "9", "6", "7", "2", "9", "6">> -> 2147483640
              [] d = <<"9", "2", "2", "3", "3", "7", "2", "0", "3", "6", "8", "5", "4", "7", "7", "5", "8", "0", "7">> -> 2147483641
              [] d = <<"9", "2", "2", "3", "3", "7", "2", "0", "3", "6", "8", "5", "4", "7", "7", "5", "8", "0", "8">> -> 2147483642
              [] OTHER -> 2147483647

\* the settings cfg as updated by the option values read back
CfgFrom(cfg, opts) ==
    LET tab == OptTable(cfg.k)
        val(key) == LET I == {i \in 1..Len(opts) : opts[i].key = Ch(key)}
                    IN  IF I = {} THEN NoVal ELSE opts[CHOOSE i \in I : TRUE].val
        one(c, row) ==
            LET v == val(row[1])
            IN  IF row[3] = "mu" \/ v.t # row[2] THEN c
                ELSE [x \in DOMAIN c \cup {row[3]} |->
                        IF x # row[3] THEN c[x]
                        ELSE IF row[2] = "u" THEN IntOf(v.d) ELSE ToF32(v.v)]
    IN  FoldLeft(one, cfg, tab)

\* option values a sampler constructed with settings cfg must read
SameBits(r, b) == r = R32(b) \/ REq(r, R32(b))
ReadsAs(cfg, opts) ==
    LET tab == OptTable(cfg.k)
        has(row, v) ==
            IF row[1] = "mu"
            THEN v.t = "f" /\ SameBits(v.v, IF "hmu" \in DOMAIN cfg /\ cfg.hmu THEN cfg.mu
                                            ELSE ToF32(RMul(RInt(2), R32(cfg.tau))))
            ELSE IF row[2] = "u" THEN v.t = "u" /\ IntOf(v.d) = cfg[row[3]]
            ELSE v.t = "f" /\ SameBits(v.v, cfg[row[3]])
    IN  /\ {opts[i].key : i \in 1..Len(opts)} = {Ch(tab[i][1]) : i \in 1..Len(tab)}
        /\ \A j \in 1..Len(tab) : \A i \in 1..Len(opts) :
              opts[i].key = Ch(tab[j][1]) => opts[i].ty = tab[j][2] /\ has(tab[j], opts[i].val)

DigitCh(n) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[n + 1]
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<DigitCh(n)>> ELSE Append(DigitsOf(n \div 10), DigitCh(n % 10))

\* the option table of a sampler constructed with settings cfg
Opt(key, ty, val) == [key |-> key, ty |-> ty, val |-> val]
SpyOpts == <<Opt(<<"a", "l", "p", "h", "a">>, "f", FVal(RQ(1, 2))),
             Opt(<<"a", "l">>, "u", UVal(<<"1">>)),
             Opt(<<"a", "l", "p", "h", "a", "b", "e", "t">>, "u", UVal(<<"2">>)),
             Opt(<<"b", "e", "t", "a">>, "b", BVal(FALSE)),
             Opt(<<"n", "a", "m", "e">>, "s", SVal(<<"n">>)),
             Opt(<<"l", "o", "c", "k", "e", "d">>, "u", NoVal)>>
\* a table in which options that cannot be reached share prefixes with others
HidOpts == <<Opt(<<"m", "o", "d", "e">>, "u", NoVal),
             Opt(<<"m", "o", "d", "e", "l">>, "f", FVal(RQ(1, 2))),
             Opt(<<"m", "o">>, "b", BVal(FALSE)),
             Opt(<<"z", "e", "d">>, "u", NoVal),
             Opt(<<"z", "e", "t", "a">>, "u", UVal(<<"1">>)),
             Opt(<<"l", "o", "n", "g", "_", "n", "a", "m", "e">>, "s", SVal(<<"n">>)),
             Opt(<<"l", "o", "n", "g">>, "u", NoVal)>>
OptsOf(cfg) ==
    IF cfg.k \in {"spy", "hspy"}
    THEN LET t == IF "table" \in DOMAIN cfg THEN cfg.table ELSE "full"
         IN  IF t = "one" THEN SubSeq(SpyOpts, 1, 1) ELSE IF t = "none" THEN <<>>
             ELSE IF t = "hid" THEN HidOpts ELSE SpyOpts
    ELSE LET tab == OptTable(cfg.k)
         IN  [i \in 1..Len(tab) |->
                Opt(Ch(tab[i][1]), tab[i][2],
                    IF tab[i][1] = "mu"
                    THEN FVal(R32(IF "hmu" \in DOMAIN cfg /\ cfg.hmu THEN cfg.mu
                                  ELSE ToF32(RMul(RInt(2), R32(cfg.tau)))))
                    ELSE IF tab[i][2] = "u" THEN UVal(DigitsOf(cfg[tab[i][3]]))
                    ELSE FVal(R32(cfg[tab[i][3]])))]

---------------------------------------------------------------------------
\* Construction.  cfg = [k, from, args, calls]: made by the constructor from
\* the arguments, or by default, and then changed by builder methods, one per
\* call; args and calls are sequences of [key, val].
DefaultTab(kind) ==
    LET tab == OptTable(kind)
        u(n) == UVal(DigitsOf(n))
        f(n, m) == FVal(R32(ToF32(RQ(n, m))))
        val(key) ==
            CASE key = "min_keep" -> u(1)
              [] key = "k" -> u(40)
              [] kind = "topp" /\ key = "p" -> f(9, 10)
              [] kind = "minp" /\ key = "p" -> f(5, 100)
              [] key \in {"p", "z", "temperature"} -> f(1, 1)
              [] key = "a1" -> f(2, 10)
              [] key = "a2" -> f(2, 1)
              [] key = "penalty" -> f(11, 10)
              [] key = "last_n" -> u(64)
              [] key \in {"frequency_penalty", "presence_penalty", "flat_penalty", "stacking_penalty"} -> f(0, 1)
              [] key = "min_length" -> u(4)
              [] key = "max_merge" -> u(1)
              [] key = "tau" -> f(5, 1)
              [] key = "mu" -> f(10, 1)
              [] key = "eta" -> f(1, 10)
              [] key = "m" -> u(100)
              [] OTHER -> u(0)               \* tolerance, n_vocab
    IN  [i \in 1..Len(tab) |-> Opt(Ch(tab[i][1]), tab[i][2], val(tab[i][1]))]
\* what a constructor is given, in order
NewKeys(kind) ==
    CASE kind = "topk" -> <<"k", "min_keep">>
      [] kind = "miro1" -> <<"n_vocab", "tau", "eta">>
      [] kind = "miro2" -> <<"tau", "eta">>
      [] OTHER -> [i \in 1..Len(OptTable(kind)) |-> OptTable(kind)[i][1]]
IndexOf(opts, key) == CHOOSE i \in 1..Len(opts) : opts[i].key = Ch(key)
With(kind, opts, given) == SetAt(kind, opts, IndexOf(opts, given.key), given.val, 64).opts
MakeTab(cfg) ==
    FoldLeft(LAMBDA o, g : With(cfg.k, o, g), DefaultTab(cfg.k), cfg.args \o cfg.calls)
=============================================================================
