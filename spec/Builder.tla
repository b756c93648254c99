------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* The chain builder: a sequence of named slots.  A slot is                *)
(*   [name, ty \in {"static", "single", "chain"}, fac, sams]               *)
(* where fac is the sampler [kind, opts] its factory makes and sams the    *)
(* samplers [kind, opts] present, in order.                                *)
(***************************************************************************)
EXTENDS Config

SlotCap(ty) == IF ty = "single" THEN 1 ELSE 1000000

PushSlot(slots, name, ty, fac, init) ==
    Append(slots, [name |-> name, ty |-> ty, fac |-> fac, sams |-> init])

\* the first slot of that name, 0 if there is none
SlotNamed(slots, name) ==
    LET I == {i \in 1..Len(slots) : slots[i].name = name}
    IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

ConfigureSlot(slots, name, str) ==
    LET i == SlotNamed(slots, name)
        no == [ok |-> FALSE, slots |-> slots]
    IN  IF i = 0 THEN no
        ELSE LET s == slots[i]
             IN  CASE s.ty = "static" -> no
                   [] s.ty = "single" /\ s.sams # <<>> ->
                        LET r == Configure(s.sams[1].kind, s.sams[1].opts, str, 64)
                        IN  [ok |-> r.ok,
                             slots |-> [slots EXCEPT ![i].sams =
                                          <<[s.sams[1] EXCEPT !.opts = r.opts]>>]]
                   [] OTHER ->
                        LET r == Configure(s.fac.kind, s.fac.opts, str, 64)
                        IN  IF ~r.ok THEN no
                            ELSE [ok |-> TRUE,
                                  slots |-> [slots EXCEPT ![i].sams =
                                    Append(@, [s.fac EXCEPT !.opts = r.opts])]]

\* what a configuration that fails says (name as characters: namec)
SlotWhy(slots, name, namec, str) ==
    LET i == SlotNamed(slots, name)
        on == IF slots[i].ty = "single" /\ slots[i].sams # <<>> THEN slots[i].sams[1] ELSE slots[i].fac
        w == ConfigureWhy(on.kind, on.opts, str, 64)
    IN  IF i = 0 THEN Why({"slot"}, {namec})
        ELSE IF slots[i].ty = "static" THEN Why({"static"}, {namec})
        ELSE IF w = <<>> THEN <<>> ELSE Why({"configure"}, {namec}) \o w

EnsureSlot(slots, i) ==
    IF slots[i].ty # "static" /\ slots[i].sams = <<>>
    THEN [slots EXCEPT ![i].sams = <<slots[i].fac>>]
    ELSE slots

\* the samplers of the finished chain
Finished(slots) ==
    FoldLeft(LAMBDA acc, s : acc \o (IF s.ty = "static" THEN <<s.fac>> ELSE s.sams),
             <<>>, slots)
=============================================================================
