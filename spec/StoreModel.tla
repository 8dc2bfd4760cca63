----------------------------- MODULE StoreModel -----------------------------
(* Histories of assignments to one container: every sequence of a few assignments through every index of a pool,
   with payloads built from the addressed elements so that the effect can be stated without Write. *)
EXTENDS IndexModel

CONSTANT Depth

VARIABLES cat, hist, spec   \* spec: what the container should hold, by the independent rule

Pool ==
    IF Scope = "sym" THEN
       (CASE d = 1 -> <<<<N("a")>>, <<N("a"), I(0), I(2)>>, <<N("a"), I(2), I(1)>>, <<N("a"), I(1), All>>, <<N("a"), All, I(-1)>>, <<N("a"), I(5)>>, <<N("a"), I(1)>>,
                        <<N("a"), L_(<<0, 2>>), L_(<<1, 2>>)>>, <<N("m")>>, <<N("m"), I(1)>>, <<N("m"), All, I(1), I(0)>>, <<N("m"), I(0), All, I(0)>>, <<[k |-> "e"]>>>>
          [] d = 2 -> <<<<N("a"), I(2), I(1)>>, <<N("a"), I(1), I(1)>>, <<N("m"), I(0), N("q")>>, <<N("m"), All, N("q")>>, <<N("m"), I(1), N("q"), I(1), I(0)>>,
                        <<N("m"), I(-1), N("q"), All, I(1)>>, <<N("m"), I(0), [k |-> "d"]>>, <<N("m"), I(1)>>, <<N("m"), I(0), N("q"), I(2)>>>>)
    ELSE CASE d = 1 -> <<<<N("a")>>, <<N("a"), I(1)>>, <<N("a"), I(-1), I(0)>>, <<N("a"), All, All, I(1)>>, <<N("m")>>, <<N("m"), I(0), I(1)>>, <<N("m"), I(1), All>>,
                    <<N("a"), L_(<<2, 0>>)>>, <<[k |-> "d"]>>, <<[k |-> "e"]>>, <<N("a"), Sl(TRUE, 1, FALSE, 0, FALSE, 1), I(0), All>>, <<N("m"), I(2)>>>>
      [] d = 2 -> <<<<N("a")>>, <<N("a"), I(1)>>, <<N("a"), All, I(0)>>, <<N("m")>>, <<N("m"), I(0)>>, <<N("m"), All, N("q")>>, <<N("m"), I(-1), N("a"), I(0)>>,
                    <<[k |-> "nd"]>>, <<N("m"), L_(<<1>>), [k |-> "d"]>>, <<[k |-> "ln", v |-> <<"m", "a">>]>>, <<N("m"), All, [k |-> "e"]>>, <<N("a"), L_(<<1, 0>>), I(1)>>>>
      [] d = 3 -> <<<<N("a")>>, <<N("a"), I(0), I(2)>>, <<N("a"), All, I(1)>>, <<N("m")>>, <<N("m"), N("q")>>, <<N("m"), N("a")>>, <<N("m"), [k |-> "d"]>>,
                    <<[k |-> "set", v |-> <<"m">>], N("q")>>, <<N("m"), N("q"), I(1)>>, <<[k |-> "nd"]>>, <<[k |-> "e"]>>, <<N("a"), L_(<<1, 0>>), L_(<<2, 0>>)>>>>

Fresh(step, i) == ToString(1000 * step + i)
RECURSIVE Payload(_, _)
Payload(x, step) ==
    CASE x.t = "mat" -> Mat(x.r, x.c, [k \in 1..Len(x.e) |-> Fresh(step, x.e[k] + 1)])
      [] x.t = "list" -> [t |-> "list", v |-> [i \in 1..Len(x.v) |-> Payload(x.v[i], step)]]
      [] x.t = "dict" -> [t |-> "dict", v |-> [i \in 1..Len(x.v) |-> [k |-> x.v[i].k, v |-> Payload(x.v[i].v, step)]]]

InitS == Init /\ cat = [i \in 1..lay.size |-> ToString(i)] /\ spec = [i \in 1..lay.size |-> ToString(i)] /\ hist = <<>>
NextS ==
    /\ Len(hist) < Depth
    /\ \E j \in 1..Len(Pool), how \in {"each", "all", "back"} :
         LET a == Address(lay, Pool[j], "full")
             step == Len(hist) + 1
             pl == CASE how = "each" -> Payload(a, step)
                     [] how = "all" -> [t |-> "num", v |-> Fresh(step, 0)]
                     [] how = "back" -> AsPayload(Read(lay, cat, Pool[j]))
             w == Write(lay, cat, Pool[j], pl, "rel")
         IN /\ w.s = "ok"
            /\ cat' = w.cat
            /\ spec' = [i \in 1..lay.size |-> IF (i - 1) \notin Nums(a) \/ how = "back" THEN spec[i]
                                              ELSE IF how = "each" THEN Fresh(step, i) ELSE Fresh(step, 0)]
            /\ hist' = Append(hist, [ix |-> Pool[j], pl |-> pl, how |-> how])
            /\ (Len(hist) + 1 = Depth) => PrintT("CASE " \o ToJson([d |-> d, hist |-> hist']))
    /\ UNCHANGED <<d, lay, ix>>
SpecS == InitS /\ [][NextS]_<<d, lay, ix, cat, hist, spec>>

(* the container holds for each element the value most recently assigned to it *)
MostRecent == cat = spec
(* every step of the pool is possible *)
AllOK == hist = <<>> => \A j \in 1..Len(Pool) : Write(lay, cat, Pool[j], AsPayload(Read(lay, cat, Pool[j])), "rel").s = "ok"
=============================================================================
