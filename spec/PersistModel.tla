---------------------------- MODULE PersistModel ----------------------------
(* Containers and their saved and loaded copies: every history of a few saves, loads and writes.
   A saved image is a value; loading it makes a new container that shares nothing with any other.
   Checked: a container always shows what its own line of descent says. *)
EXTENDS Util, Json

CONSTANTS Depth, MaxObj, Slots_

VARIABLES obj,      \* container number -> contents
          img,      \* saved images
          hist
vars == <<obj, img, hist>>

Ways == {"pickle", "save"}
Init == obj = <<[i \in 1..Slots_ |-> 0]>> /\ img = <<>> /\ hist = <<>>
Emit(h) == (Len(h) = Depth) => PrintT("CASE " \o ToJson([hist |-> h]))
Do(e) == hist' = Append(hist, e) /\ Emit(hist')
Write(o, s) ==
    /\ obj' = [obj EXCEPT ![o][s] = Len(hist) + 1]
    /\ Do([a |-> "write", o |-> o, s |-> s, w |-> "", i |-> 0]) /\ UNCHANGED img
Save(o, w) ==
    /\ Len(img) < 2 /\ img' = Append(img, obj[o])
    /\ Do([a |-> "dump", o |-> o, s |-> 0, w |-> w, i |-> Len(img) + 1]) /\ UNCHANGED obj
Load(i) ==
    /\ Len(obj) < MaxObj /\ obj' = Append(obj, img[i])
    /\ Do([a |-> "load", o |-> Len(obj) + 1, s |-> 0, w |-> "", i |-> i]) /\ UNCHANGED img
Next ==
    /\ Len(hist) < Depth
    /\ \/ \E o \in 1..Len(obj), s \in 1..Slots_ : Write(o, s)
       \/ \E o \in 1..Len(obj), w \in Ways : Save(o, w)
       \/ \E i \in 1..Len(img) : Load(i)
Spec == Init /\ [][Next]_vars

(* the contents of container o after the first n steps, from the history alone *)
RECURSIVE Shows(_, _, _)
Shows(o, s, n) ==
    IF n = 0 THEN 0
    ELSE LET e == hist[n] IN
         IF e.a = "write" /\ e.o = o /\ e.s = s THEN n
         ELSE IF e.a = "load" /\ e.o = o
              THEN LET k == CHOOSE j \in 1..(n - 1) : hist[j].a = "dump" /\ hist[j].i = e.i
                   IN Shows(hist[k].o, s, k)
         ELSE Shows(o, s, n - 1)
OwnLine == \A o \in 1..Len(obj), s \in 1..Slots_ : obj[o][s] = Shows(o, s, Len(hist))
=============================================================================
