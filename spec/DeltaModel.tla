----------------------------- MODULE DeltaModel -----------------------------
(* How the numbers of the messages a word occurs in are stored: ascending,    *)
(* each as the difference to the one before, in one, two or four bytes, ended  *)
(* by 255.  A list is extended by index runs (which read it back first) and    *)
(* re-encoded with smaller numbers by purges.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, MaxRuns

Points == {0, 1, 126, 127, 128, 254, 255, 256, 16382, 16383, 16384, 16510, 16511, 16512, 16767, 32767, 32768, 65535, 1056964607}
\* (differences from 63 * 2^24 on would begin with the end mark; there are never so many messages)
VARIABLES nums,       \* what the list stands for
          bytes,      \* the stored list, without the end mark
          highest, runs
vars == <<nums, bytes, highest, runs>>

Value(v) == IF v <= 127 THEN <<v>>
            ELSE IF v <= 16383 THEN <<128 + (v \div 256), v % 256>>
            ELSE <<192 + (v \div 16777216), (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
RECURSIVE Decode(_, _, _)
Decode(b, i, acc) ==
  IF i > Len(b) \/ b[i] = 255 THEN <<>>
  ELSE LET x == IF b[i] >= 192 THEN [v |-> (b[i] - 192) * 16777216 + b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3], n |-> 4]
                ELSE IF b[i] >= 128 THEN [v |-> (b[i] - 128) * 256 + b[i + 1], n |-> 2]
                ELSE [v |-> b[i], n |-> 1]
       IN <<acc + x.v>> \o Decode(b, i + x.n, acc + x.v)
Encode(s) == LET RECURSIVE F(_, _)
                 F(i, prev) == IF i > Len(s) THEN <<>> ELSE Value(s[i] - prev) \o F(i + 1, s[i])
             IN F(1, 0)
Loaded == Decode(Append(bytes, 255), 1, 0)

Init == nums = <<>> /\ bytes = <<>> /\ highest = 0 /\ runs = 0
(* the word occurs in message n; a second occurrence there changes nothing *)
Add == \E n \in Points :
  /\ Len(nums) < MaxLen
  /\ IF nums = <<>> THEN nums' = <<n>> /\ bytes' = Value(n)
     ELSE /\ n >= highest
          /\ IF n > highest THEN nums' = Append(nums, n) /\ bytes' = bytes \o Value(n - highest)
             ELSE UNCHANGED <<nums, bytes>>
  /\ highest' = n /\ UNCHANGED runs
(* the database is written and read again *)
Run == runs < MaxRuns /\ nums # <<>> /\ runs' = runs + 1 /\ highest' = Loaded[Len(Loaded)] /\ UNCHANGED <<nums, bytes>>
(* messages are purged: those left get smaller numbers, in the same order *)
Purge == \E keep \in SUBSET (1..Len(nums)), shift \in {0, 1, 127, 16384} :
  /\ runs < MaxRuns /\ runs' = runs + 1
  /\ LET k == SelectSeq([i \in 1..Len(nums) |-> i], LAMBDA i : i \in keep)
         m == [i \in 1..Len(k) |-> IF nums[k[i]] - shift >= i THEN nums[k[i]] - shift ELSE nums[k[i]]]
     IN /\ \A i \in 1..(Len(m) - 1) : m[i] < m[i + 1]
        /\ nums' = m /\ bytes' = Encode(m) /\ highest' = IF m = <<>> THEN 0 ELSE m[Len(m)]
Next == Add \/ Run \/ Purge
Spec == Init /\ [][Next]_vars

RoundTrip == Loaded = nums
Ascending == \A i \in 1..(Len(nums) - 1) : nums[i] < nums[i + 1]
HighestRight == nums # <<>> => highest = nums[Len(nums)]
EachOnce == \A v \in Points : Len(Value(v)) \in {1, 2, 4} /\ Decode(Value(v), 1, 0) = <<v>> /\ Value(v)[1] # 255
=============================================================================
