---------------------------------- MODULE Spm ----------------------------------
(* Design of the scratch pad (C17): a chain of chunks with bump allocation, snapshots that
   remember a place in a chunk, roll back by finding that chunk again, and coalescing of the
   chunks on reset. Checked against what its user relies on: live blocks do not overlap, are
   within a chunk that exists, and a roll back leaves exactly the older blocks.
   AtEnd, GrowIfUnused and Limited are design decisions; each is required (the invariants fail
   when it is changed). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSize,      \* maximum total size
          Spare,        \* extra room in a new chunk
          Sizes,        \* of allocations
          Aligns,
          Reserves,
          MaxOps,
          AtEnd,        \* a place at the end of a chunk is found in that chunk
          GrowUnused,   \* an unused chunk may be replaced, when other chunks are in use
          Limited       \* refuse to exceed MaxSize
VARIABLES chunks,       \* sequence of [id, size]; the last is the current one
          used, total, max, \* counters
          blocks,       \* live blocks: [id, off, len]
          snaps,        \* valid snapshots: [id (0: empty), off, total, n]
          nid, ops, bad
vars == <<chunks, used, total, max, blocks, snaps, nid, ops, bad>>
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Bs(c) == IF c = <<>> THEN 0 ELSE Last(c).size
Maxi(a, b) == IF a > b THEN a ELSE b
Mini(a, b) == IF a < b THEN a ELSE b
\* Counters are as wide as needed for MaxSize.
Wrap(x) == IF x > MaxSize THEN x - (MaxSize + 1) ELSE x
Init == chunks = <<>> /\ used = 0 /\ total = 0 /\ max = 0 /\ blocks = <<>> /\ snaps = <<>> /\ nid = 1 /\ ops = 0 /\ bad = FALSE
\* Chunks and used bytes after making room for n more bytes.
Reserved(c, u, n) ==
    IF u + n <= Bs(c) THEN [c |-> c, u |-> u]
    ELSE IF c # <<>> /\ u = 0 /\ (GrowUnused \/ total = 0) THEN [c |-> Append(Front(c), [id |-> nid, size |-> u + n]), u |-> u]
    ELSE [c |-> Append(c, [id |-> nid, size |-> n + Spare]), u |-> 0]
Pad(u, a) == (a - (u % a)) % a
Fits(n, a) == total + n + Pad(used, a) <= MaxSize
Alloc(n, a) ==
    /\ Limited => Fits(n, a)
    /\ LET p == Pad(used, a)
           m == Maxi(max - total, n)
           r == IF used + p <= Bs(chunks)
                THEN IF used + p + n > Bs(chunks) THEN Reserved(chunks, used + p, m) ELSE [c |-> chunks, u |-> used + p]
                ELSE [c |-> Append(chunks, [id |-> nid, size |-> Maxi(max - total, n + Spare)]), u |-> 0]
           t == Wrap(total + p + n)
       IN /\ chunks' = r.c
          /\ used' = Wrap(r.u + n)
          /\ total' = t
          /\ max' = Maxi(max, t)
          /\ blocks' = Append(blocks, [id |-> Last(r.c).id, off |-> r.u, len |-> n, al |-> a])
    /\ UNCHANGED <<snaps, bad>>
Snapshot ==
    /\ Len(snaps) < 2
    /\ snaps' = Append(snaps, IF total = 0 THEN [id |-> 0, off |-> 0, total |-> 0, n |-> Len(blocks)]
                              ELSE [id |-> Last(chunks).id, off |-> used, total |-> total, n |-> Len(blocks)])
    /\ UNCHANGED <<chunks, used, total, max, blocks, bad>>
\* Coalesce when there is more than one chunk.
ResetTo(c) == IF Len(c) <= 1 THEN c ELSE IF Last(c).size >= max THEN <<Last(c)>> ELSE <<[id |-> nid, size |-> max]>>
Reset ==
    /\ used' = 0 /\ total' = 0 /\ blocks' = <<>> /\ snaps' = <<>>
    /\ chunks' = ResetTo(chunks)
    /\ UNCHANGED <<max, bad>>
In(s, c) == s.id = c.id /\ (s.off < c.size \/ (AtEnd /\ s.off = c.size))
Rollback(i) ==
    LET s == snaps[i] IN
    /\ snaps' = SubSeq(snaps, 1, i)
    /\ blocks' = SubSeq(blocks, 1, s.n)
    /\ UNCHANGED max
    /\ IF s.id = 0
       THEN used' = 0 /\ total' = 0 /\ chunks' = ResetTo(chunks) /\ UNCHANGED bad
       ELSE LET K == {k \in 1..Len(chunks) : In(s, chunks[k])} IN
            IF K = {} THEN bad' = TRUE /\ UNCHANGED <<chunks, used, total>>
            ELSE LET k == CHOOSE k \in K : TRUE IN chunks' = SubSeq(chunks, 1, k) /\ used' = s.off /\ total' = s.total /\ UNCHANGED bad
Reserve(n) == LET r == Reserved(chunks, used, n) IN chunks' = r.c /\ used' = r.u /\ UNCHANGED <<total, max, blocks, snaps, bad>>
Shrink ==
    /\ IF total = 0 THEN chunks' = <<>> /\ used' = 0 /\ max' = 0 /\ snaps' = <<>> /\ UNCHANGED total
       ELSE max' = total /\ UNCHANGED <<chunks, used, total, snaps>>
    /\ UNCHANGED <<blocks, bad>>
Next == /\ ops < MaxOps /\ ops' = ops + 1 /\ nid' = nid + 1
        /\ \/ \E n \in Sizes, a \in Aligns : Alloc(n, a)
           \/ Snapshot \/ Reset \/ Shrink
           \/ \E i \in 1..Len(snaps) : Rollback(i)
           \/ \E n \in Reserves : Reserve(n)
Spec == Init /\ [][Next]_vars
----
ChunkOf(b) == {k \in 1..Len(chunks) : chunks[k].id = b.id}
\* Every live block is in a chunk that exists, and is not at another live block.
Live == \A i \in 1..Len(blocks) : LET b == blocks[i] IN
    /\ \E k \in ChunkOf(b) : b.off + b.len <= chunks[k].size
    /\ b.off % b.al = 0
    /\ \A j \in 1..i-1 : blocks[j].id # b.id \/ blocks[j].off + blocks[j].len <= b.off \/ b.off + b.len <= blocks[j].off
\* Free room is really free
Free == chunks # <<>> => used <= Bs(chunks) /\ \A i \in 1..Len(blocks) : blocks[i].id = Last(chunks).id => blocks[i].off + blocks[i].len <= used
Counters == total <= max /\ used <= total /\ total <= MaxSize /\ (total = 0 <=> blocks = <<>>)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Last(s).len + Sum(Front(s))
Enough == total >= Sum(blocks)
Found == ~bad
\* when empty again, one chunk with room for everything there was
Coalesced == total = 0 => Len(chunks) <= 1
================================================================================
