------------------------------ MODULE Containers ------------------------------
(* the abstract data types behind libdstr's containers:
   map    hashmap_t      key -> element
   tree   jsw_atree_t    strictly increasing sequence of keys
   heap   heap_t         element -> priority
   lists  link_t heads   sequences of elements; an element is in at most one *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES map, tree, heap, lists, max
vars == <<map, tree, heap, lists, max>>
Rng(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Fresh(m) == /\ map = <<>> /\ tree = <<>> /\ heap = <<>> /\ lists = [l \in 0..3 |-> <<>>] /\ max = m
Reset(m) == /\ map' = <<>> /\ tree' = <<>> /\ heap' = <<>> /\ lists' = [l \in 0..3 |-> <<>>] /\ max' = m
OnlyMap == UNCHANGED <<tree, heap, lists, max>>
OnlyTree == UNCHANGED <<map, heap, lists, max>>
OnlyHeap == UNCHANGED <<map, tree, lists, max>>
OnlyLists == UNCHANGED <<map, tree, heap, max>>
-------------------------------------------------------------------------------
InMap(x) == \E k \in DOMAIN map : map[k] = x
MapSet(k, x, r) == /\ ~InMap(x)
                   /\ r = IF k \in DOMAIN map THEN map[k] ELSE -1
                   /\ map' = Put(map, k, x) /\ OnlyMap
(* a refused element is left as a stranger to the map; whether it can be offered again is not promised *)
MapUniq(k, x, ok) == /\ ~InMap(x) /\ ok = (k \notin DOMAIN map)
                     /\ map' = (IF ok THEN Put(map, k, x) ELSE map) /\ OnlyMap
MapGet(k, r) == r = (IF k \in DOMAIN map THEN map[k] ELSE -1) /\ UNCHANGED vars
MapDel(k, r) == r = (IF k \in DOMAIN map THEN map[k] ELSE -1) /\ map' = Without(map, {k}) /\ OnlyMap
MapRemove(X) == map' = Without(map, {k \in DOMAIN map : map[k] \in X}) /\ OnlyMap
MapIter(got, rm) == NoDup(got) /\ Rng(got) = {map[k] : k \in DOMAIN map} /\ rm \subseteq Rng(got) /\ MapRemove(rm)
MapPop(n, got) == /\ NoDup(got) /\ Rng(got) \subseteq {map[k] : k \in DOMAIN map}
                  /\ Len(got) = (IF n < Cardinality(DOMAIN map) THEN n ELSE Cardinality(DOMAIN map))
                  /\ MapRemove(Rng(got))
-------------------------------------------------------------------------------
Idx(s, k) == IF \E i \in DOMAIN s : s[i] = k THEN CHOOSE i \in DOMAIN s : s[i] = k ELSE 0
Ins(s, k) == LET n == Cardinality({i \in DOMAIN s : s[i] < k}) IN SubSeq(s, 1, n) \o <<k>> \o SubSeq(s, n + 1, Len(s))
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
TreeInsert(k, n) == Idx(tree, k) = 0 /\ tree' = Ins(tree, k) /\ n = Len(tree') /\ OnlyTree
TreeErase(k, r, n) == LET i == Idx(tree, k) IN
    r = (IF i = 0 THEN -1 ELSE k) /\ tree' = (IF i = 0 THEN tree ELSE Del(tree, i)) /\ n = Len(tree') /\ OnlyTree
TreeFind(k, r, i) == LET x == Idx(tree, k) IN r = (IF x = 0 THEN -1 ELSE k) /\ i = x - 1 /\ UNCHANGED vars
TreePop(r) == IF tree = <<>> THEN r = -1 /\ UNCHANGED vars
              ELSE Idx(tree, r) # 0 /\ tree' = Del(tree, Idx(tree, r)) /\ OnlyTree
TreeIndex(i, r) == r = (IF i + 1 \in DOMAIN tree THEN tree[i + 1] ELSE -1) /\ UNCHANGED vars
KeyAt(s, i) == IF i \in DOMAIN s THEN s[i] ELSE -1
(* a walk: moves 1 next, -1 previous, 2 / -2 the same taking the current one out *)
RECURSIVE Walk(_, _, _, _)
Walk(s, i, mv, got) ==
    IF mv = <<>> THEN <<s, got>>
    ELSE LET m == mv[1]
             s2 == IF m \in {2, -2} THEN Del(s, i) ELSE s
             i2 == CASE m = 1 -> i + 1 [] m = 2 -> i [] OTHER -> i - 1
         IN Walk(s2, i2, Tail(mv), Append(got, KeyAt(s2, i2)))
TreeWalk(from, mv, got, n) ==
    LET i == CASE from = -1 -> (IF tree = <<>> THEN 0 ELSE 1) [] from = -2 -> Len(tree) [] OTHER -> Idx(tree, from)
        w == Walk(tree, i, mv, <<KeyAt(tree, i)>>)
    IN /\ got = w[2] /\ tree' = w[1] /\ n = Len(tree') /\ OnlyTree
-------------------------------------------------------------------------------
Best(r) == r \in DOMAIN heap /\ \A x \in DOMAIN heap : IF max = 1 THEN heap[x] <= heap[r] ELSE heap[x] >= heap[r]
HeapPut(x, p) == x \notin DOMAIN heap /\ heap' = Put(heap, x, p) /\ OnlyHeap
HeapPeek(r) == (IF DOMAIN heap = {} THEN r = -1 ELSE Best(r)) /\ UNCHANGED vars
HeapPop(r) == (IF DOMAIN heap = {} THEN r = -1 ELSE Best(r)) /\ heap' = Without(heap, {r}) /\ OnlyHeap
HeapRemove(x) == heap' = Without(heap, {x}) /\ OnlyHeap
-------------------------------------------------------------------------------
InList(x) == \E l \in DOMAIN lists : x \in Rng(lists[l])
Drop(s, X) == SelectSeq(s, LAMBDA x : x \notin X)
ListAppend(l, x) == ~InList(x) /\ lists' = [lists EXCEPT ![l] = Append(@, x)] /\ OnlyLists
ListPrepend(l, x) == ~InList(x) /\ lists' = [lists EXCEPT ![l] = <<x>> \o @] /\ OnlyLists
ListAppendList(l, d) == l # d /\ lists' = [lists EXCEPT ![l] = @ \o lists[d], ![d] = <<>>] /\ OnlyLists
ListPrependList(l, d) == l # d /\ lists' = [lists EXCEPT ![l] = lists[d] \o @, ![d] = <<>>] /\ OnlyLists
ListPopFirst(l, r) == LET s == lists[l] IN r = (IF s = <<>> THEN -1 ELSE s[1]) /\ lists' = [lists EXCEPT ![l] = IF s = <<>> THEN s ELSE Tail(s)] /\ OnlyLists
ListPopLast(l, r) == LET s == lists[l] IN r = (IF s = <<>> THEN -1 ELSE s[Len(s)])
                     /\ lists' = [lists EXCEPT ![l] = IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)] /\ OnlyLists
ListRemove(x) == lists' = [l \in DOMAIN lists |-> Drop(lists[l], {x})] /\ OnlyLists
ListCount(l, n, empty) == n = Len(lists[l]) /\ empty = (n = 0) /\ UNCHANGED vars
ListIter(l, got, rm) == got = lists[l] /\ rm \subseteq Rng(got) /\ lists' = [lists EXCEPT ![l] = Drop(@, rm)] /\ OnlyLists
(* all or nothing *)
RECURSIVE PopN(_, _, _, _)
PopN(ls, last, L, got) ==
    IF ls = <<>> THEN <<TRUE, L, got>>
    ELSE LET s == L[ls[1]] IN
         IF s = <<>> THEN <<FALSE, L, got>>
         ELSE PopN(Tail(ls), last, [L EXCEPT ![ls[1]] = IF last THEN SubSeq(s, 1, Len(s) - 1) ELSE Tail(s)], Append(got, IF last THEN s[Len(s)] ELSE s[1]))
ListPopN(ls, last, ok, got) ==
    LET r == PopN(ls, last, lists, <<>>) IN
    /\ ok = r[1]
    /\ got = (IF ok THEN r[3] ELSE [i \in DOMAIN ls |-> -1])
    /\ lists' = (IF ok THEN r[2] ELSE lists) /\ OnlyLists
===============================================================================
