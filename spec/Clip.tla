------------------------------- MODULE Clip -------------------------------
(* The containers of lib/clip as abstract data types. Bytes are numbers,
   byte strings are sequences. Do(c, s, op) is the step of a container of
   kind c in state s: the next state and what the operation returns.

   map    fixed-size values by byte-string keys      s: sequence of <<key, value>>, vs: value size
   map2   values of any size by byte-string keys     s: sequence of <<key, value>>
   st     strings by strings                         s: sequence of <<key, value>>
   vec    growing array of fixed-size items          s: sequence of items
   buf    FIFO of bytes                              s: sequence of bytes
   list   sequence of references                     s: sequence of references            *)
EXTENDS Integers, Sequences, FiniteSets

At(s, k) == { i \in 1..Len(s) : s[i][1] = k }
Has(s, k) == At(s, k) # {}
Put(s, k, v) == IF Has(s, k) THEN [i \in 1..Len(s) |-> IF s[i][1] = k THEN <<k, v>> ELSE s[i]]
                ELSE Append(s, <<k, v>>)
Get(s, k) == s[CHOOSE i \in At(s, k) : TRUE][2]
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Without(_, _)
Without(s, x) == IF s = <<>> THEN <<>> ELSE IF s[1] = x THEN Tail(s) ELSE <<s[1]>> \o Without(Tail(s), x)

\* string keys are stored with their terminator
Z(k) == Append(k, 0)
Res(s, o) == [s |-> s, o |-> o]
N(n) == [n |-> n]                  \* a number
B(b) == [b |-> b]                  \* bytes
Null == [z |-> TRUE]               \* the null pointer
MapGet(s, k, vs) == IF Has(s, k) THEN <<N(1), B(Get(s, k))>> ELSE <<N(0), B([i \in 1..vs |-> 238])>>
Bool(b) == N(IF b THEN 1 ELSE 0)
DoMap(s, p, vs) ==
    CASE p.op = "set" -> Res(Put(s, p.k, p.v), <<>>)
      [] p.op = "sets" -> Res(Put(s, Z(p.k), p.v), <<>>)
      [] p.op = "get" -> Res(s, MapGet(s, p.k, vs))
      [] p.op = "gets" -> Res(s, MapGet(s, Z(p.k), vs))
      [] p.op = "has" -> Res(s, <<Bool(Has(s, p.k))>>)
      [] p.op = "hass" -> Res(s, <<Bool(Has(s, Z(p.k)))>>)
      [] p.op = "size" -> Res(s, <<N(Len(s))>>)
      \* every entry once; a key that does not fit the caller's buffer of p.n bytes reads as 0 bytes
      [] p.op = "iter" -> Res(s, [i \in 1..Len(s) |->
                [e |-> IF Len(s[i][1]) > p.n THEN <<>> ELSE s[i][1], v |-> s[i][2]]])
      [] OTHER -> Res(<<>>, <<>>)
DoMap2(s, p) ==
    CASE p.op = "set" -> Res(Put(s, p.k, p.v), <<>>)
      [] p.op = "get" -> Res(s, IF Has(s, p.k) THEN <<B(Get(s, p.k))>> ELSE <<Null>>)
      [] OTHER -> Res(<<>>, <<>>)
DoVec(s, p, is) ==
    CASE p.op = "push" -> Res(Append(s, p.v), <<>>)
      [] p.op = "alloc" -> Res(Append(s, Zeros(is)), <<B(Zeros(is))>>)
      [] p.op = "put" -> Res([s EXCEPT ![p.i + 1] = p.v], <<>>)
      [] p.op = "get" -> Res(s, <<B(s[p.i + 1])>>)
      [] p.op = "len" -> Res(s, <<N(Len(s))>>)
      [] OTHER -> Res(<<>>, <<>>)
DoBuf(s, p) ==
    CASE p.op = "write" -> Res(s \o p.v, <<Bool(p.v # <<>>)>>)
      [] p.op = "read" -> LET n == IF p.n < Len(s) THEN p.n ELSE Len(s) IN Res(SubSeq(s, n + 1, Len(s)), <<B(SubSeq(s, 1, n))>>)
      [] p.op = "size" -> Res(s, <<N(Len(s))>>)
      [] OTHER -> Res(<<>>, <<>>)
DoList(s, p) ==
    CASE p.op = "append" -> Res(IF p.i < 0 THEN s ELSE Append(s, p.i), <<>>)
      [] p.op = "remove" -> Res(Without(s, p.i), <<>>)
      [] p.op = "list" -> Res(s, [i \in 1..Len(s) |-> N(s[i])])
      [] OTHER -> Res(<<>>, <<>>)
Do(c, s, p, sz) == CASE c = "map" -> DoMap(s, p, sz) [] c \in {"map2", "st"} -> DoMap2(s, p)
                     [] c = "vec" -> DoVec(s, p, sz) [] c = "buf" -> DoBuf(s, p) [] OTHER -> DoList(s, p)
\* the outputs of a history
RECURSIVE Run(_, _, _, _, _)
Run(c, s, ps, sz, acc) ==
    IF ps = <<>> THEN acc
    ELSE LET r == Do(c, s, ps[1], sz) IN Run(c, r.s, Tail(ps), sz, Append(acc, r.o))
=============================================================================
