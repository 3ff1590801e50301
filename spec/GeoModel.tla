------------------------------ MODULE GeoModel ------------------------------
(* The index maps of the layers which move or combine entries, for every small geometry: a state is a layer and the  *)
(* shape of its input.  Convolutions, as sparse rows, agree with the definition on an image surrounded by zeros;       *)
(* pooling windows are those of the convolution; permutations, flattening and concatenation lose no entry.             *)
EXTENDS NetSem
CONSTANT Size
VARIABLES nd, ish
vars == <<nd, ish>>
Dfs == {"channels_last", "channels_first"}
Img(s, df) == IF df = "channels_first" THEN <<s[3], s[1], s[2]>> ELSE s
Pairs == {<<a, b>> : a \in 1..2, b \in 1..3}
ConvNodes == {[op |-> "conv", in |-> <<0>>, filters |-> 2, kernel |-> k, strides |-> s, dilation |-> d, padding |-> p, df |-> df,
               W |-> [a \in 1..k[1] |-> [b \in 1..k[2] |-> <<<<a + 10 * b, 100 * a - b>>, <<7 * a * b, 3 - b>>>>]], b |-> <<1, 2>>] :
                k \in Pairs, s \in {<<1, 1>>, <<2, 2>>, <<1, 2>>, <<2, 1>>}, d \in {<<1, 1>>, <<2, 2>>}, p \in {"valid", "same"}, df \in Dfs}
PoolNodes == {[op |-> "maxpool", in |-> <<0>>, pool |-> k, strides |-> s, padding |-> p, df |-> df] :
                k \in Pairs, s \in {<<1, 1>>, <<2, 2>>, <<1, 2>>, <<2, 1>>}, p \in {"valid", "same"}, df \in Dfs}
PermNodes == {[op |-> "permute", in |-> <<0>>, dims |-> d] : d \in {f \in [1..3 -> 1..3] : {f[1], f[2], f[3]} = 1..3}}
FlatNodes == {[op |-> "flatten", in |-> <<0>>, df |-> df] : df \in Dfs}
Fits(n, s) == CASE n.op = "conv" -> n.padding = "same" \/ ((n.kernel[1] - 1) * n.dilation[1] < s[1] /\ (n.kernel[2] - 1) * n.dilation[2] < s[2])
                [] n.op = "maxpool" -> n.padding = "same" \/ (n.pool[1] <= s[1] /\ n.pool[2] <= s[2])
                [] OTHER -> TRUE
Init == \E n \in ConvNodes \cup PoolNodes \cup PermNodes \cup FlatNodes : \E s \in {<<h, w, 2>> : h \in 2..Size, w \in 2..Size} :
          /\ Fits(n, s) /\ nd = n /\ ish = IF n.op \in {"conv", "maxpool"} THEN Img(s, n.df) ELSE s
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Osh == NodeShape(nd, <<ish>>)
Hwc == Spatial(ish, nd.df)
Xs == [n \in 1..ProdSeq(ish) |-> ((n * n * 3 + 5 * n) % 17) - 6]
AtHw(h, w, c) == IF h < 0 \/ h >= Hwc[1] \/ w < 0 \/ w >= Hwc[2] THEN 0 ELSE Xs[HwcIdx(h, w, c, Hwc, nd.df)]
(* the definition: number of positions of the window in the padded image, the padding being split with the odd one after *)
PadAll(i, k, d) == IF nd.padding = "valid" THEN 0 ELSE Pos((CeilDiv(Hwc[i], nd.strides[i]) - 1) * nd.strides[i] + (k - 1) * d + 1 - Hwc[i])
ConvDef(oh, ow, f) ==
  SumSeq([a \in 1..nd.kernel[1] |-> SumSeq([b \in 1..nd.kernel[2] |-> SumSeq([c \in 1..2 |->
     nd.W[a][b][c][f] * AtHw(oh * nd.strides[1] + (a - 1) * nd.dilation[1] - (PadAll(1, nd.kernel[1], nd.dilation[1]) \div 2),
                           ow * nd.strides[2] + (b - 1) * nd.dilation[2] - (PadAll(2, nd.kernel[2], nd.dilation[2]) \div 2), c - 1)])])])
ConvOk == nd.op = "conv" =>
  LET o == Spatial(Osh, nd.df) r == ConvRows(nd, ish) IN
  \A h \in 0..(o[1] - 1) : \A w \in 0..(o[2] - 1) : \A f \in 1..2 :
    SparseDot(r[HwcIdx(h, w, f - 1, o, nd.df)], Xs) = ConvDef(h, w, f)
PoolOk == nd.op = "maxpool" =>
  LET o == Spatial(Osh, nd.df) r == PoolWins(nd, ish) IN
  \A h \in 0..(o[1] - 1) : \A w \in 0..(o[2] - 1) : \A c \in 0..1 :
    LET win == r[HwcIdx(h, w, c, o, nd.df)] IN
    /\ Len(win) > 0      \* no window falls entirely in the padding
    /\ {win[q] : q \in 1..Len(win)} = {HwcIdx(p[1], p[2], c, Hwc, nd.df) : p \in {p \in (0..(Hwc[1] - 1)) \X (0..(Hwc[2] - 1)) :
          \E a \in 0..(nd.pool[1] - 1) : \E b \in 0..(nd.pool[2] - 1) :
             p = <<h * nd.strides[1] + a - (PadAll(1, nd.pool[1], 1) \div 2), w * nd.strides[2] + b - (PadAll(2, nd.pool[2], 1) \div 2)>>}}
ImgOf(f) == {f[n] : n \in 1..Len(f)}
PermOk == nd.op = "permute" =>
  /\ ImgOf(PermuteIdx(nd, ish)) = 1..ProdSeq(ish)
  /\ LET inv == [op |-> "permute", in |-> <<0>>, dims |-> [q \in 1..3 |-> CHOOSE p \in 1..3 : nd.dims[p] = q]]
         f == PermuteIdx(nd, ish) g == PermuteIdx(inv, Osh) IN
     \A n \in 1..Len(f) : f[g[n]] = n
FlatOk == nd.op = "flatten" => ImgOf(FlattenIdx(nd, ish)) = 1..ProdSeq(ish) /\ Osh = <<ProdSeq(ish)>>
ConcatOk == nd.op = "flatten" => \A ax \in {-1, 1, 2, 3} :
  LET shs == <<ish, ish, ish>> n == [op |-> "concat", axis |-> ax] f == ConcatIdx(n, shs) IN
  /\ Len(f) = 3 * ProdSeq(ish)
  /\ ImgOf(f) = (1..3) \X (1..ProdSeq(ish))
=============================================================================
