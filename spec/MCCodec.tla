------------------------------ MODULE MCCodec -------------------------------
(* Encoders as transducers: hex emits two characters per byte, base64 one    *)
(* character per six bits with the pending bits carried in the state.        *)
EXTENDS Codec, Json
CONSTANTS Alphabet, MaxLen, DecAlphabet, DecLen
VARIABLES s, mode, q, acc, bits, out, fin
vars == <<s, mode, q, acc, bits, out, fin>>
Init == /\ \/ mode \in {"hex", "b64"} /\ s \in SeqsUpTo(Alphabet, MaxLen)
           \/ mode = "dec" /\ s \in SeqsUpTo(DecAlphabet, DecLen)
        /\ q = 0 /\ acc = 0 /\ bits = 0 /\ out = <<>> /\ fin = FALSE
Byte1 == /\ mode # "dec" /\ ~fin /\ q < Len(s) /\ bits < 6
         /\ q' = q + 1
         /\ IF mode = "hex" THEN out' = out \o <<HexUp[s[q + 1] \div 16], HexUp[s[q + 1] % 16]>> /\ UNCHANGED <<acc, bits>>
            ELSE acc' = acc * 256 + s[q + 1] /\ bits' = bits + 8 /\ out' = out
         /\ UNCHANGED <<s, mode, fin>>
Pow(n) == CASE n = 0 -> 1 [] n = 2 -> 4 [] n = 4 -> 16 [] n = 6 -> 64 [] n = 8 -> 256
Flush == /\ mode = "b64" /\ bits >= 6
         /\ out' = Append(out, B64Char(acc \div Pow(bits - 6))) /\ bits' = bits - 6 /\ acc' = acc % Pow(bits - 6)
         /\ UNCHANGED <<s, mode, q, fin>>
Emit(o, in) == PrintT(ToJson([o |-> o, i |-> in, r |-> CodecExpected(o, in)]))
Finish == /\ ~fin /\ (mode = "dec" \/ (q = Len(s) /\ bits < 6)) /\ fin' = TRUE
          /\ out' = IF mode = "b64" /\ bits > 0 THEN Append(out, B64Char(acc * (IF bits = 2 THEN 16 ELSE 4))) \o Rep(61, IF bits = 2 THEN 2 ELSE 1) ELSE out
          /\ UNCHANGED <<s, mode, q, acc, bits>>
          /\ CASE mode = "hex" -> Emit("hex_enc", <<s>>) /\ (s # <<>> => Emit("hex_dec", <<Hex(s)>>) /\ Emit("hex_dec", <<LowerS(Hex(s))>>))
               [] mode = "b64" -> Emit("b64_enc", <<s>>) /\ Emit("b64_dec", <<B64(s)>>)
               [] OTHER -> Emit("hex_dec", <<s>>) /\ (Canonical64(s) => Emit("b64_dec", <<s>>))
Next == Byte1 \/ Flush \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* encoding has the standard length and alphabet, is computed incrementally, and is inverted by decoding
HexRight == (fin /\ mode = "hex") => /\ out = Hex(s) /\ Len(out) = 2 * Len(s)
                                     /\ \A k \in 1..Len(out) : HexVal(out[k]) >= 0 /\ ~IsLower(out[k])
                                     /\ (s # <<>> => HexText(out) /\ Unhex(out) = s /\ Unhex(LowerS(out)) = s)
B64Right == (fin /\ mode = "b64") => /\ out = B64(s) /\ Len(out) = 4 * Groups(s)
                                     /\ UnB64(out) = s /\ Canonical64(out)
HexInjective == (fin /\ mode = "dec" /\ HexText(s)) => Hex(Unhex(s)) = UpperS(s)
Terminates == <>fin
=============================================================================
