------------------------------- MODULE Factors -------------------------------
(* Generated by tools/gen_factors.py: prime factors of p - 1 for the shipped
   primes and of 2^n - 1 for the binary field widths. *)
EXTENDS Params
PrimeFactors(p) ==
  CASE p = bn_q -> {<<2>>, <<3>>, <<13>>, <<29>>, <<67>>, <<229>>, <<55,1>>, <<215,3>>, <<251,42>>, <<95,251,49,24>>, <<201,189,108,171,2>>, <<17,170,102,155,245,160,42,163,2,93,68,253,210,196,222,117,39>>}
    [] p = bn_r -> {<<2>>, <<3>>, <<13>>, <<29>>, <<215,3>>, <<251,42>>, <<17,158,3>>, <<95,251,49,24>>, <<181,142,51,234,157,239,5>>, <<225,39,149,114,232,149,215,252,124,72,166,44>>}
    [] p = bls_r -> {<<2>>, <<3>>, <<11>>, <<19>>, <<193,39>>, <<87,234,1>>, <<131,28,13>>, <<109,212,13>>, <<121,70,38>>, <<123,152,38>>, <<139,35,32,3>>, <<101,85,47,15>>}
    [] p = ed_q -> {<<2>>, <<3>>, <<5>>, <<7>>, <<17>>, <<29>>, <<53>>, <<79>>, <<7,1>>, <<253,3>>, <<37,118,252,191,165>>, <<173,181,172,58,138,250,5>>}
    [] p = ed_r -> {<<2>>, <<3>>, <<5>>, <<7>>, <<17>>, <<29>>, <<53>>, <<79>>, <<113>>, <<7,1>>, <<253,3>>, <<145,192,219,143,154,234,243,9,176,178,4>>}
    [] p = m4_q -> {<<2>>, <<3>>, <<5>>, <<7>>, <<43>>, <<67>>, <<167>>, <<7,1>>, <<163,128,99,184,220,77,45,227,248,190,64,29,190,93,160>>, <<63,237,165,228,64,148,54,203,76,37,124,76,218,19,70,35>>}
    [] p = m4_r -> {<<2>>, <<3>>, <<7>>, <<43>>, <<163,128,99,184,220,77,45,227,248,190,64,29,190,93,160>>}
    [] p = bls_q -> {<<2>>, <<3>>, <<11>>, <<23>>, <<47>>, <<193,39>>, <<131,28,13>>, <<139,35,32,3>>, <<181,128,85,11,32,11,249,26,140>>, <<99,96,232,165,186,23,176,243,149,97,213,235,182,192,177,169,169,81,24,9,106,54,10,37,80,144,222,64,73,2>>}
BinaryFactors(n) ==
  CASE n = 32 -> {<<3>>, <<5>>, <<17>>, <<1,1>>, <<1,0,1>>}
    [] n = 64 -> {<<3>>, <<5>>, <<17>>, <<1,1>>, <<129,2>>, <<1,0,1>>, <<129,61,102>>}
    [] n = 128 -> {<<3>>, <<5>>, <<17>>, <<1,1>>, <<129,2>>, <<1,0,1>>, <<129,61,102>>, <<1,47,4>>, <<1,209,156,241,48,61>>}
    [] n = 256 -> {<<3>>, <<5>>, <<17>>, <<1,1>>, <<129,2>>, <<1,0,1>>, <<129,61,102>>, <<1,47,4>>, <<1,209,156,241,48,61>>, <<1,70,241,58,252,234,211>>, <<1,186,50,204,72,91,119,64,53,1>>}
    [] n = 192 -> {<<3>>, <<5>>, <<7>>, <<13>>, <<17>>, <<97>>, <<193>>, <<241>>, <<1,1>>, <<129,2>>, <<161,2>>, <<1,0,1>>, <<129,61,102>>, <<65,143,83,1>>, <<1,0,0,0,255,255,255,255>>}
=============================================================================
