------------------------------- MODULE MCPrim -------------------------------
(* Checks the Java overrides of Prim against its TLA+ definitions (over a    *)
(* small exhaustive universe and edge values) and against known vectors.     *)
EXTENDS Prim

Edge == {"0000000000000000", "0000000000000001", "0000000000000002", "0000000000000007",
         "000000000000000f", "0000000000000010", "00000000000000ff", "0000000000000fff",
         "0000000000001000", "000000003b9aca00", "00000000ffffffff", "0000000100000000",
         "7fffffffffffffff", "8000000000000000", "fffffffffffffffe", "ffffffffffffffff",
         "10000000000000000", "1fffffffffffffffe", "fffffffffffffffe0000000000000001"}
Small == { I2NDef(n) : n \in 0..9 } \cup { I2NDef(n) : n \in {31, 32, 33, 255, 256, 65535, 1000000000} }
Strs == {"", "0", "f", "00", "0f", "f0", "ff", "10", "0123456789abcdef"}

VARIABLES a, b
vars == <<a, b>>
U == Edge \cup Small
Init == a = ZeroW /\ b = ZeroW
Next == \/ a = ZeroW /\ a' \in U /\ b' = b
        \/ a # ZeroW /\ b = ZeroW /\ b' \in U /\ a' = a
Spec == Init /\ [][Next]_vars

NaturalsAgree ==
  /\ NAdd(a, b) = NAddDef(a, b)
  /\ NMul(a, b) = NMulDef(a, b)
  /\ NLt(a, b) = NLtDef(a, b)
  /\ (~ NLt(a, b) => NSub(a, b) = NSubDef(a, b))
  /\ (b # ZeroW => NDiv(a, b) = NDivDef(a, b) /\ NMod(a, b) = NModDef(a, b))
\* the definitions themselves obey the laws of arithmetic
NaturalLaws ==
  /\ NAddDef(a, b) = NAddDef(b, a)
  /\ NMulDef(a, b) = NMulDef(b, a)
  /\ NSubDef(NAddDef(a, b), b) = a
  /\ (b # ZeroW => NAddDef(NMulDef(NDivDef(a, b), b), NModDef(a, b)) = a /\ NLtDef(NModDef(a, b), b))
  /\ (b # ZeroW => LET c == NDivCeil(a, b) IN NLe(a, NMul(c, b)) /\ (c # ZeroW => NLt(NMul(NSub(c, "0000000000000001"), b), a)))
  /\ (NLt(a, b) \/ NLt(b, a) \/ a = b)
StringsAgree ==
  /\ \A x \in Strs, y \in Strs : Cat(<<x, y, x>>) = CatDef(<<x, y, x>>)
                              /\ (Len(x) = Len(y) => HexLt(x, y) = HexLtDef(x, y))
                              /\ Eq(x, y) = (x = y)
  /\ Cat(<<>>) = ""
  /\ \A x \in Strs, n \in 0..5 : Rep(x, n) = RepDef(x, n)
  /\ \A n \in 0..300 : I2N(n) = I2NDef(n) /\ N2I(I2N(n)) = n /\ N2IDef(I2N(n)) = n
  /\ \A s \in { <<>>, <<5>>, <<1, 2, 3>>, [k \in 1..40 |-> k * k] } : SumSeq(s) = SumSeqDef(s)
  /\ Eq([x |-> 1, y |-> <<"a">>], [y |-> <<"a">>, x |-> 1])
  /\ ~ Eq([x |-> 1], "none") /\ ~ Eq(<<1>>, "none") /\ ~ Eq(5, "5") /\ ~ Eq(<<>>, <<1>>) /\ ~ Eq(TRUE, 1)
  /\ Has([x |-> 1], "x") /\ ~ Has([x |-> 1], "y") /\ ~ Has("q", "x") /\ ~ Has(<<1>>, "x")
  /\ Get([x |-> 1], "x") = 1 /\ Get("q", "x") = "\\missing"
\* FIPS 180-4 examples; an RFC 6979 style secp256k1 signature with known public key
Vectors ==
  /\ Sha256("") = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
  /\ Sha256("616263") = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
  /\ Sha256("6162636462636465636465666465666765666768666768696768696a68696a6b696a6b6c6a6b6c6d6b6c6d6e6c6d6e6f6d6e6f706e6f7071")
       = "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"
  /\ Sha256(Rep("61", 1000)) = "41edece42d63e8d9bf515a9ba6932e1c20cbc9f5a5d134645adb5db1b9737ea3"
  \* the all-zero signature recovers nothing
  /\ EcRecover(Zeros(64), Zero32) = ""
  /\ EcRecover(Zeros(63), Zero32) = ""
  \* r = x(G), s = r, z = 0, even y: Q = r^-1 (r*G - 0) = G
  /\ LET gx == "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
         gy == "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"
     IN EcRecover(gx \o gx, Zero32) = gx \o gy
ASSUME StringsAgree
ASSUME Vectors
=============================================================================
