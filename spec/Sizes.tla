---------------------------- MODULE Sizes ----------------------------
(* The two size encodings of the format, as sequences of four bytes. SizesLaws shows their laws for all numbers.  *)
EXTENDS Integers, Sequences
MaxSize == 268435455      \* 2^28 - 1, what a synchsafe integer can hold
TooBig  == MaxSize + 1
\* @type: Int => Seq(Int);
BE32(n)   == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
\* @type: Int => Seq(Int);
Sync32(n) == << n \div 2097152, (n \div 16384) % 128, (n \div 128) % 128, n % 128 >>
\* decoded value, TooBig when above the range of the format (TLC integers are 32 bit)
\* @type: Seq(Int) => Int;
DecBE(b)   == IF b[1] > 15 THEN TooBig ELSE b[1] * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]
\* @type: Seq(Int) => Int;
DecSync(b) == b[1] * 2097152 + b[2] * 16384 + b[3] * 128 + b[4]
\* @type: Seq(Int) => Bool;
SyncSafe(b) == \A i \in 1..4 : b[i] < 128
======================================================================
