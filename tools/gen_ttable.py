"""Writes spec/TTable.tla: quantiles of Student's t, checked by MCTTable's laws."""
import os
from scipy import stats
AL = [900, 800, 700, 600, 500, 400, 300, 200, 100, 50, 20, 10, 5, 2, 1]
rows = [[round(stats.t(df).isf(a / 2000) * 1000) for a in AL] for df in range(1, 21)]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'TTable.tla'), 'w') as f:
  f.write("------------------------------ MODULE TTable ------------------------------\n"
          "(* Two-sided quantiles of Student's t: TTab[df][i] is the value, in 1/1000,   *)\n"
          "(* exceeded in size with probability TAlpha[i]/1000.  The values are not      *)\n"
          "(* trusted: MCTTable checks them against closed forms and orderings.          *)\n"
          "EXTENDS Integers, Sequences\n"
          f"TAlpha == <<{', '.join(map(str, AL))}>>\nTTab == <<\n  ")
  f.write(',\n  '.join('<<' + ', '.join(map(str, r)) + '>>' for r in rows))
  f.write(" >>\nTDfMax == 20\n=============================================================================\n")
