"""Generates the numeric constant tables of the specification (committed; regenerate with this script)."""
import math, pathlib
out=pathlib.Path(__file__).resolve().parent.parent/'spec'
N=16
rows=[]
for n in range(1,N+1):
    rows.append('<<'+', '.join(str(round(1e6*math.log10(1+9*i/n))) for i in range(n+1))+'>>')
(out/'LogTable.tla').write_text('---- MODULE LogTable ----\n(* LogT[n][i+1] = round(10^6 * log10(1 + 9 i / n)), i = 0..n.  Generated by tools/gen_tables.py *)\nLogMax == %d\nLogT == <<\n  %s >>\n====\n'%(N,',\n  '.join(rows)))
# quarter degree table of sine, 0..360 in steps of 0.5 degree would be 720 entries: use 10^6 scale, 1 degree steps with linear interpolation error < 4e-5
sin=', '.join(str(round(1e6*math.sin(math.radians(d/2)))) for d in range(0,721))
(out/'TrigTable.tla').write_text('---- MODULE TrigTable ----\nEXTENDS Integers\n(* SinT[2 d + 1] = round(10^6 * sin(d degrees)), d = 0, 0.5, .. 360.  Generated by tools/gen_tables.py *)\nSinT == << %s >>\n====\n'%sin)
