---- MODULE Trig ----
(* Sine and cosine of angles in half degrees, scale PS. *)
EXTENDS Base, TrigTable
Sin(h) == SinT[(h % 720) + 1]
Cos(h) == Sin(h + 180)
(* value of r * sin at coordinate scale, r at coordinate scale *)
Times(r, s) == IF s < 0 THEN -ScaleBy(-s, r) ELSE ScaleBy(s, r)
(* sine/cosine at h half-degrees plus a fraction f/PS of a half degree: linear interpolation (error < 1e-5) *)
SinF(h, f) == Lerp(Sin(h), Sin(h + 1), f)
CosF(h, f) == Lerp(Cos(h), Cos(h + 1), f)
====
