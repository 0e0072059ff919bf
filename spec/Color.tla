------------------------------- MODULE Color --------------------------------
(* JFIF colour conversion (BT.601 full range), twice: the 16 bit fixed point   *)
(* form libjpeg and this library use, and bounds against the real equations    *)
(* (scaled by 10^6, so that TLC's 32 bit integers are exact).                  *)
EXTENDS JpegMath

FixY(r, g, b)  == (19595 * r + 38470 * g + 7471 * b + 32767) \div 65536
FixCb(r, g, b) == (-11059 * r - 21709 * g + 32768 * b + 8388608 + 32767) \div 65536
FixCr(r, g, b) == (32768 * r - 27439 * g - 5329 * b + 8388608 + 32767) \div 65536

\* JFIF equations times 10^6: Y = 0.299 R + 0.587 G + 0.114 B
RealY6(r, g, b)  == 299000 * r + 587000 * g + 114000 * b
\* Cb = -0.168735892 R - 0.331264108 G + 0.5 B + 128
RealCb6(r, g, b) == -168736 * r - 331264 * g + 500000 * b + 128000000
RealCr6(r, g, b) == 500000 * r - 418688 * g - 81312 * b + 128000000

\* Tolerance 0.51; the coefficients above are themselves rounded to 6 digits.
\* The upper end of the chroma range, 255.5, does not fit into a sample; 255 is the nearest value.
WithinJfif(v6, out) == LET c == Clamp(v6, 0, 255000000) IN Abs(out * 1000000 - c) <= 510000

ColorOK(r, g, b, y, cb, cr) ==
  /\ WithinJfif(RealY6(r, g, b), y)
  /\ WithinJfif(RealCb6(r, g, b), cb)
  /\ WithinJfif(RealCr6(r, g, b), cr)
  /\ (r = g /\ g = b) => (y = r /\ cb = 128 /\ cr = 128)

-----------------------------------------------------------------------------
(* Pixel formats: bytes per pixel, JPEG colour type, and the value of component *)
(* c (1-based) of the pixel whose first byte is px[o+1].                       *)
Bpp(ct) == CASE ct = "Luma" -> 1
             [] ct \in {"Rgb", "Bgr", "Ycbcr"} -> 3
             [] OTHER -> 4
JpegType(ct) == CASE ct = "Luma" -> "Luma"
                  [] ct \in {"Rgb", "Rgba", "Bgr", "Bgra", "Ycbcr"} -> "Ycbcr"
                  [] ct = "Cmyk" -> "Cmyk"
                  [] OTHER -> "Ycck"
NumComps(jt) == CASE jt = "Luma" -> 1 [] jt = "Ycbcr" -> 3 [] OTHER -> 4

Comp3(r, g, b, c) == CASE c = 1 -> FixY(r, g, b)
                       [] c = 2 -> FixCb(r, g, b)
                       [] OTHER -> FixCr(r, g, b)

Component(ct, px, o, c) ==
  CASE ct \in {"Luma", "Ycbcr", "Ycck"} -> px[o + c]
    [] ct \in {"Rgb", "Rgba"} -> Comp3(px[o + 1], px[o + 2], px[o + 3], c)
    [] ct \in {"Bgr", "Bgra"} -> Comp3(px[o + 3], px[o + 2], px[o + 1], c)
    [] ct = "Cmyk" -> 255 - px[o + c]
    [] OTHER -> IF c = 4 THEN 255 - px[o + 4] ELSE Comp3(px[o + 1], px[o + 2], px[o + 3], c)
=============================================================================
