#!/usr/bin/env python3
"""Made spec/JpegTables.tla once, from the tables of the pinned commit. Not run by any check."""
import re,os
src=open('/repo/src/quantization.rs').read()
def grab(name):
    i=src.index(name); j=src.index('\n];',i)
    b=src[src.index('= [',i)+2:j+2]
    b=re.sub(r'//.*','',b)
    nums=list(map(int,re.findall(r'\d+',b)))
    assert len(nums)==576,len(nums)
    return [nums[k*64:k*64+64] for k in range(9)]
L=grab('static DEFAULT_LUMA_TABLES: [[u16; 64]; 9]'); C=grab('static DEFAULT_CHROMA_TABLES: [[u16; 64]; 9]')
names="Default Flat CustomMsSsim CustomPsnrHvs ImageMagick KleinSilversteinCarney DentalXRays VisualDetectionModel ImprovedDetectionModel".split()
doc=["T.81 Annex K.1 / K.2","flat 16","tuned for MS-SSIM (mozjpeg)","tuned for PSNR-HVS (mozjpeg)","ImageMagick, N. Robidoux","Klein, Silverstein, Carney 1992","Watson, Taylor, Borthwick 1997 (dental X-rays)","Ahumada, Watson, Peterson 1993","Peterson, Ahumada, Watson 1993"]
o=["---------------------------- MODULE JpegTables ----------------------------",
"(* Constant tables of JPEG (T.81) and of the documented quantization presets. *)",
"EXTENDS Naturals, Sequences","",
"\\* ZZ[k+1] is the natural (row-major) index of the k-th coefficient in zigzag order (T.81 figure 5).",
"ZZ == << 0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5,\n         12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28,\n         35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,\n         58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63 >>","",
"PresetNames == { "+", ".join('"%s"'%n for n in names)+" }",""]
def fmt(t): return "<<"+",\n    ".join(", ".join("%d"%v for v in t[r*8:r*8+8]) for r in range(8))+">>"
for nm,T in (("Luma",L),("Chroma",C)):
    for n,d,t in zip(names,doc,T):
        o.append("\\* %s, %s"%(d,nm.lower())); o.append("%s_%s == %s"%(nm,n,fmt(t))); o.append("")
for nm in ("Luma","Chroma"):
    o.append("%sPreset(n) =="%nm)
    o.append("  CASE "+"\n    [] ".join('n = "%s" -> %s_%s'%(n,nm,n) for n in names)); o.append("")
o.append("=============================================================================")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../spec/JpegTables.tla'),'w').write("\n".join(o)+"\n")
