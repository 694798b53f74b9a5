"""What each check explores."""
COMMON_ASSUMPTIONS=['inputs are integers in the stated ranges scaled by a power of two; IEEE double rounding inside the code is accounted for with sound error bounds (decisions inside the error band are pinned to single points)',
 'libc, libm (sin, cos, atan2, pow) and libstdc++ streams run concretely; a symbolic value reaching them is pinned to each of its values in turn']
SPECS={}
def spec(id,units,**k): SPECS[id]=dict(units=units,**k)
def U(harness,quick,thorough=None,**k): return dict(harness=harness,quick=[list(map(str,a)) for a in quick],thorough=[list(map(str,a)) for a in (thorough or quick)],**k)
NT=18
MB='regions of 3..34 corners (square, L, comb, star, arrow, hexagon, quadrilateral, octagon), one symbolic seed on up to 17x17 lattice points or two on lines of up to 9 points, plus up to three fixed seeds; one symbolic seed on 3x3 (thorough up to 9x9) points among 36 (thorough 90) fixed ones'
spec('C01',[U('mesh',[('tile',1,1,'s0.8.0.8'),('tile',2,2,'s0.16.0.16'),('tile',4,2,'s6.14.6.14'),('tile',1,1,'s0.8.0.8/f4.4/f2.6'),('tile',1,1,'x0.8.3/y5.0.8'),('tile',1,2,'d3.10/x6.8.5/f10.3'),('tile',5,2,'s0.16.6.6/f4.12','-',1),('tile',0,2,'x1.12.3/f6.6/f6.6'),('tile',8,2,'x3.14.8'),('tile',13,1,'s2.7.2.7/f4.4','-',3),('tile',1,1,'s0.8.0.8','-',0,'',-3),('tile',2,2,'s3.13.3.6/f12.2/f2.14','-',2,'',-6,1000,-500),('tile',1,2,'f4.4/f4.8/f4.12/f8.4/f8.12/f12.4/f12.8/f12.12/s6.10.6.10'),('tile',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('tile',15,4,'g6.4.16.4.8.1/s18.20.3.4'),('tile',101,1,'s0.8.0.8'),('tile',202,1,'x0.8.5/f1.7')],
  [('tile',1,1,'s0.8.0.8'),('tile',1,4,'s0.32.0.32'),('tile',2,2,'s0.16.0.16'),('tile',3,2,'s0.20.0.12'),('tile',4,2,'s4.16.4.16'),('tile',1,1,'s0.8.0.8/f4.4/f2.6'),('tile',1,1,'x0.8.3/y5.0.8'),('tile',6,2,'s2.16.2.16/f9.9'),('tile',8,2,'s0.16.0.16'),('tile',7,1,'s0.9.0.9'),('tile',13,1,'s1.8.1.8/f4.4','-',3),('tile',14,1,'s0.10.0.10'),('tile',11,1,'s0.12.0.7'),('tile',1,1,'s1.7.1.7/s1.7.1.7'),('tile',12,2,'s1.18.0.16/f8.8/f9.5','-',2),('tile',10,2,'s0.40.0.4'),('tile',9,2,'s-10.12.-10.10'),('tile',1,1,'s0.8.0.8','-',0,'',-3),('tile',2,2,'s3.13.3.13/f12.2/f2.14','-',2,'',-6,1000,-500),('tile',1,2,'f4.4/f4.8/f4.12/f8.4/f8.12/f12.4/f12.8/f12.12/s3.13.3.13'),('tile',4,2,'s6.14.6.14','-',3,'',9,-100000,70000),('tile',1,8,'g6.6.10.10.6.6/s24.32.24.32'),('tile',15,4,'g6.4.16.4.8.1/s18.26.3.5'),('tile',1,8,'g4.4.6.7.10.9/s27.30.27.30'),('tile',16,4,'s30.33.15.16/f20.10/f50.20/f40.28'),('tile',102,2,'s0.16.0.16'),('tile',202,1,'s0.8.0.8/f1.7'),('tile',204,2,'s6.14.6.14')],
  reach=('tile',),bounds=MB)])
spec('C02',[U('mesh',[('near',1,1,'s0.8.0.8'),('near',2,1,'s0.8.0.8'),('near',13,1,'x1.8.4/f4.6'),('near',0,2,'x2.14.4'),('near',0,2,'y7.1.9'),('near',1,1,'x0.8.3/y5.1.7'),('near',12,1,'s3.7.3.6/f4.4'),('near',5,1,'y2.0.8/f6.2','-',1),('near',1,2,'d0.16/f5.11'),('near',1,1,'s0.8.0.8','-',0,'',-6),('near',13,1,'f2.2/f2.5/f5.2/f7.7/f3.7/f7.3/s4.6.4.6'),('near',12,1,'s3.7.3.6/f4.4','-',1,'',8,3000,7000),('near',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('near',15,4,'g6.4.16.4.8.1/s18.20.3.4'),('near',101,1,'s0.8.0.8'),('near',202,1,'x0.8.5/f1.7')],
  [('near',1,1,'s0.8.0.8'),('near',1,4,'s0.32.0.32'),('near',2,2,'s0.16.0.16'),('near',13,1,'s1.8.1.8/f4.6'),('near',0,2,'s0.16.0.14'),('near',1,1,'x0.8.3/y5.1.7'),('near',12,1,'s1.8.1.7/f4.4'),('near',5,1,'s0.8.0.8/f6.2','-',1),('near',6,2,'s2.16.2.16'),('near',3,1,'s0.10.0.6'),('near',4,2,'s6.14.6.14'),('near',1,1,'s1.7.1.7/s1.7.1.7'),('near',1,1,'s0.8.0.8','-',0,'',-6),('near',13,1,'f2.2/f2.5/f5.2/f7.7/f3.7/f7.3/s1.8.1.8'),('near',12,1,'s1.8.1.7/f4.4','-',1,'',8,3000,7000),('near',1,2,'f4.4/f4.8/f4.12/f8.4/f8.12/f12.4/f12.8/f12.12/s3.13.3.13','-',0,'',-5,-100,20),('near',1,8,'g6.6.10.10.6.6/s24.32.24.32'),('near',15,4,'g6.4.16.4.8.1/s18.26.3.5'),('near',1,8,'g4.4.6.7.10.9/s27.30.27.30'),('near',16,4,'s30.33.15.16/f20.10/f50.20/f40.28'),('near',102,2,'s0.16.0.16'),('near',202,1,'s0.8.0.8/f1.7'),('near',204,2,'s6.14.6.14')],
  reach=('near',),bounds=MB)])
spec('C03',[U('mesh',[('conf',1,1,'s0.8.0.8'),('cdt',1,1,'s0.8.0.8/f4.4/f6.2'),('cdt',2,2,'s0.16.0.16/f3.3'),('conf',2,1,'s0.8.0.8'),('cdt',6,1,'s2.7.2.7/f4.4','-',0,'0.1'),('cdt',1,1,'s1.7.3.3/f4.6/f2.1/f6.1','-',0,'1.2'),('cdt',1,1,'x0.8.3/y5.0.8'),('cdt',3,1,'s0.10.0.6'),('conf',4,2,'x4.16.9'),('cdt',1,1,'s1.7.1.7/f1.1/f7.7/f6.1','-',2,'1.2/3.0'),('conf',0,2,'x2.13.4/f7.6'),('cdt',14,1,'s0.10.2.2/s0.10.8.8'),('cdt',5,1,'s0.8.0.8/f5.5','-',3),('cdt',1,1,'f4.1/f4.1/s1.7.4.4/f4.7/f6.4','-',0,'2.4'),('cdt',1,1,'x0.8.1/f4.1/f2.4/f6.4/f4.6','-',1,'3.2/3.4'),('cdt',1,2,'s1.15.4.4/f4.2/f2.14','R6.6.3.2',0,'0.2'),('cdt',1,1,'s0.8.0.8/f4.4','-',0,'',-6,1000,-500),('cdt',1,2,'f4.4/f4.8/f4.12/f8.4/f8.12/f12.4/f12.8/f12.12/s6.10.6.10','-',0,'0.8/8.7'),('cdt',1,1,'f2.4/s5.7.2.6/f4.7/f4.2/f5.5/f3.4','-',0,'0.2/0.1'),('conf',1,1,'s2.6.2.6/f4.4','-',1,'',9,-100000,70000),('conf',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('cdt',1,8,'g6.6.10.10.6.6/s27.29.27.29','-',0,'0.14/14.35'),('cdt',15,4,'x10.14.5/f40.4/f70.5/f100.3/f30.20'),('conf',101,1,'s0.8.0.8'),('conf',202,1,'x0.8.5/f1.7'),('cdt',102,2,'s0.16.4.4','R3.3.3.3'),('cdt',203,1,'x0.10.5'),('cdt',1,4,'f4.4/f4.28/f8.5/f8.27/f12.4/f12.28/f16.5/f16.27/f20.4/f20.28/f6.16/f10.15/f14.17/f18.16/s21.23.14.16','-',0,'0.1/2.3/4.5/6.7/8.9')],
  [('cdt',1,1,'f4.1/f4.1/s1.7.2.4/f4.7/f6.4','-',0,'2.4'),('cdt',1,1,'s0.8.0.4/f4.1/f2.4/f6.4/f4.6','-',1,'3.2/3.4'),('cdt',1,2,'s1.15.1.5/f4.2/f2.14','R6.6.3.2',0,'0.2'),('conf',1,1,'s0.8.0.8'),('conf',1,4,'s0.32.0.32'),('cdt',1,2,'s0.16.0.16/f8.8/f12.4'),('cdt',2,2,'s0.16.0.16/f3.3'),('conf',2,2,'s0.16.0.16'),('cdt',6,2,'s3.16.3.15/f8.8','-',0,'0.1'),('cdt',1,1,'s1.7.1.7/f4.6/f2.1/f6.1','-',0,'1.2'),('cdt',1,1,'x0.8.3/y5.0.8'),('cdt',1,1,'s0.8.0.8/s0.8.0.8'),('cdt',3,2,'s0.20.0.12'),('conf',4,2,'s4.16.4.16'),('conf',0,2,'s0.16.0.14/f7.6'),('cdt',14,1,'s0.10.0.10/x0.10.8'),('cdt',9,1,'s-6.6.-6.5'),('conf',12,2,'s3.15.3.13/f9.9'),('cdt',5,2,'s0.16.0.16/f10.10','-',3),('cdt',1,1,'s0.8.0.8/f4.4','-',0,'',-6,1000,-500),('cdt',1,2,'f4.4/f4.8/f4.12/f8.4/f8.12/f12.4/f12.8/f12.12/s3.13.3.13','-',0,'0.8/8.7'),('cdt',1,1,'f2.4/s4.7.1.7/f4.7/f4.2/f5.5/f3.4','-',0,'0.2/0.1'),('conf',1,1,'s0.8.0.8/f4.4','-',1,'',9,-100000,70000),('conf',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('cdt',1,8,'g6.6.10.10.6.6/s24.32.24.32','-',0,'0.14/14.35'),('cdt',15,4,'s10.14.4.5/f40.4/f70.5/f100.3/f30.20'),('cdt',1,8,'g4.4.6.7.10.9/s27.30.27.30','-',0,'0.44/45.89'),('conf',102,2,'s0.16.0.16'),('conf',202,1,'s0.8.0.8/f1.7'),('conf',204,2,'s6.14.6.14'),('cdt',102,2,'s0.16.4.4','R3.3.3.3'),('cdt',203,1,'x0.10.5'),('cdt',1,4,'f4.4/f4.28/f8.5/f8.27/f12.4/f12.28/f16.5/f16.27/f20.4/f20.28/f6.16/f10.15/f14.17/f18.16/s21.25.13.18','-',0,'0.1/2.3/4.5/6.7/8.9')],
  reach=('cdt','conf','restricted'),bounds=MB+'; up to five restricted segments between seeds, one end symbolic')])
spec('C04',[U('mesh',[('edges',1,1,'s0.8.0.8'),('edges',2,2,'s0.16.0.16'),('edges',1,2,'s1.15.2.2','D8.8.4'),('edges',1,1,'s0.8.0.8/f4.4/f2.6'),('edges',4,2,'x4.16.9'),('dedges',1,1,'s0.8.0.8/f4.4'),('dedges',3,1,'s0.10.0.6'),('edges',1,1,'x0.8.3/y5.0.8'),('dedges',2,1,'s0.8.0.8/f2.2','-',4),('edges',12,1,'s3.7.3.6'),('edges',1,2,'f8.0/s1.15.1.4'),('edges',1,2,'f4.4/f4.8/f4.12/f8.4/f8.12/f12.4/f12.8/f12.12/s6.10.6.10','-',2),('edges',2,2,'s3.13.3.6/f12.2','-',2,'',-6,1000,-500),('dedges',1,2,'f1.1','R3.3.4.4/r9.12.2.10.3.2'),('edges',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('edges',15,4,'g6.4.16.4.8.1/s18.20.3.4'),('dedges',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('edges',101,1,'s0.8.0.8'),('edges',202,1,'x0.8.5/f1.7')],
  [('edges',1,1,'s0.8.0.8'),('edges',1,4,'s0.32.0.32'),('edges',2,2,'s0.16.0.16'),('edges',1,2,'s1.15.1.15','D8.8.4'),('edges',1,1,'s0.8.0.8/f4.4/f2.6'),('edges',4,2,'s4.16.4.16'),('dedges',1,1,'s0.8.0.8/f4.4'),('dedges',3,2,'s0.20.0.12'),('edges',1,1,'x0.8.3/y5.0.8'),('dedges',2,1,'s0.8.0.8/s0.8.0.8','-',4),('edges',12,1,'s1.9.1.7'),('edges',3,2,'s0.20.0.12'),('edges',1,2,'f8.0/s1.15.1.15'),('edges',1,2,'f4.4/f4.8/f4.12/f8.4/f8.12/f12.4/f12.8/f12.12/s3.13.3.13','-',2),('edges',2,2,'s3.13.3.13/f12.2','-',2,'',-6,1000,-500),('dedges',1,2,'f1.1','R3.3.4.4/r9.12.2.10.3.2'),('edges',1,8,'g6.6.10.10.6.6/s24.32.24.32'),('edges',15,4,'g6.4.16.4.8.1/s18.26.3.5'),('edges',1,8,'g4.4.6.7.10.9/s27.30.27.30'),('edges',16,4,'s30.33.15.16/f20.10/f50.20/f40.28'),('dedges',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('edges',102,2,'s0.16.0.16'),('edges',202,1,'s0.8.0.8/f1.7'),('edges',204,2,'s6.14.6.14')],
  reach=('interior','boundary'),bounds=MB)])
spec('C05',[U('mesh',[('pmap',1,1,'s0.8.0.8'),('pmap',2,2,'s0.16.0.16'),('pmap',1,2,'s1.15.2.2','D8.8.4'),('pmap',1,1,'s0.8.0.8/f4.4/f2.6'),('dpmap',1,1,'s0.8.0.8/f4.4'),('dpmap',3,1,'s0.10.0.6'),('pmap',1,1,'x0.8.3/y5.0.8'),('dpmap',2,1,'s0.8.0.8/f2.2','-',4),('pmap',1,2,'f4.4/f4.8/f4.12/f8.4/f8.12/f12.4/f12.8/f12.12/s6.10.6.10','-',2),('pmap',4,2,'x4.16.9'),('pmap',2,2,'s3.13.3.6/f12.2','-',2,'',-6,1000,-500),('dpmap',1,2,'f1.1','R3.3.4.4/r9.12.2.10.3.2'),('pmap',12,1,'s3.7.3.6'),('pmap',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('pmap',15,4,'g6.4.16.4.8.1/s18.20.3.4'),('dpmap',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('pmap',101,1,'s0.8.0.8'),('pmap',202,1,'x0.8.5/f1.7')],
  [('pmap',1,1,'s0.8.0.8'),('pmap',1,4,'s0.32.0.32'),('pmap',2,2,'s0.16.0.16'),('pmap',1,2,'s1.15.1.15','D8.8.4'),('pmap',1,1,'s0.8.0.8/f4.4/f2.6'),('dpmap',1,1,'s0.8.0.8/f4.4'),('dpmap',3,2,'s0.20.0.12'),('pmap',1,1,'x0.8.3/y5.0.8'),('dpmap',2,1,'s0.8.0.8/s0.8.0.8','-',4),('pmap',12,1,'s1.9.1.7'),('pmap',3,2,'s0.20.0.12'),('pmap',4,2,'s4.16.4.16'),('pmap',1,2,'f4.4/f4.8/f4.12/f8.4/f8.12/f12.4/f12.8/f12.12/s3.13.3.13','-',2),('pmap',2,2,'s3.13.3.13/f12.2','-',2,'',-6,1000,-500),('dpmap',1,2,'f1.1','R3.3.4.4/r9.12.2.10.3.2'),('pmap',1,8,'g6.6.10.10.6.6/s24.32.24.32'),('pmap',15,4,'g6.4.16.4.8.1/s18.26.3.5'),('pmap',1,8,'g4.4.6.7.10.9/s27.30.27.30'),('pmap',16,4,'s30.33.15.16/f20.10/f50.20/f40.28'),('dpmap',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('pmap',102,2,'s0.16.0.16'),('pmap',202,1,'s0.8.0.8/f1.7'),('pmap',204,2,'s6.14.6.14')],
  reach=('pmap',),bounds=MB)])
spec('C06',[U('mesh',[('vhole',1,1,'f1.1','r1.4.1.4.3.3'),('cdt',1,1,'s0.8.0.8','R2.3.4.3'),('vhole',1,2,'s2.14.2.2','C8.8.3'),('vhole',1,2,'','c6.10.8.8.3'),('vhole',1,2,'f1.1','R2.3.4.3/w9.8.2.5.2.6'),('vhole',1,2,'s1.15.3.3','D8.9.4'),('cdt',2,2,'s1.7.1.7/f12.2/f2.14','R1.9.2.2/t10.2'),('conf',2,2,'f3.3','r9.12.1.4.3.2'),('vhole',2,2,'f2.14','t1.1/r8.11.2.3.2.2'),('cdt',13,2,'f9.3','r4.10.5.8.3.4'),('cdt',1,2,'f1.1','p0.6.0.6.2.2.8.2.8.8.7.8.7.3.3.3.3.8.2.8'),('vhole',1,2,'f8.14','R2.2.2.3/w6.2.2.4.2.4!/R12.2.2.5'),('cdt',2,2,'f1.15','R2.2.2.2/C12.3.2/D3.7.1/r2.5.9.13.2.2!'),('vhole',1,2,'s3.9.3.4','R4.4.4.4'),('vhole',1,2,'f4.4/f8.8','R4.4.4.4/r9.12.2.10.3.2','0','',-5,700,-300),('cdt',1,2,'f8.8/s4.6.4.4','R4.4.4.4'),('vhole',1,8,'g6.6.10.10.6.6/s27.28.37.38','R40.40.3.3'),('vhole',202,2,'s0.16.4.4','R3.3.3.3'),('vhole',102,2,'x0.16.4','R3.3.3.3')],
  [('vhole',1,2,'s1.15.14.14','R2.2.2.3/w6.2.2.4.2.4!/R12.2.2.5'),('cdt',2,2,'f1.15','R2.2.2.2/C12.3.2/D3.7.1/r2.5.9.13.2.2!'),('vhole',1,4,'','R3.3.4.4/R12.3.4.4/R21.3.4.4/r3.24.12.24.4.4!'),('cdt',1,2,'f1.1','p0.6.0.6.2.2.8.2.8.8.7.8.7.3.3.3.3.8.2.8'),('vhole',1,1,'s0.8.0.8','R2.3.3.3'),('vhole',1,2,'f1.1','r1.11.1.11.4.3'),('cdt',1,2,'s0.16.0.16','R4.6.8.6'),('vhole',1,2,'s1.15.1.15','C8.8.3'),('vhole',1,2,'','c5.11.5.11.3'),('vhole',1,2,'f1.1','R2.3.4.3/w9.8.2.5.2.6'),('vhole',1,2,'s1.15.1.15','D8.9.4'),('cdt',2,2,'s1.7.1.7/f12.2/f2.14','R1.9.2.2/t10.2'),('conf',2,2,'f3.3','r9.12.1.4.3.2'),('vhole',2,2,'s0.16.0.16','t1.1/R9.2.2.2'),('cdt',13,2,'f9.3','r4.10.5.8.3.4'),('vhole',4,4,'','r17.19.16.20.3.3'),('vhole',1,2,'s0.16.0.16','R4.4.4.4'),('vhole',1,2,'f4.4/f8.8','R4.4.4.4/r9.12.2.10.3.2','0','',-5,700,-300),('cdt',1,2,'f8.8/s0.16.0.16','R4.4.4.4'),('vhole',1,8,'g6.6.10.10.6.6/s27.30.36.38','R40.40.3.3'),('vhole',202,2,'s0.16.4.4','R3.3.3.3'),('vhole',102,2,'x0.16.4','R3.3.3.3')],
  reach=('tile','cdt'),bounds='square, L, octagon or star with up to four rectangular, triangular, diamond, U-shaped or circular holes of either direction, one of them at a symbolic position (up to 11x11) or of symbolic size, or one symbolic seed around fixed holes')])
spec('C09',[U('c09',[(t,t%2,t%4,0) for t in range(NT)]+[(2,1,3,20000),(9,0,2,-3000),(0,0,0,0,2),(8,1,0,0,3),(1,0,0,0,-1,2),(6,1,0,0,-1,0)],
  [(t,r,s,0) for t in range(NT) for r in (0,1) for s in (0,1,3)]+[(t,0,1,20000) for t in range(NT)]+[(t,t%2,0,0,c) for t in (0,1,2,4,6,8,9,12) for c in range(3)]+[(t,t%2,0,0,-1,c) for t in range(NT) for c in (0,2)],
  reach=('boundary','inside','outside'),bounds='18 concrete outlines of 3..34 corners, query point at half-lattice positions over the bounding box plus one; one symbolic corner in a 5x5 window in the last scenarios')])
spec('C10',[U('c10',[(0,2,0,'area'),(1,2,1,'area'),(2,2,4,'area',1),(6,2,0,'area',0,4),(4,1,2,'area',1,3,4000),
   (0,1,1,'centroid'),(1,1,0,'centroid',1),(3,1,2,'centroid'),(12,2,0,'centroid'),
   (2,2,0,'average'),(10,2,1,'average'),
   (0,2,0,'diameter'),(6,1,1,'diameter',1),(2,1,0,'diameter'),(13,1,3,'diameter'),(1,1,2,'diameter',0,4),
   (0,2,1,'edge'),(5,1,3,'edge',1),(12,2,0,'edge'),(8,1,1,'edge'),
   (1,1,1,'stale'),(6,1,2,'stale',1),(15,2,3,'area'),(16,1,5,'centroid'),(16,1,7,'diameter',1),(15,2,4,'average'),(15,1,9,'diameter')],
  [(0,3,0,'area'),(1,4,1,'area',0,9),(2,2,4,'area',1),(6,3,0,'area',0,4),(4,3,2,'area',1,9,4000),(15,4,3,'area',0,9),(16,4,3,'area',1,9),(0,1,1,'centroid',0,9),(1,2,0,'centroid',1),(3,1,2,'centroid',0,9),(12,2,0,'centroid',0,9),(14,1,4,'centroid'),(16,2,5,'centroid'),(15,1,5,'centroid'),(2,4,2,'average',0,20),(10,2,1,'average'),(15,6,4,'average',1,9),(0,2,0,'diameter',0,9),(6,2,1,'diameter',1),(2,1,0,'diameter',0,9),(13,2,3,'diameter',0,4),(1,2,2,'diameter',0,4),(16,1,7,'diameter',1,9),(15,1,9,'diameter',0,9),(0,2,1,'edge',0,9),(5,2,3,'edge',1),(12,2,0,'edge',0,9),(8,2,1,'edge'),(16,1,1,'edge'),(1,2,1,'stale'),(6,2,2,'stale',1)],
  reach=('ccw','cw','centroid','average','diameter','edge','stale'),bounds='outlines of 3..34 corners with 1 or 2 corners symbolic in a window of 7x7 or 9x9 lattice points each, both orientations')])
BITS={'theory':'bits'}
spec('C13',[U('c13',[('eq',0),('eq',1),('less',0),('less',1),('tri',0),('tri',1),('seg',0)],[('eq',0),('eq',1),('less',0),('less',1),('tri',0),('tri',1),('seg',0),('seg',1),('trans1',0),('trans',0)],reach=('equal','different','less','notless','tri','seg'),opt=BITS,weight=4,bounds='every pair (segment vertices: triple) of points with finite double coordinates, bit-precise; default tolerance or every tolerance in (0,1e300]'),
  U('c13',[('transg',0),('transg',1)],[('transg',0),('transg',1),('transg',0,1),('transg',1,1)],reach=('trans','transeq'),bounds='transitivity: triples of points with coordinates n*2^-20, |n|<=2^26, compared along x and along y')])
spec('C14',[U('c14',[('seg',),('key',),('edge',),('nb',),('offset',),('order',)],reach=('eq','ne'),opt=BITS,bounds='every pair (order: triple) of ordered index pairs over all 2^32 indices; offsets within 2^30, bit-precise'),
  U('c14',[('reorient',),('poly',4),('poly',6),('polyhash',3),('polyhash',4)],[('reorient',),('poly',3),('poly',4),('poly',5),('poly',6),('polyhash',3),('polyhash',4)],reach=('eq','poly'),bounds='reorientation of the key of one segment around centres in [-6,6]^2; polygons of 3..6 corners in every rotation and direction; polygons of 3 or 4 corners with indices in 0..3')])
spec('C15',[U('c15',[('int',3,100,7),('int',4,100,15),('int',4,100,127,'0021'),('int',4,100,127,'0310'),('int',5,100,127,'00210'),('int',3,50,127,'456'),('dbl',4,100,127,'0010'),('dbl',3,100,127,'045'),('dbl',3,50,127,'046'),('pt',3,3,127,'000'),('pt',3,2,127,'001'),('pt',4,2,127,'0020'),('pt',2,2,127,'06'),('int',2,9,3,'-',40),('int',1,9,127,'-',70),('dbl',1,3,3,'-',40),('pt',1,2,3,'-',40)],
  [('int',4,100,15),('int',5,100,7),('int',3,50,127,'???'),('dbl',3,50,127,'???'),('int',3,50,127,'456'),('pt',4,3,7,'0000'),('pt',3,2,127,'045'),('pt',3,2,7,'???'),('dbl',5,100,7,'0010?'),('int',2,20,3,'-',70),('int',2,4,127,'-',30),('dbl',2,3,7,'-',80),('pt',2,1,7,'-',40)],
  reach=('push','delete','pop','list','common'),bounds='up to 5 operations (push, delete, remove first, clear, push a list, push another list, copy; choice of operation symbolic in some scenarios) on up to 7 elements; integers in [-100,100], doubles in [-50,50]/2, points on a grid of up to 4x4 moved by up to 4/2^20; one or two operations on a list that already holds 40 or 70 elements')])
spec('C21',[U('c21',[('set','???')],[('set','????')],reach=('set',),opt=BITS,bounds='any sequence of three (thorough: four) setter calls with any 32-bit or non-NaN double argument, bit-precise'),
  U('c21',[('enum',),('tol',),('grade',20),('prec',),('scale',2),('scale',4),('scale',10),('hist','gg'),('hist','gtp'),('hist','tkg'),('hist','kPt'),('hist','pkt')],[('hist','ggtt'),('hist','gtkp'),('hist','kktg'),('hist','pPgk'),('enum',),('tol',),('grade',60),('prec',),('scale',2),('scale',4),('scale',10),('scale',1),('scale',3)],reach=('in','out','grade','prec','scale','hist'),bounds='tolerance n/2^16 up to 2 and distances n/2^16 up to 4; grades 3..20 (thorough 60) with radius 1..3; precision 0..17; scales 2, 4, 10 with a hole corner on a lattice of 1/8; up to three (thorough: four) changes of values with everything used in between (grades 3..12, precisions 0..6, tolerances 2^-2..2^-16, scales 1..100000)')])
spec('C24',[U('c24',[('seg',3,2,'ipi'),('seg',2,3,'ii'),('seg',3,2,'iii'),('pt',3,2,'il'),('pt',3,1,'ili'),('seg',3,1,'iii',2),('seg',3,1,'icpc',2),('seg',3,1,'ipii',2),('pt',3,1,'iil',2),('seg',1,5,'i',0,30),('seg',1,5,'p',0,40),('pt',1,3,'l',0,30)],
  [('seg',4,2,'iiii',2),('seg',3,2,'???',3),('seg',5,1,'icpci',2),('pt',4,1,'iili',2),('seg',3,3),('seg',3,3,'?p?'),('seg',4,2,'ipii'),('pt',3,2,'iil'),('pt',4,1,'iili'),('seg',2,4,'ip',0,20),('seg',1,7,'p',0,60),('pt',1,5,'l',0,30)],
  reach=('second','replace','hit','miss'),bounds='up to 4 insertions of polygons or neighbour pairs (repeated ones in some scenarios) for edges with end points in 0..3 or points on a grid of up to 3x3 moved by up to 4/2^20, then any lookup; one insertion into a map that already holds up to 40 entries')])
spec('C12',[U('c12',[('inter',6,0,0,3,2,1,-2),('inter',200,0,0,77,50,1,-2),('inter',5,1000,-2000,3,2,1,-2,0.03125),('inter2',4,3,-2,-3,2),('inter2',70,0,0,30,20),('inter2',9,0,0,5,0),('inter2',9,0,0,0,-4),('on',6,0,0,4,2),('on',5,1,2,3,-2,99),('on4',100,0,0,3,2,99),('on',9,-3,4,0,5),('basic',1000),('ccw',1000),('ccw',1000,0,0,0,0,99),('index',20),('col',200,0,0,40,27)],
  [('inter4',20),('inter4',60),('inter2',70,0,0,30,20),('inter2',70,0,0,-30,0,0,0,0.125),('on4',1000,0,0,3,2,99),('basic',100000),('ccw',100000,0,0,0,0,99),('index',1000),('col',2000,0,0,400,271)],
  reach=('meet','apart','on','off','basic','turn','straight','index','col','notcol'),bounds='segments and points on lattices of up to 401x401 (containment: half-lattice), up to three of the four end points symbolic (thorough: all four); 19 directions of the fixed segment through windows of up to 2001x2001 for measures and turns')])
spec('C25',[U('c25',[('box',),('in',),('sides',)],reach=('box','in','out','sides'),opt=BITS,bounds='boxes given by any two corners with finite double coordinates, any query point, bit-precise'),
  U('c25',[('swap',),('eq',20),('region',1,0,9),('region',2,1,3,-100,4),('region',12,2,4,0,0),('region',12,2,4,0,0,-1),('region',6,0,2,5,3,147573952589676412928),('region',15,7,3,5),('region',16,7,3,5)],[('swap',),('eq',1000),('region',1,0,9),('region',2,1,6,-100,4),('region',12,2,20,0,0),('region',12,2,9,5000,1,-1),('region',6,0,3,5,3,147573952589676412928),('region',3,2,6,0,7),('region',9,1,9,0,3),('region',13,0,9,0,4)],reach=('swap','equal','different','region'),bounds='pairs of boxes with corners in 0..20; outlines of 4..8 corners, one or two of them symbolic in windows of up to 19x19, also moved to |x|>=2^67')])
spec('C26',[U('c26',[('norm',10,4096),('norm',20,1000),('norm',2,100000),('big',40),('less',8,720),('less',8,720,1),('conv',20),('sum',8),('cart',4),('cart',3,100,-50)],[('norm',10,100000),('norm',30,4096),('big',40),('big',60),('less',16,720),('less',16,7200,1),('conv',30),('sum',12),('cart',15),('cart',5,100,-50)],reach=('norm','less','notless','conv','cart'),bounds='multiples of 2^-10 up to 4096 degrees, of 2^-20 up to 1000, of 1/4 up to 100000 and 2^40*180*k+r; conversions for multiples of 2^-20 in (0,360]; directions of all vectors in [-4,4]^2 (atan2 itself runs concretely, one path per direction)')])
spec('C11',[U('c11',[('convex',0,0,9),('convex',5,1,5),('convex',8,3,5),('convex',6,'0.3',3),('convex',13,2,6),('convex',12,1,6,5000,'0.0009765625'),('convex',103,2,6),('self',1,'0.1'),('self',4,3,4),('self',8,2,6),('self',201,1,9),('self',3,5,5),('self',7,4,4),('self',12,0,7,1000),('self',102,'3.4',3),('self',14,6,4),('edge',2,'-'),('edge',4,'-'),('edge',0,'-'),('fix',0,0,9),('fix',8,1,12),('fix',102,'4.0',4),('fix',101,'0.1',5,-20000),('equal',0,3),('convex',16,7,3),('convex',116,20,4),('self',15,6,4),('fix',16,'4.9',3)],
  [('convex',0,0,9),('convex',1,'0.2',4),('convex',5,'1.6',4),('convex',8,'3.1',5),('convex',6,'0.3',9),('convex',13,'2.3',6),('convex',12,1,6,5000,'0.0009765625'),('convex',103,'2.3',6),('convex',4,'3.4',4),('self',1,'0.1',6),('self',4,'3.4',4),('self',8,'2.0',6),('self',201,'1.2',9),('self',3,5,5),('self',6,'0.2',4),('self',7,'4.5',4),('self',12,0,7,1000),('self',102,'3.4',5),('self',14,'6.7',3),('edge',2,'-'),('edge',4,'-'),('edge',0,'-'),('edge',3,'-'),('fix',0,'0.1',9),('fix',8,'1.3',12),('fix',102,'4.0',4),('fix',101,'0.1',5,-20000),('equal',0,3),('equal',0,4,6),('convex',16,7,3),('convex',116,20,4),('self',15,6,4),('fix',16,'4.9',3)],
  reach=('convex','reflex','meet','simple','side','noside','turned','kept','equal'),bounds='outlines of 3..34 corners with one or two corners symbolic in windows of up to 25x25 lattice points, also reversed, moved by 20000 or scaled by 2^-10; every pair of indices in -1..n+2; every three (thorough: four) corners out of eight in every order')])
spec('C20',[U('c20',[('s0.4.0.4/s0.4.0.4/f2.2',),('s0.4.0.4/s0.4.0.4',),('s0.4.0.4/s0.4.0.4/f0.0/f4.3/f2.4',),('s0.10.0.10/f2.1/f8.3/f5.9/f1.7/f6.0',),('s-9.9.-9.9/f0.0/f0.0/f3.3/f-3.-3',),('s0.40.0.40/f3.20/f40.22/f20.2/f18.39/f31.30/f8.9',),('s0.8.0.8/f0.0/f8.0/f8.8/f0.8',),('s0.4.0.4/s0.4.0.4/f1.3',100000,'01'),('s0.60.0.60/f0.5/f60.50/f30.0/f31.60',7,'','0.0009765625'),('x0.12.3/x0.12.7/f6.0/f6.10/f2.5',),('y3.0.9/y3.0.9/y3.0.9',),('g0.0.6.6.6.6/s10.14.10.14',),('f0.20/f2.12/f5.6/f9.2/f14.0/f20.1/f25.4/f29.9/f31.15/f30.22/f27.28/f22.33/f15.35/f8.33/f3.28/s26.34.10.20/g8.8.4.4.3.3',),('f-50.25/f-40.16/f-30.9/f-20.4/f-10.1/f0.0/f10.1/f20.4/f30.9/f40.16/f50.25/s44.49.45.60',),('f-50.25/f-40.16/f-30.9/f-20.4/f-10.1/f0.0/f10.1/f20.4/f30.9/f40.16/f50.25/s-49.-44.45.60',),('f-50.-25/f-40.-16/f-30.-9/f-20.-4/f-10.-1/f0.0/f10.-1/f20.-4/f30.-9/f40.-16/f50.-25/s44.49.-60.-45',),('f-50.-25/f-40.-16/f-30.-9/f-20.-4/f-10.-1/f0.0/f10.-1/f20.-4/f30.-9/f40.-16/f50.-25/s-49.-44.-60.-45',)],
  [('s0.4.0.4/s0.4.0.4/f2.2',),('s0.4.0.4/s0.4.0.4',),('s0.4.0.4/s0.4.0.4/s0.4.0.4',),('s0.8.0.8/s0.8.0.8/f2.1/f8.3/f5.9',),('s0.3.0.3/s0.3.0.3/s0.3.0.3/f1.1',),('s0.10.0.10/f2.1/f8.3/f5.9/f1.7/f6.0',),('s-9.9.-9.9/f0.0/f0.0/f3.3/f-3.-3',),('s0.400.0.400/f30.200/f400.220/f200.20/f180.390/f310.300/f80.90',),('s0.8.0.8/f0.0/f8.0/f8.8/f0.8',),('s0.5.0.5/f2.2/f4.1/s0.5.0.5',100000,'01'),('s0.60.0.60/f0.5/f60.50/f30.0/f31.60',7,'','0.0009765625'),('x0.12.3/x0.12.7/f6.0/f6.10/f2.5',),('y3.0.9/y3.0.9/y3.0.9/y3.0.9',),('x0.9.3/x0.9.3/x0.9.3/f4.4',),('g0.0.6.6.6.6/s10.14.10.14',),('f0.20/f2.12/f5.6/f9.2/f14.0/f20.1/f25.4/f29.9/f31.15/f30.22/f27.28/f22.33/f15.35/f8.33/f3.28/s26.34.10.20/g8.8.4.4.3.3',),('f-50.25/f-40.16/f-30.9/f-20.4/f-10.1/f0.0/f10.1/f20.4/f30.9/f40.16/f50.25/s44.49.45.60',),('f-50.25/f-40.16/f-30.9/f-20.4/f-10.1/f0.0/f10.1/f20.4/f30.9/f40.16/f50.25/s-49.-44.45.60',),('f-50.-25/f-40.-16/f-30.-9/f-20.-4/f-10.-1/f0.0/f10.-1/f20.-4/f30.-9/f40.-16/f50.-25/s44.49.-60.-45',),('f-50.-25/f-40.-16/f-30.-9/f-20.-4/f-10.-1/f0.0/f10.-1/f20.-4/f30.-9/f40.-16/f50.-25/s-49.-44.-60.-45',)],
  reach=('flat','hull','calipers'),bounds='2..7 (fixed ones up to 37) points of which one to three are symbolic on lattices of up to 61x61 (thorough 401x401), with repeated, collinear and coinciding points, also moved by 100000 or scaled by 2^-10')])
spec('C07',[U('c07',[('hole',1,1,'r-2.7.-2.7.3.3','s-4.36.14.14'),('hole',1,1,'r-4.9.3.3.3.3','s0.32.0.32'),('hole',12,1,'r-2.7.-2.7.3.3','f20.20'),('hole',2,1,'r-2.9.-2.9.2.2','f7.7/f17.5'),('hole',6,2,'p-2.14.-2.14.0.0.3.1.1.3','f30.30'),('hole',8,2,'r-2.18.-2.18.1.1','f17.17'),('hole',13,1,'r-2.7.4.4.4.3','s-4.40.10.30'),('hole',1,2,'r1.5.-2.5.4.4/R8.8.5.9','s0.64.30.34'),('hole',2,2,'R2.12.3.7/r-1.12.-1.2.3.2','s-4.64.3.3'),('hole',1,2,'R-1.4.4.4/R2.2.6.3/r6.12.5.5.3.3','s-4.70.19.19'),('hole',1,1,'r-1.7.-1.7.2.2','f3.3/f13.27',30000000),('hole',112,2,'r0.6.0.5.3.3','s20.40.33.33'),('hole',1,2,'p0.8.0.8.1.1.7.1.7.7.6.7.6.2.2.2.2.7.1.7','f9.9'),('hole',14,2,'P2.1.19.1.19.18.6.18.6.17.18.17.18.2.2.2','f9.9'),('hole',4,2,'r7.11.7.11.3.3','f40.20/f35.35'),('hole',1,2,'r2.10.13.13.2.4/r4.11.4.4.2.2','f40.60/f33.30'),('hole',1,1,'r-2.7.-2.7.3.3!','f17.17/f3.30'),('hole',2,1,'t3.3/r-2.9.1.1.2.2!','f7.7/f17.5'),('hole',15,2,'r20.26.6.10.3.3','f9.9/s20.60.30.30'),('hole',16,2,'r-2.30.8.8.4.3','s0.136.40.40'),('hole',15,4,'R8.2.3.3/R28.2.3.3/R48.2.2.3/r60.66.2.4.3.3/R80.3.2.2/R100.2.3.3','s10.200.14.14')],
  [('hole',1,1,'r-2.7.-2.7.3.3','s-4.36.-4.36'),('hole',1,2,'r-4.17.-4.17.3.3','s-4.68.-4.68'),('hole',12,1,'r-2.7.-2.7.3.3','s-4.36.-4.36'),('hole',2,1,'r-2.9.-2.9.2.2','s-4.36.-4.36'),('hole',6,2,'p-2.14.-2.14.0.0.3.1.1.3','s-4.72.30.34'),('hole',8,2,'r-2.18.-2.18.1.1','f17.17'),('hole',9,2,'p-12.10.-12.8.0.0.3.1.1.3','f0.2'),('hole',5,2,'r-2.14.-2.17.2.2','f16.30/f3.3'),('hole',0,2,'r-1.13.-1.12.3.3','f3.3/f17.9/f32.20'),('hole',13,1,'r-2.7.-2.7.4.3','s-4.40.-4.40'),('hole',1,2,'r1.5.-2.5.4.4/R8.8.5.9','s0.64.-4.68'),('hole',2,2,'R2.12.3.7/r-1.12.-1.2.3.2','s-4.64.-4.64'),('hole',1,2,'R-1.4.4.4/R2.2.6.3/r6.12.5.5.3.3','s-4.70.-4.70'),('hole',1,1,'r-1.7.-1.7.2.2','f3.3/f13.27',30000000),('hole',112,2,'r0.6.0.5.3.3','s20.40.20.40'),('hole',1,2,'p0.8.0.8.1.1.7.1.7.7.6.7.6.2.2.2.2.7.1.7','s0.64.0.64'),('hole',14,2,'P2.1.19.1.19.18.6.18.6.17.18.17.18.2.2.2','s0.80.0.80'),('hole',4,2,'r7.11.7.11.3.3','f40.20/f35.35'),('hole',15,2,'r20.26.6.10.3.3','f9.9/s20.60.30.30'),('hole',16,2,'r-2.30.8.8.4.3','s0.136.40.40'),('hole',15,4,'R8.2.3.3/R28.2.3.3/R48.2.2.3/r60.66.2.4.3.3/R80.3.2.2/R100.2.3.3','s10.200.14.14')],
  reach=('cut','inside','outside','touch','in','out'),bounds='square, L, hexagon, quadrilateral, octagon, arrow, star and spiral regions; rectangular, triangular and U-shaped holes at up to 20x20 positions on a lattice, up to three holes one after the other, also 3*10^7 from the origin; query points on a quarter lattice; holes that split the region are not explored')])
spec('C22',[U('c07',[('wrap',1,1,'r-4.9.-4.9.3.3','s-4.36.-4.36'),('wrap',2,1,'r-2.9.-2.9.4.4','s-4.36.-4.36'),('wrap',1,1,'R-2.3.12.2','s-12.44.-12.44',1000000000,1000),('wrap',12,2,'p-2.14.-2.14.0.0.3.1.1.3','f30.30/f35.12'),('wrap',1,1,'p-1.1.-1.1.-1.-1.9.-1.9.9.-1.9','s-12.44.-12.44',1000,100000),('wrap',12,1,'t1.1','s-4.36.-4.36'),('wrap',8,2,'r-2.18.-2.18.3.3','f17.17/f3.30',0,1000),('wrap',3,2,'r-2.20.5.9.4.3','f3.3/f9.17',-200000,100),('wrap',1,1,'r-4.9.-4.9.3.3!','s-4.36.14.14'),('wrap',102,1,'r-2.9.-2.9.4.4!','f7.7/f17.5'),('wrap',101,1,'r-4.9.-4.9.3.3','s-4.36.14.14',7,10),('wrap',15,2,'r20.26.6.10.3.3','s10.100.30.30')],
  [('wrap',1,1,'r-4.9.-4.9.3.3!','s-4.36.-4.36'),('wrap',102,1,'r-2.9.-2.9.4.4!','s-4.36.-4.36'),('wrap',101,1,'r-4.9.-4.9.3.3','s-4.36.-4.36',7,10),('wrap',1,1,'r-4.9.-4.9.3.3','s-4.36.-4.36'),('wrap',2,1,'r-2.9.-2.9.4.4','s-4.36.-4.36'),('wrap',1,1,'R-2.3.12.2','s-12.44.-12.44',1000000000,1000),('wrap',12,2,'p-2.14.-2.14.0.0.3.1.1.3','s-4.40.20.20/f35.12'),('wrap',1,1,'p-1.1.-1.1.-1.-1.9.-1.9.9.-1.9','s-12.44.-12.44',1000,100000),('wrap',12,1,'t1.1','s-4.36.-4.36'),('wrap',8,2,'r-2.18.-2.18.3.3','f17.17/f3.30',0,1000),('wrap',3,2,'r-2.20.-2.13.4.3','f3.3/f9.17',-200000,100),('wrap',6,1,'r-4.9.-4.9.4.4','f17.17/f3.30',0,1000),('wrap',4,1,'r-4.9.-4.9.4.4','f17.17/f3.30',0,1000),('wrap',15,2,'r20.26.6.10.3.3','s10.100.30.30')],
  reach=('in','out','apart','cover','inside'),bounds='square, L, quadrilateral, arrow and comb parents; rectangular and triangular children at up to 17x17 lattice positions, including ones that split, cover or miss the parent; scales 1..100000, up to 10^9 from the origin; query points on a quarter lattice')])
spec('C17',[U('c17',[('grid',3,2,8),('grid',4,3,8,2,1000,1),('grid',1,3,5,0,0,2),('grid',2,1,500,0,0,0),('grid',5,7,100,4,-30),('single',3,3,8),('single',2,3,8,0,0,1),('single',1,4,20,1,500,1),('single',7,2,20,1,500,0),('both',),('fn',20,10),('alt',3,4,5),('alt',2,5,5,1,1),('alt',4,3,6),('alt',5,6,100,3),('wave',2,30,4,2),('wave',4,0,6),('wave',1,-90,3,1),('irnd',-3,7,1),('inoise',-3,7,4),('inoise',1,12,3),('dnoise',-4,4,3,2),('dnoise',1,400,300,5),('drnd',-300,700,0,2),('sign',1,9),('sign',-20,40),('grid',25,25,8),('alt',30,21,100,3)],
  [('grid',3,2,8),('grid',4,3,8,2,1000,1),('grid',1,3,5,0,0,2),('grid',2,1,500,0,0,0),('grid',12,9,1000,6,-30000),('grid',1,1,100,0,0,1),('grid',20,20,100,4,-30),('single',3,3,8),('single',2,3,8,0,0,1),('single',1,4,20,1,500,1),('single',17,12,2000,5,500,0),('both',),('fn',20,10),('fn',24,40),('alt',3,4,5),('alt',2,5,5,1,1),('alt',4,3,6),('alt',5,6,100,3),('alt',12,9,1000,4),('wave',2,30,12,2),('wave',4,0,16),('wave',1,-90,12,1),('wave',7,45,10,3),('irnd',-30,70,1),('inoise',-13,17,4),('inoise',1,40,3),('dnoise',-4,4,3,2),('dnoise',1,400,300,5),('drnd',-3000,7000,0,2),('sign',1,9),('sign',-20,40),('grid',25,25,8),('alt',30,21,100,3)],
  reach=('grid','single','both','fn','alt','wave','rnd','plus','minus','sign'),bounds='boxes with any two corners on lattices of up to 1001x1001 (thorough 2001x2001) in either order, 1..7 (thorough 20) points per direction; linear rules, all provided rules; up to 7 rows of up to 5 values for the alternating rule (thorough 9 of 12); limits and draws of the random rules symbolic (the standard distributions are replaced by any value of their range); sine and cosine on lattices of up to 13x13')])
spec('C16',[U('c16',[('ear',0,0,6),('ear',1,'0.2',3),('ear',4,2,6),('ear',102,3,6,1000),('ear',3,5,3,0,1,3),('ear',14,6,3),('ear',108,2,5,0,'0.0009765625',2),('ear',7,4,5),('ear',111,2,5),('ear',6,'0.3',2),('center',12,1,9),('center',6,3,5),('center',113,2,3),('center',8,3,4,1000),('center',1,'0.2',3),('center',9,'1.4',3),('delown',0,0,6),('delaunay',2,4,4),('delown',4,2,4),('delaunay',1,3,3),('delaunay',108,3,4,0,1,1),('delaunay',113,2,3),('delaunay',3,5,2),('delaunay',6,0,4,200),('ear',15,4,3),('ear',115,30,3,0,1,7),('ear',16,11,3),('center',16,3,2),('delown',16,11,2),('delaunay',15,3,2),('ear',17,15,4),('ear',117,15,3,0,1,5),('ear',17,15,3,0,1,8),('delaunay',17,15,2)],
  [('ear',0,'0.2',6),('ear',1,'0.1.2',2),('ear',4,'2.5',4),('ear',102,'3.4',4,1000),('ear',3,'5.8',3,0,1,3),('ear',14,'6.9',2),('ear',108,'2.3',5,0,'0.0009765625',2),('ear',7,'4.9',4),('ear',111,'2.8',4),('ear',6,'0.3',9),('ear',10,'0.4',6),('ear',3,'3.4',8),('ear',14,'8.9',6),('center',12,'1.3',9),('center',6,'3.5',5),('center',113,'2.6',3),('center',8,'3.1',4,1000),('center',1,'0.2',6),('center',9,'1.4',5),('delaunay',0,'0.1',4),('delaunay',2,'4.0',4),('delaunay',4,'2.4',3),('delaunay',108,'3.0',4,0,1,1),('delaunay',113,'2.5',3),('delaunay',3,'5.6',3),('delaunay',6,'0.3',4,200),('delaunay',14,'6.7',2),('ear',15,4,3),('ear',115,30,3,0,1,7),('ear',16,11,3),('center',16,3,2),('delown',16,11,2),('delaunay',15,3,2),('ear',17,15,4),('ear',117,15,3,0,1,5),('ear',17,15,3,0,1,8),('delaunay',17,15,2)],
  reach=('ear','center','delaunay','rejected','cw','ccw'),bounds='outlines of 3..34 corners with one or two corners symbolic in windows of up to 19x19 lattice points each, both directions, any starting corner, also scaled by 2^-10 or moved by 1000; outlines with consecutive collinear corners or that meet themselves are left out')])
spec('C18',[U('c18',[('circle',1,20),('circle',12,12,100,10,1000000),('circle',7,7,1000000,20),('circle',30,40,100,0,0),('hole',3,9,100,0,0,0,5),('hole',12,12,1000,3,0,0,0),('arc',1,12,100,0,0,0,90),('arc',12,12,50,2,100,30,30),('arc',5,5,50,2,100,90,-270),('arc',4,4,20,0,0,0,0,1),('arc',7,11,20,3,500,45,360)],
  [('circle',1,120),('circle',12,12,100,10,1000000),('circle',7,7,1000000,20),('circle',997,1000,100),('hole',3,40,100,0,0,0,5),('hole',12,12,1000,3,0,0,0),('arc',1,60,100,0,0,0,90),('arc',12,12,50,2,100,30,30),('arc',5,5,50,2,100,90,-270),('arc',4,4,20,0,0,0,0,1),('arc',13,13,200,5,0,0,0,1),('arc',7,11,20,3,500,45,360)],
  reach=('circle','hole','arc'),bounds='any centre and radius on lattices of up to 2000001 values per coordinate (steps down to 2^-20, up to 10^6 from the origin); every grade in 1..20 and 30..40 (thorough up to 120 and 997..1000); arcs between 0,30..240 and -180..180 degrees in every combination, and full, empty and backward ones')])
spec('C08',[U('c08',[(1,1,'-','s-1.17.-1.17','L'),(2,1,'r1.2.1.2.2.2','s-1.17.-1.17/f1.1/f1.1/f9.9','hL'),(6,1,'P3.3.6.3.5.6','s0.20.0.20/f2.2','hL'),(1,1,'C4.4.2','s0.16.0.16','hL'),(1,1,'r-2.7.-2.7.3.3','f4.4/f0.0/f16.3/f15.15','hL'),(1,1,'R2.2.3.3','s0.16.0.16/f1.1_f5.5/f2.2/f20.1/f4.6_f8.15','LhFGXL'),(4,1,'-','s0.20.0.20','LG'),(108,1,'-','x0.16.7/y5.0.16_f6.8','LgF',20000),(3,1,'-','s0.20.0.12','L'),(1,1,'r0.5.0.5.3.3','f4.4/f0.0_f2.2/f12.12','LhGCGNF'),(2,2,'R1.1.2.3/R9.2.3.2/R2.9.3.3','s-1.33.-1.33/f4.4','hhhL'),(14,1,'-','s0.20.0.20/s4.4.4.4_f3.1_f9.19','LFLG'),(1,2,'D8.8.4','s6.26.6.26','hLG'),(5,1,'R3.2.2.2','x-1.17.4/y8.-1.17/f3.3_f16.16/f8.8','LXhF',-3000),(13,1,'R3.3.3.3','s-1.19.-1.19_y6.0.18','hGL'),(1,8,'R40.40.3.3','g6.6.10.10.6.6/s20.30.20.30','hL'),(15,1,'-','s0.64.-1.14','LG'),(1,1,'-','f4.4/f20.3_s-1.17.-1.17/f9.9','LL'),(4,1,'-','f3.3/f1.1_s0.20.0.20','LLGG'),(2,1,'-','f1.1/f9.9_f12.12/f2.3_s-1.17.3.9/f-3.5','FFL')],
  [(1,1,'-','s-1.17.-1.17/s-1.17.-1.17','L'),(2,1,'r1.2.1.2.2.2','s-1.17.-1.17/s1.16.1.16/f9.9','hL'),(6,1,'P3.3.6.3.5.6','s0.20.0.20/s2.9.2.9','hL'),(1,1,'c3.5.3.5.2','s0.16.0.16','hL'),(1,1,'r-2.7.-2.7.3.3','s-1.17.-1.17/f4.4','hL'),(1,1,'R2.2.3.3','s0.16.0.16/f1.1_f5.5/f2.2/f20.1/f4.6_f8.15','LhFGXL'),(4,1,'-','s0.20.0.20/s0.20.0.20','LG'),(108,1,'-','s0.16.0.16/y5.0.16_f6.8','LgF',20000),(3,1,'-','s0.20.0.12/x0.20.5','L'),(1,1,'r0.5.0.5.3.3','s4.4.0.16/f0.0_f2.2/f12.12','LhGCGNF'),(2,2,'R1.1.2.3/R9.2.3.2/R2.9.3.3','s-1.33.-1.33/s0.20.0.20','hhhL'),(14,1,'-','s0.20.0.20/s4.4.4.4_f3.1_f9.19','LFLG'),(1,2,'D8.8.4','s0.32.0.32/s6.12.6.12','hLG'),(5,1,'R3.2.2.2','s-1.17.-1.17/f3.3_f16.16/f8.8','LXhF',-3000),(13,1,'R3.3.3.3','s-1.19.-1.19_y6.0.18','hGL'),(7,1,'r3.4.1.2.2.2','s0.18.0.18','LhG'),(12,1,'-','s0.20.0.20/s0.20.0.20','L'),(9,1,'-','s-12.14.-14.12','LG'),(0,1,'-','s0.16.0.16','LG'),(11,1,'-','s0.24.0.18','LG'),(1,8,'R40.40.3.3','g6.6.10.10.6.6/s20.30.20.30','hL'),(15,1,'-','s0.64.-1.14','LG'),(1,1,'-','f4.4/f20.3_s-1.17.-1.17/f9.9','LL'),(4,1,'-','f3.3/f1.1_s0.20.0.20','LLGG'),(2,1,'-','f1.1/f9.9_f12.12/f2.3_s-1.17.3.9/f-3.5','FFL')],
  reach=('kept','dropped','generator','file','seeds'),bounds='nine outlines of 4..12 corners, up to three rectangular, triangular, diamond or circular holes (inside, or cutting the outline at up to 9x9 positions), one or two seeds on half-lattices of up to 35x35 points around the region plus fixed ones, up to seven operations in a row (list, file, generator, clear, add hole, drop holes, copy)')])
spec('C23',[U('c23',[(1,1,'s0.8.0.8/f2.2','-','v'),(1,1,'s0.8.0.8/f2.2/f2.5','R5.5.2.2','cf'),(1,1,'s0.8.2.2/f2.2/f2.5','R5.5.2.2','vc'),(2,1,'s0.8.0.8','-','vf'),(12,1,'x1.8.3/f4.5','-','fvf',2),(101,1,'s0.8.0.8','t2.3','c'),(1,1,'s0.8.0.8/f2.2','R4.4.2.2','kh'),(1,2,'s0.16.0.16/f2.2','R4.4.2.2','ks'),(1,1,'s0.8.0.8/f2.2','R4.4.2.2/R6.2.1.1','kx'),(4,1,'f5.5/f4.5','-','km'),(1,2,'s2.14.2.14','D8.8.4','kc'),(3,1,'s0.10.0.6','-','cvc'),(101,1,'s0.8.0.8/f2.2','R4.4.2.2','kh'),(102,1,'s0.8.0.8/f2.2','-','km'),(102,1,'s2.6.2.2','-','vc'),(1,8,'g6.6.10.10.6.6/s27.28.27.27','-','vf')],
  [(1,1,'s0.8.0.8/f2.2','-','vfv'),(1,2,'s0.16.0.16/f2.2','-','vcv'),(1,1,'s0.8.0.8/f2.2/f2.5','R5.5.2.2','cfv'),(2,2,'s0.16.0.16','-','vcvf'),(12,1,'s0.9.0.8/f4.5','-','fvf',2),(101,1,'s0.8.0.8','t2.3','cv'),(1,1,'s0.8.0.8/f2.2','R4.4.2.2','kh'),(1,2,'s0.16.0.16/f2.2','R4.4.2.2','ks'),(1,1,'s0.8.0.8/f2.2','R4.4.2.2/R6.2.1.1','kx'),(4,1,'f5.5/f4.5','-','km'),(1,2,'s2.14.2.14','D8.8.4','kc'),(3,1,'s0.10.0.6','-','cvc'),(4,2,'s4.16.4.16','-','vf'),(1,2,'s1.15.1.15','C8.8.3','vc'),(101,1,'s0.8.0.8/f2.2','R4.4.2.2','kh'),(102,1,'s0.8.0.8/f2.2','-','km'),(102,1,'s2.6.2.6','-','vc'),(1,8,'g6.6.10.10.6.6/s27.28.27.27','-','vf')],
  reach=('again','copies'),bounds='square, L, comb, star and quadrilateral outlines with up to two holes, one seed on up to 17x17 lattice points plus fixed ones; up to four generations in a row in several orders, from the original and from a copy; five kinds of changes to a copied region')])
spec('C19',[U('c19',[('str',),('region',1,1,'R2.2.3.3','s0.8.0.8/f6.6'),('region',2,1,'r-2.7.-2.7.3.3','f6.2',99),('region',1,2,'R1.1.3.3/C10.10.2','s0.16.0.16/f7.7',3),('mesh',1,1,'s0.8.0.8','-',6,'v'),('mesh',1,1,'s0.8.0.8','R2.3.3.2',10,'c'),('mesh',2,1,'f3.3','-',99,'v'),('read',2,2),('read',3,1,'w',400,5),('read',1,3,'t',300,3),('mesh',1,8,'g6.6.10.10.6.6/s27.29.27.27','-',6,'v'),('region',15,1,'R2.0.1.1','s0.32.0.2/g2.1.3.1.10.1'),('read',10,1),('read',9,3,'w',300,50),('region',202,1,'R2.2.1.1','s0.8.0.8'),('mesh',202,1,'s0.8.0.8','-',6,'v'),('region',102,1,'R2.2.1.1','x0.8.3'),('soup',2,2,'s',6),('soup',3,3,'t',17,40),('soup',4,2,'s',35,14),('soup',9,1,'s',200,5),('soup',2,1,'s',0,14),('read',5,3,'s',300,-9)],
  [('str',),('region',1,1,'R2.2.3.3','s0.8.0.8/f6.6'),('region',2,1,'r-2.7.-2.7.3.3','f6.2',99),('region',1,2,'R1.1.3.3/C10.10.2','s0.16.0.16/f7.7',3),('region',12,1,'P3.3.5.3.4.5','s0.20.0.20/s0.20.0.20',2),('mesh',1,2,'s0.16.0.16','-',6,'v'),('mesh',1,1,'s0.8.0.8','R2.3.3.2',10,'c'),('mesh',4,2,'s4.16.4.16','-',4,'v'),('mesh',2,1,'f3.3','-',99,'v'),('mesh',3,1,'s0.10.0.6','-',8,'c'),('read',2,2),('read',3,1,'w',400,5),('read',1,3,'t',300,3),('read',4,2,'s',200,12),('mesh',1,8,'g6.6.10.10.6.6/s27.29.27.27','-',6,'v'),('region',15,1,'R2.0.1.1','s0.32.0.2/g2.1.3.1.10.1'),('read',10,1),('read',9,3,'w',300,50),('region',202,1,'R2.2.1.1','s0.8.0.8'),('mesh',202,1,'s0.8.0.8','-',6,'v'),('region',102,1,'R2.2.1.1','x0.8.3'),('soup',2,2,'s',6),('soup',3,3,'t',17,40),('soup',4,2,'s',35,14),('soup',9,1,'s',200,5),('soup',2,1,'s',0,14),('read',5,3,'s',300,-9),('soup',5,3,'s',60,2000)],
  reach=('str','region','mesh','read','joined','apart'),bounds='any 32-bit index and any coordinate n*2^-20 up to 2^20 in the texts of single parts; square, L, star and quadrilateral regions with up to two holes (one at 10x10 positions) and one or two symbolic seeds; Voronoi and Delaunay meshes with a symbolic seed on up to 17x17 lattice points; every precision 0..17; mesh files of 1x1 to 3x3 blocks (thorough 4x4) of triangles and quadrilaterals with a symbolic point in a window of 801x801 and every start index up to 3; files of up to 9x9 cells that list their corners once per cell, one of them up to 3.8e-5 off (thorough 2e-3); spaces and tabs as separators; the digits of numbers are written and parsed by the standard library and are not explored (a token stands for the number)')])
spec('C27',[U('mesh',[('flags',1,1,'s0.8.0.8'),('flags',2,2,'s0.16.0.16'),('flags',1,2,'s0.16.4.4','R4.4.4.4'),('flags',1,1,'x0.8.0/f4.4'),('flags',1,1,'s0.8.0.8','-',0,'',-4),('flags',12,1,'s3.7.3.6'),('cflags',1,1,'s0.8.0.8','R2.2.1.1'),('cflags',3,1,'s0.10.0.6','-',2),('fflags',2,2,'s0.16.0.16'),('fflags',1,1,'s2.6.2.6/f4.4'),('fflags',4,2,'x4.16.9'),('cflags',1,1,'s1.7.3.3/f4.6/f2.1/f6.1','-',0,'1.2'),('flags',1,2,'f1.1','r4.8.4.8.3.3'),('flags',0,2,'x2.14.4'),('flags',0,2,'y7.1.9'),('fflags',1,2,'s1.15.3.3','R6.6.3.2'),('flags',1,8,'g6.6.10.10.6.6/s27.29.27.29'),('flags',15,4,'g6.4.16.4.8.1/s18.20.3.4'),('flags',101,1,'s0.8.0.8'),('flags',202,1,'x0.8.5/f1.7')],
  [('flags',1,1,'s0.8.0.8'),('flags',2,2,'s0.16.0.16'),('flags',1,2,'s0.16.0.16','R4.4.4.4'),('flags',1,1,'s0.8.0.8/f4.4'),('flags',1,1,'s0.8.0.8','-',0,'',-4),('flags',12,1,'s1.9.1.7'),('cflags',1,1,'s0.8.0.8','R2.2.1.1'),('cflags',3,1,'s0.10.0.6','-',2),('fflags',2,2,'s0.16.0.16'),('fflags',1,1,'s0.8.0.8/f4.4'),('fflags',4,2,'s4.16.4.16'),('cflags',1,1,'s1.7.1.7/f4.6/f2.1/f6.1','-',0,'1.2'),('flags',1,2,'f1.1','r3.9.3.9.3.3'),('flags',0,2,'s0.16.0.14'),('fflags',1,2,'s1.15.1.5','R6.6.3.2'),('flags',1,4,'s0.32.0.32'),('flags',3,2,'s0.20.0.12'),('flags',1,2,'s2.14.2.2','D8.8.4'),('flags',1,8,'g6.6.10.10.6.6/s24.32.24.32'),('flags',15,4,'g6.4.16.4.8.1/s18.26.3.5'),('flags',1,8,'g4.4.6.7.10.9/s27.30.27.30'),('flags',16,4,'s30.33.15.16/f20.10/f50.20/f40.28'),('flags',102,2,'s0.16.0.16'),('flags',202,1,'s0.8.0.8/f1.7'),('flags',204,2,'s6.14.6.14')],
  reach=('flagged','unflagged'),bounds=MB)])
spec('C28',[U('c28',[('outline',1,'0.1',3),('outline',4,3,4),('outline',8,2,6),('outline',201,1,9),('outline',204,'0.1',3),('outline',3,5,5),('outline',12,0,7,1000),('outline',102,'3.4',3),('outline',14,6,4,0,'0.0009765625'),('replace',4,3,5),('replace',102,'3.4',3,8,'R3.3.2.2'),('replace',14,6,5,1,'-'),('replace',3,5,5,6,'R3.3.2.2/R6.2.1.1'),('hole',1,1,'r-5.12.-5.12.3.3'),('hole',1,1,'p-5.12.-5.12.0.0.3.1.1.3'),('hole',12,1,'C9.9.2/r-5.9.-5.9.3.3'),('hole',101,2,'t-3.-3/R2.2.2.2/r-3.17.3.3.2.2'),('hole',2,1,'r-5.12.1.1.2.2/r-3.9.9.9.2.2'),('file',1),('file',4),('file',8),('tri',3,-2,3),('tri',2,0,2),('tri',4,0,3),('tri',0,0,0),('gen',),('center',8,3,5),('center',12,1,9),('center',113,2,3),('center',4,3,4),('outline',15,6,4),('outline',16,9,5),('replace',15,6,3)],
  [('outline',1,'0.1',5),('outline',4,'3.4',4),('outline',201,'1.2',9),('outline',204,'0.1',5),('outline',8,'2.3',6),('outline',3,'5.6',5),('outline',12,0,7,1000),('outline',102,'3.4',6),('outline',14,6,9,0,'0.0009765625'),('outline',7,'4.9',4),('outline',9,'0.4',9),('replace',4,'3.4',5),('replace',102,'3.4',4,8,'R3.3.2.2'),('replace',14,6,5,1,'-'),('replace',3,'5.6',4,6,'R3.3.2.2/R6.2.1.1'),('hole',1,2,'r-9.20.-9.20.3.3'),('hole',1,1,'p-5.12.-5.12.0.0.3.1.1.3'),('hole',12,1,'C9.9.2/r-5.9.-5.9.3.3'),('hole',101,2,'t-3.-3/R2.2.2.2/r-3.17.3.3.2.2'),('hole',2,1,'r-5.12.-5.12.2.2/r-3.9.1.1.2.2'),('file',1),('file',4),('file',8),('tri',3,-9,9),('tri',2,0,2),('tri',4,0,3),('tri',0,0,0),('gen',),('center',8,'3.1',5),('center',12,'1.3',9),('center',113,'2.3',3),('center',4,'3.4',4),('outline',15,6,4),('outline',16,9,5),('replace',15,6,3)],
  reach=('crossing','simple','kept','replaced','rejected','taken','missing','triangle','no triangle','both','one','reflex','convex'),bounds='outlines of 3..34 corners with one or two corners in windows of up to 15x15 lattice points; holes at up to 18x18 positions inside, across and outside five regions; missing files under three names; index lists of 0..4 entries')])
spec('C29',[U('c29',[('circ',40,0,0,1),('circ',200,-5,0,1),('circ',60,3,-7,1),('circ',40,-4,1000,1),('third',),('walk',3,1),('walk',4,1),('walk',5,1),('walk',3,0),('walk',2,0),('walk',4,0),('walk',1,0),('point',1),('point',3)],
  [('circ',4000,0,0,1),('circ',200,-5,0,1),('circ',60,3,-7,1),('circ',40,-4,1000,1),('third',),('walk',3,1),('walk',4,1),('walk',5,1),('walk',6,1),('walk',7,1),('walk',3,0),('walk',2,0),('walk',4,0),('walk',5,0),('walk',6,0),('walk',1,0),('point',1),('point',6)],
  reach=('circ','third','closed','open','point'),bounds='triangles with one corner anywhere in a window of up to 401x401 lattice points (thorough 8001x8001) and two fixed ones, in six orders, also moved by 1000 and scaled by 2^-5..2^3; six corner indices; fans of 1..5 (thorough 7) triangles in any orientation and two orders, from any side'),
  U('c29',[('edge',)],reach=('equal','other'),bounds='edges between any two indices',opt=BITS,weight=.3)])
spec('C30',[U('c30',[('vec',1000,0),('vec',2000000,-20),('vec',60,6),('area',0,0,5,0,1),('area',3,'2.5',5,1000,'0.0009765625'),('area',14,'1.6.9',9),('area',107,'0.3',100,-50),('coll',-20,400),('coll',-17,40),('pair',100,-8),('norm',5,0),('norm',3,-10),('index',4),('index',1),('list',0),('list',3),('words',4),('words',2),('area',15,'9.20',9)],
  [('vec',1000,0),('vec',2000000,-20),('vec',60,6),('area',0,0,5,0,1),('area',3,'2.5',5,1000,'0.0009765625'),('area',14,'1.6.9',9),('area',107,'0.3',100,-50),('area',4,'0.1.2.3.4',50),('coll',-20,40000),('coll',-17,400),('pair',100,-8),('pair',20000,-12),('norm',9,0),('norm',9,-10),('index',7),('index',1),('list',0),('list',3),('words',5),('words',2),('area',15,'9.20',9)],
  reach=('left','right','line','area','on','off','pair','norm','present','absent','some','none','words','blank'),bounds='vectors on lattices of up to 4*10^6 values per coordinate (2^-20..2^6), outlines of 3..34 corners with up to three corners (thorough five) in windows of up to 201x201, lists of up to 7 elements, lines of up to 5 characters; normalisation for every vector on 11x11 (thorough 19x19) lattices'),
  U('c30',[('sign',)],reach=('positive','negative','zero'),bounds='any int and any double n*2^-30 up to 10^6*2^-30',opt=BITS,weight=.3)])
spec('C32',[U('c32',[('maps',1,1,'s0.8.0.8','-',6),('maps',1,1,'s0.8.0.8','R2.3.3.2',10),('maps',202,1,'s0.8.0.8','-',12),('maps',15,1,'x0.40.1','R2.0.1.1',6),('maps',4,2,'x4.16.9','-',99),('maps',101,1,'x0.8.3/f6.6','-',3),('maps',1,8,'g6.6.10.10.6.6/s27.29.27.27','-',6),('hand',1,1,'f1.1','-',6,2),('hand',1,1,'f1.1','-',99,1),('poly',1,1,'s0.8.0.8','R2.2.3.3',6),('poly',1,1,'f0.0/s0.8.0.8','r-2.7.3.3.2.2/R4.4.2.2',6),('poly',1,2,'f9.9/s0.16.9.9','P1.1.7.1.7.7.6.7.6.2.2.2.2.7.1.7',99),('poly',102,2,'f1.1','r1.5.1.5.2.2/R8.1.2.2',4),('poly',8,2,'x0.36.3/f3.3','C9.9.2',6),('poly',6,2,'f30.30','p-2.14.-2.14.0.0.3.1.1.3',6),('poly',203,1,'s0.10.0.6','-',17),('hand',1,1,'f1.1','-',6,1,300),('maps',16,4,'f30.15/f20.10/s50.51.20.21/f40.28','-',6)],
  [('maps',1,2,'s0.16.0.16','-',6),('maps',1,1,'s0.8.0.8','R2.3.3.2',10),('maps',202,1,'s0.8.0.8/f2.2','-',12),('maps',15,1,'x0.40.1','R2.0.1.1',6),('maps',4,2,'s4.16.4.16','-',99),('maps',101,1,'s0.8.0.8/f6.6','-',3),('maps',1,8,'g6.6.10.10.6.6/s27.29.27.27','-',6),('hand',1,1,'f1.1','-',99,2),('poly',1,1,'s0.8.0.8','R2.2.3.3',6),('poly',1,1,'f0.0/s0.8.0.8','r-2.7.-2.7.2.2/R4.4.2.2',6),('poly',1,2,'f9.9/s0.16.9.9','P1.1.7.1.7.7.6.7.6.2.2.2.2.7.1.7',99),('poly',102,2,'f1.1','r1.5.1.5.2.2/R8.1.2.2',4),('poly',8,2,'s0.36.0.8/f3.3','C9.9.2',6),('poly',6,2,'f30.30','p-2.14.-2.14.0.0.3.1.1.3',6),('poly',203,1,'s0.10.0.6','-',17),('hand',1,1,'f1.1','-',6,2,40),('maps',16,4,'f30.15/f20.10/s50.51.20.21/f40.28','-',6)],
  reach=('edges','points','hand','poly'),bounds='maps of Voronoi and Delaunay meshes with a symbolic seed on up to 9x9 positions (thorough 17x17), with holes, clockwise and repeated corners and up to 36 further seeds; maps filled by hand with up to three symbolic edges and a point with up to 250 polygons at 6001x6001 positions; input files for regions of 4..12 corners with up to two holes, one at up to 17x17 positions, also holes whose centre is outside them; every precision 0..17')])
def _mem():
    # the scenarios of the other properties, with every access checked: every third one (thorough: all of them)
    by={}
    for pid in ('C01','C02','C03','C04','C05','C06','C07','C08','C11','C12','C13','C15','C16','C17','C19','C20','C22','C23','C24','C27','C28','C29','C32'):
        for u in SPECS[pid]['units']:
            if u.get('opt'): continue
            h=u['harness']; d=by.setdefault(h,([],[]))
            step={'mesh':6,'c07':5,'c24':3}.get(h,2)
            d[0].extend(x for x in u['quick'][::step] if x not in d[0]); d[1].extend(x for x in u['quick'] if x not in d[1])
    return [U(h,q,t,asan=True,defs=('-DSYM_MEM',),opt={'memory':True},weight=4 if h=='mesh' else 1,bounds='%d of the scenarios of the other properties (thorough: %d)'%(len(q),len(t))) for h,(q,t) in sorted(by.items())]
spec('C31',_mem(),budget=150,thorough_budget=1500)
NA={}
