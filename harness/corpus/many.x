const M1 = 1; const M2 = 2; const M3 = 3; const M4 = 4; const M5 = 5; const M6 = 6; const M7 = 7; const M8 = 8;
enum wide { W0 = 0, W1 = 1, W2 = 2, W3 = 3, W4 = 4, W5 = 5, W6 = 6, W7 = 7, W8 = 8, W9 = 9, W10 = 10, W11 = 11, W12 = 12, W13 = 13, W14 = 14, W15 = 15, W16 = 16, W17 = 17, W18 = 18, W19 = 19, W100 = 100, W200 = 200, W65536 = 65536 };
struct wide_s { int f0; string f1<M1>; opaque f2<M2>; hyper f3; bool f4; wide f5; opaque f6[M3]; float f7; double f8; unsigned int f9; unsigned hyper f10; wide f11[M4]; wide f12<M5>; int f13[M6]; string f14<>; opaque f15<>; wide_s *f16; wide *f17; wide f18<>; opaque f19[1]; opaque f20[4]; opaque f21<M8>; string f22<M7>; int f23; };
union wide_u switch (wide d) { case W0: int a; case W1: string b; case W2: wide_s c; case W3: case W4: case W5: case W6: hyper d; case W7: case W8: case W9: void; case W10: wide e; case W11: double f; case W12: float g; case W13: bool h; case W14: unsigned int i; case W15: unsigned hyper j; case W16: t0 k; case W17: t1 l; case W18: t2 m; case W19: t3 n; case W100: t4 o; case W200: t5 p; case W65536: void; };
typedef opaque t0<>; typedef string t1<>; typedef wide t2; typedef wide_s t3<M2>; typedef int t4[M3]; typedef t3 t5[M1];
struct holder { wide_u us<>; t5 x; };
