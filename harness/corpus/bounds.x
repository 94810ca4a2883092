const ONE = 1; const TWO = 2; const HEXB = 0xb; const WIDE = 0xffffffff; const K300 = 300;
struct el { unsigned int a; };
struct vel { opaque x<3>; string y<HEXB>; };
struct arr { el a<1>; el b<ONE>; el c<TWO>; el d<HEXB>; el e<>; el f<K300>; el g<WIDE>; vel h<2>; vel i<HEXB>; vel j<>; };
typedef el els<TWO>; typedef vel vels<3>; typedef els elss<ONE>; typedef vels velss<2>;
struct nest { els a; elss b; vels c; velss d; elss e<2>; velss f<>; };
union u switch (int d) { case 1: els a; case 2: vels b; case 3: nest c; default: velss d; };
struct us { u a<TWO>; u *b; nest *c; };
struct lateb { opaque a<LATER>; string b<LATER>; el c<LATER>; el d[LATER]; opaque e[LATER]; };
const LATER = 6;
