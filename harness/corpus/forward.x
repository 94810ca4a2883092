struct z { y a; y b<LIM>; y *c; opaque d<LIM>; };
typedef x y;
struct x { w a[LIM]; v b; };
typedef u w<2>;
union v switch (tt d) { case M_ONE: w a; case M_TWO: s b; case M_THREE: void; };
struct u { s a; r b; };
typedef q tt;
typedef opaque s[LIM];
typedef string r<LIM>;
enum q { M_ONE = 1, M_TWO = 0x2, M_THREE = 3 };
const LIM = 0x3;
