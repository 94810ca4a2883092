struct one { opaque x; }; struct two { int a; opaque x; opaque y; string z<>; }; struct in_struct { one a; two b[2]; two *c; };
union bu switch (int d) { case 1: opaque x; case 2: one y; default: opaque z; };
struct has_u { bu a; bu *b; in_struct c; };
typedef opaque safe; struct el { safe a; }; struct ok { el a<>; safe b<3>; };
