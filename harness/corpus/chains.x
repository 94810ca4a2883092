typedef c4 c5; typedef c3 c4; typedef c2 c3; typedef c1 c2; typedef base c1; struct base { int a; opaque b<7>; };
typedef d3 d4<2>; typedef d2 d3[2]; typedef d1 d2<>; typedef c5 d1<3>;
typedef n3 n4; typedef n2 n3; typedef n1 n2; typedef hyper n1; typedef n4 n5[3]; typedef n5 n6<>;
typedef e2 e3; typedef e1 e2; typedef col e1; enum col { R = 1, G = 5 };
struct use_all { c5 a; d4 b; n6 c; e3 d; c5 *e; d4 f<>; n5 g[2]; e3 h<>; use_all *next; };
typedef use_all uses<4>;
struct l1 { l2 a; }; struct l2 { l3 a<>; }; struct l3 { l4 *a; }; struct l4 { l5 a[2]; }; struct l5 { l6 a; }; union l6 switch (bool b) { case TRUE: l7 x; case FALSE: l8 y; }; struct l7 { opaque z<>; }; struct l8 { string z<5>; };
