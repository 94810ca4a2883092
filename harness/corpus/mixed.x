const N = 3;
struct p { unsigned int a; bool b; };
struct q { p ps<>; p pa[2]; p *po; string s<N>; };
struct r { q qs<N>; opaque tail<>; };
union m switch (unsigned int d) { case 0: r a; case 1: case 2: q b; case 3: p c; default: r e; };
struct top { m ms<>; r rs[2]; top *next; m *mo; };
typedef top tops<2>; typedef tops topss<>; typedef m ms_t[2];
struct wrap { topss a; ms_t b; tops *c; };
struct fixeds { p a[N]; q b[2]; ms_t c[2]; tops d[1]; opaque e[N]; m f<1>; };
