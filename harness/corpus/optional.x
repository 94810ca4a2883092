struct list { int v_; list *next; };
struct olist { opaque v_<>; olist *next; };
struct tree { string key<8>; tree *left; tree *right; };
struct otree { otree *left; opaque key<4>; otree *right; };
struct ping { int a; pong *p; }; struct pong { opaque b[2]; ping *p; qong q<>; }; struct qong { ping *a; pong *b; };
typedef list alias_l; typedef alias_l alias_ll;
struct opts { list *a; alias_ll *b; choice *c; color *d; string *e; int *f; fixed_t *g; many *h; };
enum color { RED = 3, GREEN = 0x4, BLUE = 0 };
union choice switch (color c) { case RED: list l; case GREEN: opts o; default: void; };
typedef int fixed_t[3]; typedef list many<>;
struct forest { tree trees<>; otree otrees<3>; };
struct selfarr { int a; selfarr kids<>; }; struct oselfarr { opaque a<>; oselfarr kids<2>; };
typedef selfarr sa_t<2>; struct mutual { int a; mut_t kids; }; typedef mutual mut_t<>;
