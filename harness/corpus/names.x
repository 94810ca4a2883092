struct kw { int type; int match; int async; int await; int self; int ref; int move; int try; int final; int box; int yield; int loop; int in; int as; int fn; int let; int mut; int pub; int impl; int trait; int where; int while; int use; int mod; int dyn; int crate; int super; int priv; int macro; int typeof; int unsized; int virtual; int abstract; int become; int do; int override; int break; int continue; int else; int for; int if; int return; int static; int extern; };
struct kw2 { opaque type<>; string match<4>; kw *async; kw2 *self; kw loop<>; int move[2]; };
struct locals { int n_; int sum; int out; int limit; int data; int t; int v; int c; int d; int x; int b; int e; int buf; int a; int max; int i; };
union kwu switch (int type) { case 1: int match; case 2: string self; default: void; };
union kwv switch (unsigned int match) { case 1: kw2 type; };
enum lower { aa = 1, bb = 2 }; struct UPPER_case { lower AA; lower Bb; };
const int_max = 3; const unsignedx = 4; const structy = 5; struct intx { int int_; unsigned int unsigned_; hyper hyperx; opaque opaquex[structy]; string stringx<unsignedx>; intx voidx<int_max>; float floaty; double doubley; bool booly; };
typedef intx inty; typedef inty enumy; union uniony switch (int casey) { case int_max: enumy defaulty; default: inty switchy; };
struct a { int a; }; struct b { a a; a b<>; a *c; };
