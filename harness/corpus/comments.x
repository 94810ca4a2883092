// leading // comment
/* one *//* two */ const A = /* v */ 3 ; // trailing
struct /* s */ s { /* f */ unsigned /* mid */ int a ; // int b;
  /* struct fake { int x; }; */ opaque	b /* < 9 > */ < A > ;
  string
  c < /**/ > ;
  unsigned	hyper d;
  s /* opt */ * /* ional */ e ;
} ;
enum/**/e{X=0x1,Y=2/*,Z=3*/};
union u switch ( /* type */ e d ) { case X : /* arm */ int a ; case Y : void ; /* default: void; */ } ;
typedef /* a */ s /* b */ tt [ /* c */ A ] ;
