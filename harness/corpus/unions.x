const C7 = 7; const CHEX = 0x20; const CBIG = 0x7fffffff; const CU = 0xffffffff;
enum e1 { A_ONE = 1, A_TWO = 2, A_HEX = 0xff, A_BIG = 0x7fffffff, A_ZERO = 0 };
typedef e1 te1; typedef te1 tte1; typedef unsigned int tu; typedef tu ttu; typedef bool tb; typedef hyper th; typedef int ti;
struct s { int a; opaque b<>; };
union u_int switch (int d) { case 0: int a; case 1: string b; case C7: s c; case CHEX: void; case CBIG: bool e; };
union u_int_d switch (int d) { case 0: int a; case 1: case 2: case 3: s b; default: s c; };
union u_int_v switch (int d) { case 0: case C7: int a; case 9: case 10: case 11: void; default: void; };
union u_int_f switch (int d) { case 0: int a; case 5: case 6: default: hyper c; };
union u_int_fv switch (int d) { case 0: int a; case 5: case 6: default: void; };
union u_uns switch (unsigned int d) { case 0: int a; case CU: string b; case 2147483648: double c; case A_HEX: float e; };
union u_u2 switch (uint32_t d) { case 4294967295: int a; case A_ONE: case A_TWO: bool b; default: hyper h; };
union u_hyp switch (hyper d) { case 0: int a; case 4294967296: string b; case C7: s c; case 9223372036854775807: void; };
union u_uhy switch (unsigned hyper d) { case 1: int a; case 4294967297: string b; case CU: s c; default: s e; };
union u_bool switch (bool d) { case TRUE: s a; case FALSE: void; };
union u_bool1 switch (bool d) { case TRUE: int a; };
union u_bool0 switch (bool d) { case FALSE: int a; default: string s; };
union u_boolv switch (bool d) { case FALSE: void; default: void; };
union u_booln switch (bool d) { case 1: int a; case 0: s b; };
union u_enum switch (e1 d) { case A_ONE: int a; case A_TWO: s b; case A_HEX: void; case A_BIG: string c; case A_ZERO: hyper e; };
union u_enum_d switch (e1 d) { case A_ONE: case A_TWO: s a; default: int b; };
union u_enum_v switch (e1 d) { case A_BIG: case A_ZERO: s a; case A_ONE: void; default: void; };
union u_enum_n switch (e1 d) { case A_ONE: int a; case A_HEX: hyper b; };
union u_enum_num switch (e1 d) { case 1: int a; case 255: hyper b; case 0: void; };
union u_te switch (te1 d) { case A_ONE: int a; case A_HEX: s b; default: void; };
union u_tte switch (tte1 d) { case A_ONE: int a; case A_TWO: case A_HEX: s b; };
union u_tu switch (tu d) { case 3: int a; case A_BIG: s b; case CU: void; default: string x; };
union u_ttu switch (ttu d) { case 3: case 4: te1 a; case C7: s b; };
union u_tb switch (tb d) { case TRUE: te1 a; case FALSE: s b; };
union u_th switch (th d) { case 3: u_tb a; case 5000000000: u_th2 b; default: void; };
union u_th2 switch (th d) { case 1: case 2: s a; };
union u_ti switch (ti d) { case 3: u_tb a; case A_ZERO: u_th b; default: void; };
struct all { u_int a; u_int_d b; u_uns c; u_hyp d; u_bool e; u_enum f; u_tte g; u_ti h; u_th i[2]; u_enum_d j<>; u_bool0 k<2>; u_hyp l<>; u_uhy *m; u_int_f n<>; u_int_fv o[2]; };
