const SMALL = 5; const HEXMAX = 0x10; const BIG = 70000; const ONE = 1;
struct strs { string a; string b<>; string c<1>; string d<SMALL>; string e<HEXMAX>; string f<BIG>; string g<65535>; };
struct opaques { opaque a<>; opaque b<1>; opaque c<SMALL>; opaque d<HEXMAX>; opaque e<BIG>; opaque f[1]; opaque g[2]; opaque h[3]; opaque i[4]; opaque j[SMALL]; opaque k[HEXMAX]; opaque l<4294967295>; opaque m<2147483647>; };
typedef opaque o_plain; typedef opaque o_any<>; typedef opaque o_lit<9>; typedef opaque o_const<SMALL>; typedef opaque o_fix[7]; typedef opaque o_fixc[ONE];
typedef string s_plain; typedef string s_any<>; typedef string s_lit<6>; typedef string s_const<HEXMAX>;
struct viatypedef { o_plain a; o_any b; o_lit c; o_const d; o_fix e; o_fixc f; s_plain g; s_any h; s_lit i; s_const j; };
typedef o_lit o_lit2; typedef o_lit2 o_lit3; typedef s_const s_const2; typedef s_const2 s_const3;
struct deep { o_lit3 a<2>; s_const3 b<>; o_fix c<3>; o_lit2 *d; s_lit *e; o_fixc f[3]; s_plain g[2]; };
typedef deep deeps<SMALL>; typedef o_any o_anys<ONE>; typedef s_lit s_lits<>;
