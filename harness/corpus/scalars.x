struct scalars {
 unsigned int a; uint32_t b; int c; int32_t d; unsigned hyper e; uint64_t f; hyper g; int64_t h;
 float i; double j; bool k; u32 l; i32 m; u64 n; i64 o;
};
typedef unsigned int t_u32; typedef int t_i32; typedef unsigned hyper t_u64; typedef hyper t_i64;
typedef float t_f32; typedef double t_f64; typedef bool t_bool;
typedef uint32_t t2; typedef int32_t t3; typedef uint64_t t4; typedef int64_t t5;
struct arrays { unsigned int a[1]; int b[2]; unsigned hyper c[3]; hyper d[5]; float e[4]; double f[2]; bool g[3]; t_u32 h[2]; t_f64 i[3]; t_bool j[5]; };
typedef unsigned int ta[7]; typedef hyper tb[2]; typedef bool tc[3]; typedef float td[2]; typedef double te[2];
struct newtypes { t_u32 a; t_i32 b; t_u64 c; t_i64 d; t_f32 e; t_f64 f; t_bool g; ta h; tb i; tc j; };
struct counted { t_u32 a<>; t_u64 b<3>; t_bool c<2>; ta d<2>; tc e<>; };
struct opts { int *a; hyper *b; bool *c; double *d; t_u32 *e; ta *f; };
