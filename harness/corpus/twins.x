/* Names that differ by case, by an underscore or by their last character only. */
const LIMIT_A = 3;
const Limit_a = 4;
const limit_A = 5;
const LIMITA = 6;
const LIMIT_A_ = 7;
const LIMIT_A1 = 8;
const LIMIT_A11 = 9;
const _LIMIT_A = 10;

enum Kind_a { FIRST = 1, First = 2, first = 3, FIRST_ = 4, FIRST1 = 5, _FIRST = 6, FIRS = 7, FIRSTT = 8 };
enum KIND_A { Second = 1, SECOND = 2, second = 4 };
enum kind_a { THIRD = 2, Third = 1 };

struct Pair_of { unsigned int a; unsigned hyper A; string a_; opaque _a<LIMIT_A>; Kind_a a1; KIND_A A1; kind_a aa; };
struct pair_of { unsigned hyper a; unsigned int A; string a_<Limit_a>; };
struct PAIR_OF { unsigned int one; pair_of two; Pair_of three; };
struct pairOf { string s<limit_A>; };
struct pair_off { string s<LIMIT_A_>; opaque t<LIMITA>; };
struct pair_of_ { string s<LIMIT_A1>; opaque t[LIMIT_A11]; opaque u<_LIMIT_A>; };

typedef Pair_of Some_pair;
typedef pair_of some_pair;
typedef PAIR_OF SOME_PAIR<LIMIT_A>;
typedef pair_of some_pairs<Limit_a>;
typedef opaque Bytes_a<LIMIT_A>;
typedef opaque bytes_a<Limit_a>;
typedef opaque bytes_A[limit_A];
typedef string BYTES_A<LIMITA>;

union Choice_a switch (Kind_a k) {
case FIRST:	unsigned int x;
case First:	unsigned hyper X;
case first:	some_pair y;
case FIRST_:	Some_pair Y;
case FIRST1:	void;
case _FIRST:	Bytes_a z;
case FIRS:	bytes_a Z;
default:	bytes_A w;
};
union choice_a switch (KIND_A K) { case second: pairOf p; case SECOND: pair_off q; case Second: pair_of_ r; };
union CHOICE_A switch (unsigned int k) { case LIMIT_A: some_pairs p; case Limit_a: SOME_PAIR q; case limit_A: BYTES_A r; case LIMITA: void; case LIMIT_A_: case LIMIT_A1: choice_a s; default: void; };
