const TOP = 2147483647;
const HIGH = 0xffffffff;
enum color { RED = 0, GREEN = 1, BYTE = 255, MID = 65536, FAR = 0x7fffffff };
struct flag { bool b; };
typedef bool tflag;
typedef color tcolor;
struct link { unsigned int n; link *next; };
struct maybe { color *c; };
union by_int switch (int d) { case 0: unsigned int a; case 1: case 7: void; case 65536: bool b; case TOP: void; };
union by_uint switch (unsigned int d) { case 0: void; case 2: case 2147483648: unsigned int a; case HIGH: void; };
union by_default switch (unsigned int d) { case 3: void; case 256: unsigned int a; default: unsigned int z; };
union by_enum switch (color c) { case RED: unsigned int a; case GREEN: case FAR: void; };
union by_alias switch (tcolor c) { case BYTE: void; default: unsigned int z; };
union by_bool switch (bool b) { case TRUE: unsigned int a; case FALSE: void; };
