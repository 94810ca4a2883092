struct big { hyper a; string b<>; opaque c<>; }; struct el { opaque a<>; };
typedef el els<>; typedef els elss; typedef hyper hyp; typedef hyp hyp2;
union a switch (unsigned int t) { case 1: hyp2 x; default: elss y; };
union b switch (unsigned int t) { case 1: void; default: a y; };
union c switch (bool t) { case TRUE: b x; default: hyp y; };
union d switch (int t) { case 1: a x; case 2: b y; case 3: c z; case 4: case 5: default: big w; };
struct ds { d a<>; d b[2]; d *c; c e<3>; b f<>; };
union nested switch (int t) { case 0: ds x; default: inner_u y; };
union inner_u switch (unsigned int t) { case 0: els x; case 1: els y; case 2: hyp2 z; default: void; };
