struct e4 { unsigned int a; };
struct e8 { hyper a; };
struct ev { opaque v<>; };
struct es { string v<>; unsigned int k; };
