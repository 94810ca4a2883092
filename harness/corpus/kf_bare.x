struct bare { opaque x; };
struct holder { bare items<>; };
