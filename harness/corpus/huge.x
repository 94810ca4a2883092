/* Values larger than any plausible limit: see huge_values(). */
typedef opaque blob<>;
typedef string text<>;

struct word {
	unsigned int	w;
};

struct packet {
	unsigned int	before;
	opaque		data<>;
	string		note<>;
	unsigned hyper	after;
};

struct batch {
	word		words<>;
	blob		tail;
};

union message switch (unsigned int kind) {
case 0:
	blob	bytes;
case 1:
	text	chars;
case 2:
	batch	many;
default:
	void;
};

struct envelope {
	message		m<>;
	blob		*signature;
};

struct pile {
	blob		items<>;
};

struct heap {
	packet		*first;
	packet		items<>;
};
