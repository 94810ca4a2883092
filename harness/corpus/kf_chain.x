struct node { int v_; node *next; };
