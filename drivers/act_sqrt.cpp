// The same with small tables of precomputed square roots.
#define LIBCOMMUTE_BOSON_MAX_NUM_PRECOMPUTED_SQRT 2
#define LIBCOMMUTE_SPIN_MAX_NUM_PRECOMPUTED_SQRT 3
#include "act.cpp"
