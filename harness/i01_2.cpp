#define PART 2
#include "pixfmt.hpp"
