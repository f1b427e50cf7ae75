#define PART 3
#include "pixfmt.hpp"
