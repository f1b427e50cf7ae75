#define PART 6
#include "pixfmt.hpp"
