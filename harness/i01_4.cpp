#define PART 4
#include "pixfmt.hpp"
