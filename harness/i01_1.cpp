#define PART 1
#include "pixfmt.hpp"
