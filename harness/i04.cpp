#define PART 0
#include "pixfmt.hpp"
