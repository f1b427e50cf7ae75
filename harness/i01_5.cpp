#define PART 5
#include "pixfmt.hpp"
