#define READS 1
#include "imgdrv.hpp"
