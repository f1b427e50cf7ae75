#define READS 0
#include "imgdrv.hpp"
