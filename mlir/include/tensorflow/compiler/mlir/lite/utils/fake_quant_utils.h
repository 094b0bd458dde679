// Stand-in for the header of this name.
#include "standin/world.h"
