#pragma once
#include "lce_stub/ruy_all.h"
